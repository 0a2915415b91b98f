//! Single-threaded executor whose every scheduling decision is made by the caller.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, Once};
use std::task::{Context, Poll, Wake, Waker};

pub type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

struct Ready {
    queue: VecDeque<usize>,
}

struct TaskWaker {
    id: usize,
    ready: Arc<Mutex<Ready>>,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }

    fn wake_by_ref(self: &Arc<Self>) {
        let mut r = self.ready.lock().unwrap_or_else(|e| e.into_inner());
        if !r.queue.contains(&self.id) {
            r.queue.push_back(self.id);
        }
    }
}

struct Task {
    name: String,
    fut: Option<BoxFut>,
    waker: Waker,
}

#[derive(Clone)]
pub struct Spawner(Rc<RefCell<Vec<(String, BoxFut)>>>);

impl Spawner {
    pub fn spawn(&self, name: impl Into<String>, fut: impl Future<Output = ()> + 'static) {
        self.0.borrow_mut().push((name.into(), Box::pin(fut)));
    }
}

pub struct Exec {
    ready: Arc<Mutex<Ready>>,
    tasks: Vec<Task>,
    spawner: Spawner,
    pub polls: u64,
}

#[derive(Debug)]
pub enum Polled {
    Pending,
    Done,
    Panicked(String),
}

thread_local! {
    static PULSE: RefCell<Option<Arc<AtomicU64>>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static SILENT: Cell<bool> = const { Cell::new(false) };
}

/// Counts this thread's polls in `p`, for whoever waits for it.
pub fn set_pulse(p: Arc<AtomicU64>) {
    PULSE.with(|x| *x.borrow_mut() = Some(p));
}

pub fn install_panic_hook() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let silent = SILENT.try_with(|s| s.get()).unwrap_or(false);
            if silent {
                let msg = payload_str(info.payload());
                let loc = info
                    .location()
                    .map(|l| format!("{}:{}", l.file(), l.line()))
                    .unwrap_or_default();
                let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
            } else {
                prev(info);
            }
        }));
    });
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Runs `f`, turning a panic of the code under test into an error message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = SILENT.with(|s| s.replace(true));
    let res = catch_unwind(AssertUnwindSafe(f));
    SILENT.with(|s| s.set(old));
    res.map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_string())
    })
}

impl Exec {
    pub fn new() -> Self {
        install_panic_hook();
        Self {
            ready: Arc::new(Mutex::new(Ready {
                queue: VecDeque::new(),
            })),
            tasks: Vec::new(),
            spawner: Spawner(Rc::new(RefCell::new(Vec::new()))),
            polls: 0,
        }
    }

    pub fn spawner(&self) -> Spawner {
        self.spawner.clone()
    }

    pub fn spawn(&mut self, name: impl Into<String>, fut: impl Future<Output = ()> + 'static) -> usize {
        self.spawn_boxed(name.into(), Box::pin(fut))
    }

    fn spawn_boxed(&mut self, name: String, fut: BoxFut) -> usize {
        let id = self.tasks.len();
        let waker = Waker::from(Arc::new(TaskWaker {
            id,
            ready: self.ready.clone(),
        }));
        self.tasks.push(Task {
            name,
            fut: Some(fut),
            waker: waker.clone(),
        });
        waker.wake();
        id
    }

    pub fn adopt_spawned(&mut self) -> Vec<(usize, String)> {
        let mut out = Vec::new();
        loop {
            let new: Vec<_> = self.spawner.0.borrow_mut().drain(..).collect();
            if new.is_empty() {
                return out;
            }
            for (name, fut) in new {
                let id = self.spawn_boxed(name.clone(), fut);
                out.push((id, name));
            }
        }
    }

    /// Ready tasks, longest ready first.
    pub fn ready(&self) -> Vec<usize> {
        let mut r = self.ready.lock().unwrap();
        r.queue.retain(|&id| self.tasks[id].fut.is_some());
        r.queue.iter().copied().collect()
    }

    pub fn alive(&self, id: usize) -> bool {
        self.tasks[id].fut.is_some()
    }

    pub fn alive_tasks(&self) -> Vec<usize> {
        (0..self.tasks.len()).filter(|&i| self.alive(i)).collect()
    }

    pub fn name(&self, id: usize) -> &str {
        &self.tasks[id].name
    }

    pub fn poll(&mut self, id: usize) -> Polled {
        self.polls += 1;
        PULSE.with(|p| {
            if let Some(p) = &*p.borrow() {
                p.fetch_add(1, Ordering::Relaxed);
            }
        });
        self.ready.lock().unwrap().queue.retain(|&i| i != id);
        let Some(mut fut) = self.tasks[id].fut.take() else {
            return Polled::Done;
        };
        let waker = self.tasks[id].waker.clone();
        let res = guarded(|| {
            let mut cx = Context::from_waker(&waker);
            fut.as_mut().poll(&mut cx)
        });
        match res {
            Ok(Poll::Pending) => {
                self.tasks[id].fut = Some(fut);
                Polled::Pending
            }
            Ok(Poll::Ready(())) => match guarded(move || drop(fut)) {
                Ok(()) => Polled::Done,
                Err(e) => Polled::Panicked(e),
            },
            Err(e) => {
                let _ = guarded(move || drop(fut));
                Polled::Panicked(e)
            }
        }
    }

    /// Drops a task, as happens when an application aborts it.
    pub fn kill(&mut self, id: usize) -> Result<(), String> {
        match self.tasks[id].fut.take() {
            Some(fut) => guarded(move || drop(fut)),
            None => Ok(()),
        }
    }
}

impl Drop for Exec {
    fn drop(&mut self) {
        for t in &mut self.tasks {
            if let Some(f) = t.fut.take() {
                let _ = guarded(move || drop(f));
            }
        }
    }
}
