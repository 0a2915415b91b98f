//! Transport wrapper between a real client or connection and a real in-process transport. It counts
//! operations, injects faults at a chosen operation, stalls, and lowers the announced protocol
//! version.

use aldrin_core::channel::{self, Bounded, Disconnected, Unbounded};
use crate::val;
use crate::wire::model::min_version;
use aldrin_core::message::{Connect2, Message, MessageKind, MessageOps, StartBusListenerResult};
use aldrin_core::tokio::{TokioTransport, TokioTransportError};
use aldrin_core::transport::{AsyncTransport, AsyncTransportExt, Buffered};
use aldrin_core::{BusListenerCookie, ServiceCookie};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum TapErr {
    /// The fault this tap was told to inject.
    Injected,
    /// What the wrapped transport reports when its peer is gone.
    Closed,
    /// A message could not be decoded.
    Codec,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FaultKind {
    /// Every operation fails from now on; the peer notices when the wrapper is dropped.
    Error,
    /// Like `Error`, and the peer sees the end of the stream at once.
    Cut,
    /// Only sending fails.
    SendOnly,
    /// Only receiving fails.
    RecvOnly,
}

#[derive(Default)]
pub struct TapState {
    pub ops: u64,
    /// Number of further operations before the fault hits.
    pub fault_in: Option<u64>,
    pub fault_kind: Option<FaultKind>,
    pub fired: bool,
    cut: bool,
    pub stalled: bool,
    pub dropped: bool,
    pub minor: Option<u32>,
    pub major: Option<u32>,
    /// Negotiated minor version, once known to the simulator; 0 on the broker's side.
    pub ver: u32,
    wakers: Vec<Waker>,
    pub sent: u64,
    pub received: u64,
    /// What was subscribed to through this transport.
    pub subs: HashMap<ServiceCookie, Subscribed>,
    /// Bus listeners created through this transport.
    pub listeners: BTreeSet<BusListenerCookie>,
    /// How often the broker confirmed that it started a bus listener.
    pub starts: u64,
}

#[derive(Debug, Default)]
pub struct Subscribed {
    pub events: BTreeSet<u32>,
    pub all: bool,
    pub service: bool,
}

pub type TapRef = Rc<RefCell<TapState>>;

type Inner = Pin<Box<dyn AsyncTransport<Error = TapErr>>>;

pub struct Tap {
    inner: Option<Inner>,
    st: TapRef,
}

impl TapState {
    fn got(&mut self, msg: &Message) {
        if let Message::CreateBusListenerReply(m) = msg {
            self.listeners.insert(m.cookie);
        }
        if let Message::StartBusListenerReply(m) = msg {
            self.starts += (m.result == StartBusListenerResult::Ok) as u64;
        }
    }

    fn put(&mut self, msg: &Message) {
        if let Message::DestroyBusListener(m) = msg {
            self.listeners.remove(&m.cookie);
        }
        let (cookie, change): (_, &dyn Fn(&mut Subscribed)) = match msg {
            Message::SubscribeEvent(m) => (m.service_cookie, &|s| {
                s.events.insert(m.event);
            }),
            Message::UnsubscribeEvent(m) => (m.service_cookie, &|s| {
                s.events.remove(&m.event);
            }),
            Message::SubscribeAllEvents(m) => (m.service_cookie, &|s| s.all = true),
            Message::UnsubscribeAllEvents(m) => (m.service_cookie, &|s| s.all = false),
            Message::SubscribeService(m) => (m.service_cookie, &|s| s.service = true),
            Message::UnsubscribeService(m) => (m.service_cookie, &|s| s.service = false),
            _ => return,
        };
        change(self.subs.entry(cookie).or_default());
    }

    fn wake(&mut self) -> Vec<Waker> {
        std::mem::take(&mut self.wakers)
    }
}

pub fn inject_now(t: &TapRef, kind: FaultKind) {
    let wakers = {
        let mut s = t.borrow_mut();
        if s.dropped {
            return;
        }
        s.fault_in = Some(0);
        s.fault_kind = Some(kind);
        s.wake()
    };
    wakers.into_iter().for_each(Waker::wake);
}

pub fn unstall(t: &TapRef) {
    let wakers = {
        let mut s = t.borrow_mut();
        s.stalled = false;
        s.wake()
    };
    wakers.into_iter().for_each(Waker::wake);
}

#[derive(Debug, Clone, Copy)]
pub enum Medium {
    Unbounded,
    Bounded(usize),
    BufferedBounded(usize),
    Stream(usize),
    BufferedStream(usize),
}

thread_local! {
    static BAD: RefCell<Option<(&'static str, String)>> = const { RefCell::new(None) };
}

/// What a client sent or was sent although its protocol version does not know it.
pub fn take_bad() -> Option<(&'static str, String)> {
    BAD.with(|b| b.borrow_mut().take())
}

/// Compares a message with the protocol version of the client that sends or gets it.
fn inspect(ver: u32, msg: &Message, sent: bool) {
    let kind = msg.kind();
    let v2 = || msg.value().is_some_and(|v| val::decode(v).is_ok_and(|d| d.uses_v2));
    if sent && matches!(kind, MessageKind::Connect | MessageKind::Connect2) && v2() {
        // Nothing has been negotiated yet: it has to be readable with any version.
        let m = format!("a client sent {kind:?} with a newer encoding");
        BAD.with(|b| *b.borrow_mut() = Some(("newer-encoding", m)));
    }
    if ver == 0
        || matches!(
            kind,
            MessageKind::Connect
                | MessageKind::Connect2
                | MessageKind::ConnectReply
                | MessageKind::ConnectReply2
        )
    {
        return;
    }
    let dir = if sent { "sent" } else { "was sent" };
    if min_version(kind) > ver {
        let m = format!("a client with version 1.{ver} {dir} {kind:?}");
        BAD.with(|b| *b.borrow_mut() = Some(("newer-kind", m)));
    } else if ver < 20 {
        if v2() {
            let m = format!("a client with version 1.{ver} {dir} {kind:?} with a newer encoding");
            BAD.with(|b| *b.borrow_mut() = Some(("newer-encoding", m)));
        }
    }
}

fn of_disc(_: Disconnected) -> TapErr {
    TapErr::Closed
}

fn of_tokio(e: TokioTransportError) -> TapErr {
    match e {
        TokioTransportError::Io(_) => TapErr::Closed,
        _ => TapErr::Codec,
    }
}

fn unbounded(t: Unbounded) -> Inner {
    Box::pin(t.map_err(of_disc))
}

fn bounded(t: Bounded) -> Inner {
    Box::pin(t.map_err(of_disc))
}

pub fn pair(m: Medium) -> ((Tap, TapRef), (Tap, TapRef)) {
    let (a, b): (Inner, Inner) = match m {
        Medium::Unbounded => {
            let (a, b) = channel::unbounded();
            (unbounded(a), unbounded(b))
        }
        Medium::Bounded(n) => {
            let (a, b) = channel::bounded(n);
            (bounded(a), bounded(b))
        }
        Medium::BufferedBounded(n) => {
            let (a, b) = channel::bounded(n);
            (
                Box::pin(Buffered::new(bounded(a))),
                Box::pin(Buffered::new(bounded(b))),
            )
        }
        Medium::Stream(n) => {
            let (a, b) = ::tokio::io::duplex(n);
            (
                Box::pin(TokioTransport::new(a).map_err(of_tokio)),
                Box::pin(TokioTransport::new(b).map_err(of_tokio)),
            )
        }
        Medium::BufferedStream(n) => {
            let (a, b) = ::tokio::io::duplex(n);
            (
                Box::pin(Buffered::new(TokioTransport::new(a).map_err(of_tokio))),
                Box::pin(Buffered::new(TokioTransport::new(b).map_err(of_tokio))),
            )
        }
    };
    (Tap::wrap(a), Tap::wrap(b))
}

impl Tap {
    fn wrap(inner: Inner) -> (Self, TapRef) {
        let st = TapRef::default();
        (
            Self {
                inner: Some(inner),
                st: st.clone(),
            },
            st,
        )
    }

    /// Decides what happens to the next operation.
    fn gate(&mut self, cx: Option<&mut Context>, recv: bool) -> Option<Poll<TapErr>> {
        let mut s = self.st.borrow_mut();
        s.ops += 1;
        if let Some(n) = s.fault_in {
            if n == 0 {
                let kind = s.fault_kind.unwrap_or(FaultKind::Error);
                let hit = match kind {
                    FaultKind::Error | FaultKind::Cut => true,
                    FaultKind::SendOnly => !recv,
                    FaultKind::RecvOnly => recv,
                };
                if hit {
                    s.fired = true;
                    s.cut |= kind == FaultKind::Cut;
                    let cut = s.cut;
                    drop(s);
                    if cut {
                        self.inner = None;
                    }
                    return Some(Poll::Ready(TapErr::Injected));
                }
            } else {
                s.fault_in = Some(n - 1);
            }
        }
        let cx = cx?;
        if recv && s.wakers.len() > 8 {
            s.wakers.remove(0);
        }
        s.wakers.push(cx.waker().clone());
        s.stalled.then_some(Poll::Pending)
    }
}

impl Drop for Tap {
    fn drop(&mut self) {
        if let Ok(mut s) = self.st.try_borrow_mut() {
            s.dropped = true;
            s.wakers.clear();
        }
    }
}

macro_rules! gate {
    ($s:expr, $cx:expr, $recv:expr) => {
        match $s.gate($cx, $recv) {
            Some(Poll::Ready(e)) => return Poll::Ready(Err(e)),
            Some(Poll::Pending) => return Poll::Pending,
            None => {}
        }
    };
}

impl AsyncTransport for Tap {
    type Error = TapErr;

    fn receive_poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message, TapErr>> {
        gate!(self, Some(cx), true);
        let r = self.inner.as_mut().unwrap().as_mut().receive_poll(cx);
        if let Poll::Ready(Ok(m)) = &r {
            let mut s = self.st.borrow_mut();
            s.received += 1;
            s.got(m);
            inspect(s.ver, m, false);
        }
        r
    }

    fn send_poll_ready(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), TapErr>> {
        gate!(self, Some(cx), false);
        self.inner.as_mut().unwrap().as_mut().send_poll_ready(cx)
    }

    fn send_start(mut self: Pin<&mut Self>, msg: Message) -> Result<(), TapErr> {
        if let Some(Poll::Ready(e)) = self.gate(None, false) {
            return Err(e);
        }
        let msg = {
            let mut s = self.st.borrow_mut();
            s.sent += 1;
            s.put(&msg);
            inspect(s.ver, &msg, true);
            match msg {
                Message::Connect2(m) => Message::Connect2(Connect2 {
                    major_version: s.major.unwrap_or(m.major_version),
                    minor_version: s.minor.unwrap_or(m.minor_version),
                    ..m
                }),
                msg => msg,
            }
        };
        self.inner.as_mut().unwrap().as_mut().send_start(msg)
    }

    fn send_poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), TapErr>> {
        gate!(self, Some(cx), false);
        self.inner.as_mut().unwrap().as_mut().send_poll_flush(cx)
    }
}
