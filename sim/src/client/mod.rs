//! Client-level harness: real `Client`s, handles and resources on real transports, connected to a
//! real `Broker`, driven through the public API only. Every task of the system and of the
//! applications runs on the simulated executor. A raw observer connection records the order of bus
//! events.

mod actors;
mod checks;
mod tap;
mod variants;
mod world;

use crate::choice::{self, Act, Choices, Policy};
use crate::exec::{Exec, Polled};
use crate::run::Outcome;
use crate::val;
use aldrin::error::{ConnectError, RunError};
use aldrin::Client;
use aldrin_broker::{AcceptError, Acceptor, Broker, BrokerHandle, ConnectionError};
use aldrin_core::channel::{self, Unbounded};
use aldrin_core::message::*;
use aldrin_core::transport::AsyncTransportExt;
use aldrin_core::{
    tags,
    BusListenerCookie, BusListenerFilter, BusListenerScope, BusListenerServiceFilter, ObjectCookie,
    ObjectId, ObjectUuid, SerializedValue, SerializedValueSlice, ServiceCookie, ServiceUuid,
};
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::rc::Rc;
use tap::{FaultKind, Medium, TapErr};
use uuid::Uuid;
use world::*;

const MAX_STEPS: u64 = 40_000;
/// With a byte stream that takes only a few bytes at a time, or bursts of operations.
const MAX_STEPS_NARROW: u64 = 600_000;
const N_OPS: usize = 41;

pub struct Profile {
    pub ops: (u32, u32),
    pub clients: (u32, u32),
    pub weights: [u32; N_OPS],
}

mod op {
    pub const CLIENT: usize = 0;
    pub const OBJ_NEW: usize = 1;
    pub const OBJ_END: usize = 2;
    pub const SVC_NEW: usize = 3;
    pub const SVC_CMD: usize = 4;
    pub const EMIT: usize = 5;
    pub const PROXY_NEW: usize = 6;
    pub const SUB: usize = 7;
    pub const UNSUB: usize = 8;
    pub const PROXY_CMD: usize = 9;
    pub const CALL: usize = 10;
    pub const CALL_ABORT: usize = 11;
    pub const RESOLVE: usize = 12;
    pub const CHAN_NEW: usize = 13;
    pub const CHAN_GO: usize = 14;
    pub const SEND: usize = 15;
    pub const CHAN_READ: usize = 16;
    pub const CHAN_CLOSE: usize = 17;
    pub const CHAN_MOVE: usize = 18;
    pub const LIS_NEW: usize = 19;
    pub const LIS_FILTER: usize = 20;
    pub const LIS_START: usize = 21;
    pub const LIS_CMD: usize = 22;
    pub const DISC_NEW: usize = 23;
    pub const DISC_CMD: usize = 24;
    pub const SCOPE: usize = 25;
    pub const LIFETIME: usize = 26;
    pub const FIND: usize = 27;
    pub const SIMPLE: usize = 28;
    pub const KILL: usize = 29;
    pub const SETTLE: usize = 30;
    pub const SHUTDOWN: usize = 31;
    pub const DROP_ALL: usize = 32;
    pub const CONN_DOWN: usize = 33;
    pub const FAULT_ARM: usize = 34;
    pub const FAULT_NOW: usize = 35;
    pub const STALL: usize = 36;
    pub const BROKER_DOWN: usize = 37;
    pub const CRASH: usize = 38;
    pub const DROP_HANDLE: usize = 39;
    pub const UNSTALL: usize = 40;
}

pub fn profile(property: &str) -> Profile {
    use op::*;
    let mut w = [0; N_OPS];
    let base: &[(usize, u32)] = &[
        (CLIENT, 20),
        (OBJ_NEW, 100),
        (OBJ_END, 45),
        (SVC_NEW, 110),
        (SVC_CMD, 45),
        (EMIT, 80),
        (PROXY_NEW, 80),
        (SUB, 90),
        (UNSUB, 45),
        (PROXY_CMD, 30),
        (CALL, 110),
        (CALL_ABORT, 35),
        (RESOLVE, 35),
        (CHAN_NEW, 45),
        (CHAN_GO, 80),
        (SEND, 80),
        (CHAN_READ, 35),
        (CHAN_CLOSE, 35),
        (CHAN_MOVE, 25),
        (LIS_NEW, 30),
        (LIS_FILTER, 45),
        (LIS_START, 60),
        (LIS_CMD, 20),
        (DISC_NEW, 30),
        (DISC_CMD, 30),
        (SCOPE, 15),
        (LIFETIME, 30),
        (FIND, 40),
        (SIMPLE, 35),
        (KILL, 25),
        (SETTLE, 45),
        (SHUTDOWN, 6),
        (DROP_ALL, 5),
        (CONN_DOWN, 5),
        (FAULT_ARM, 4),
        (FAULT_NOW, 3),
        (STALL, 20),
        (BROKER_DOWN, 1),
        (CRASH, 3),
        (DROP_HANDLE, 4),
        (UNSTALL, 20),
    ];
    for &(i, x) in base {
        w[i] = x;
    }
    let mut ops = (10, 140);
    let scale = |w: &mut [u32; N_OPS], which: &[usize], num: u32, den: u32| {
        for &i in which {
            w[i] = w[i] * num / den;
        }
    };
    match property {
        "C15" => {
            scale(
                &mut w,
                &[SHUTDOWN, DROP_ALL, CONN_DOWN, FAULT_ARM, FAULT_NOW, CRASH, DROP_HANDLE, CLIENT],
                4,
                1,
            );
            scale(&mut w, &[BROKER_DOWN], 6, 1);
            ops = (5, 90);
        }
        "C19" => {
            scale(&mut w, &[DISC_NEW, DISC_CMD, SCOPE, LIFETIME, FIND], 4, 1);
            scale(&mut w, &[OBJ_NEW, OBJ_END, SVC_NEW, SVC_CMD], 2, 1);
            scale(
                &mut w,
                &[CHAN_NEW, CHAN_GO, SEND, CHAN_READ, CHAN_CLOSE, CHAN_MOVE, CALL, CALL_ABORT, RESOLVE, SUB, UNSUB, EMIT, PROXY_NEW],
                1,
                5,
            );
        }
        "C02" => {
            scale(&mut w, &[CALL, CALL_ABORT, RESOLVE, PROXY_NEW], 3, 1);
            scale(&mut w, &[DISC_NEW, DISC_CMD, LIS_NEW, LIS_START, LIS_FILTER, CHAN_NEW, CHAN_GO, SEND], 1, 6);
        }
        "C04" => {
            scale(&mut w, &[SUB, UNSUB, EMIT, PROXY_NEW, PROXY_CMD], 3, 1);
            scale(&mut w, &[DISC_NEW, DISC_CMD, LIS_NEW, LIS_START, LIS_FILTER, CHAN_NEW, CHAN_GO, SEND], 1, 6);
        }
        "C05" => {
            scale(&mut w, &[CHAN_NEW, CHAN_GO, SEND, CHAN_READ, CHAN_CLOSE, CHAN_MOVE], 4, 1);
            scale(&mut w, &[DISC_NEW, DISC_CMD, LIS_NEW, LIS_START, LIS_FILTER, CALL, SUB, UNSUB, EMIT, SVC_NEW], 1, 6);
        }
        "C10" => {
            scale(&mut w, &[LIS_NEW, LIS_START, LIS_FILTER, LIS_CMD], 4, 1);
            scale(&mut w, &[OBJ_NEW, OBJ_END, SVC_NEW, SVC_CMD], 2, 1);
            scale(&mut w, &[CHAN_NEW, CHAN_GO, SEND, CALL, SUB, UNSUB, EMIT], 1, 6);
        }
        _ => {}
    }
    Profile {
        ops,
        clients: (1, 4),
        weights: w,
    }
}

struct Sim {
    exec: Exec,
    w: W,
    cx: Cx,
    broker: usize,
    observer: [usize; 2],
    metas: HashMap<usize, TaskMeta>,
    steps: u64,
    narrow: bool,
    wide: bool,
    fresh: u128,
}

fn err_kind(e: &TapErr) -> &'static str {
    match e {
        TapErr::Injected => "injected",
        TapErr::Closed => "closed",
        TapErr::Codec => "codec",
    }
}

fn same_value(a: &SerializedValueSlice, b: &SerializedValueSlice) -> bool {
    match (val::decode(a), val::decode(b)) {
        (Ok(a), Ok(b)) => a.value == b.value,
        _ => false,
    }
}

async fn observe(mut t: Unbounded, w: W, stop: Inbox<()>) -> Result<(), String> {
    macro_rules! tx {
        ($m:expr) => {
            t.send($m).await.map_err(|_| "send")?;
            t.flush().await.map_err(|_| "flush")?;
        };
    }
    macro_rules! rx {
        () => {
            t.receive().await.map_err(|_| "receive")?
        };
    }
    let value = SerializedValue::serialize(ConnectData::new()).map_err(|_| "data")?;
    tx!(Connect2 {
        major_version: 1,
        minor_version: 20,
        value,
    });
    let _: Message = rx!();
    tx!(CreateBusListener { serial: 0 });
    let Message::CreateBusListenerReply(CreateBusListenerReply { cookie, .. }) = rx!() else {
        return Err("unexpected reply".into());
    };
    let cookie: BusListenerCookie = cookie;
    tx!(AddBusListenerFilter {
        cookie,
        filter: BusListenerFilter::any_object(),
    });
    tx!(AddBusListenerFilter {
        cookie,
        filter: BusListenerFilter::any_object_any_service(),
    });
    tx!(StartBusListener {
        serial: 1,
        cookie,
        scope: BusListenerScope::All,
    });
    let mut asked = false;
    loop {
        let n = {
            let mut rx = std::pin::pin!(t.receive());
            std::future::poll_fn(|cx| {
                if !asked {
                    if let Some(()) = stop.pop(cx) {
                        return std::task::Poll::Ready(None);
                    }
                }
                std::future::Future::poll(rx.as_mut(), cx).map(Some)
            })
            .await
        };
        match n {
            None => {
                asked = true;
                tx!(Shutdown);
            }
            Some(Err(_)) => return Err("receive".into()),
            Some(Ok(Message::EmitBusEvent(m))) => {
                let mut w = w.borrow_mut();
                tr!(w, "   bus {}: {}", w.bus.now(), show(&m.event));
                if let Err(e) = w.bus.push(m.event) {
                    w.fail("bus-history", &["C10", "C03", "C06"], e);
                }
            }
            Some(Ok(Message::Shutdown(_))) => {
                if !asked {
                    tx!(Shutdown);
                }
                return Ok(());
            }
            Some(Ok(_)) => {}
        }
    }
}

fn short(u: Uuid) -> String {
    u.to_string()[..8].to_string()
}

fn show(ev: &aldrin_core::BusEvent) -> String {
    use aldrin_core::BusEvent::*;
    match ev {
        ObjectCreated(o) => format!("+obj {} {}", o.uuid.0.as_u128() & 0xff, short(o.cookie.0)),
        ObjectDestroyed(o) => format!("-obj {} {}", o.uuid.0.as_u128() & 0xff, short(o.cookie.0)),
        ServiceCreated(s) => format!(
            "+svc {} {} of {}",
            s.uuid.0.as_u128() & 0xff,
            short(s.cookie.0),
            short(s.object_id.cookie.0)
        ),
        ServiceDestroyed(s) => format!("-svc {} {}", s.uuid.0.as_u128() & 0xff, short(s.cookie.0)),
    }
}

impl Sim {
    fn new(trace: bool) -> Self {
        let mut exec = Exec::new();
        let broker = Broker::new();
        let bh = broker.handle().clone();
        let w = Rc::new(RefCell::new(World::new(trace)));
        let broker = exec.spawn("broker", broker.run());
        let cx = Cx {
            w: w.clone(),
            sp: exec.spawner(),
            broker: bh.clone(),
        };
        let stop = Inbox::new();
        w.borrow_mut().observer_stop = Some(stop.clone());
        let (a, b) = channel::unbounded();
        let mut bh2 = bh.clone();
        let w2 = w.clone();
        let conn = exec.spawn("observer connection", async move {
            match bh2.connect(b).await {
                Ok(conn) => {
                    if let Err(e) = conn.run().await {
                        w2.borrow_mut().fail(
                            "observer",
                            &["C06"],
                            format!("the observer's connection failed with {e:?}"),
                        );
                    }
                }
                Err(e) => w2.borrow_mut().fail("observer", &["C06"], format!("{e:?}")),
            }
        });
        let w2 = w.clone();
        let obs = exec.spawn("observer", async move {
            let r = observe(a, w2.clone(), stop).await;
            let mut w = w2.borrow_mut();
            w.observer_done = true;
            w.bus_lost = true;
            if let Err(e) = r {
                w.fail("observer", &["C06"], format!("the observer lost its connection: {e}"));
            }
        });
        let mut sim = Self {
            exec,
            w,
            cx,
            broker,
            observer: [conn, obs],
            metas: HashMap::new(),
            steps: 0,
            narrow: false,
            wide: false,
            fresh: 0,
        };
        // The observer is in place before anything else happens.
        for _ in 0..1000 {
            let Some(&t) = sim.exec.ready().first() else {
                break;
            };
            sim.poll(t);
        }
        sim
    }

    fn failed(&self) -> bool {
        self.w.borrow().violation.is_some()
    }

    fn panicked(&mut self, name: &str, msg: String) {
        if msg.contains("src/client/") && !msg.contains("aldrin") || msg.contains("sim/src/") {
            panic!("harness: {name}: {msg}");
        }
        self.w
            .borrow_mut()
            .fail("panic", &[], format!("{name} panicked: {msg}"));
    }

    fn adopt(&mut self) {
        for (id, _) in self.exec.adopt_spawned() {
            let meta = self.w.borrow_mut().metas.pop_front().expect("meta");
            self.metas.insert(id, meta);
        }
        // Others may see the consequences of a fault before its client does.
        let mut w = self.w.borrow_mut();
        for i in 0..w.clients.len() {
            let c = &w.clients[i];
            if !c.stopping && (c.tap.borrow().fired || c.btap.borrow().fired) {
                w.stop(i, false);
            }
        }
    }

    fn poll(&mut self, t: usize) {
        if self.w.borrow().trace.is_some() {
            let name = self.exec.name(t).to_string();
            let mut w = self.w.borrow_mut();
            tr!(w, "poll {t} {name}");
        }
        if let Some(m) = self.metas.get_mut(&t) {
            m.polled = true;
        }
        if let Polled::Panicked(msg) = self.exec.poll(t) {
            let name = self.exec.name(t).to_string();
            self.panicked(&name, msg);
        }
        self.adopt();
    }

    /// Keeps the observer up to date with the broker.
    fn observe(&mut self) {
        loop {
            let ready = self.exec.ready();
            let Some(&t) = ready.iter().find(|t| self.observer.contains(t)) else {
                return;
            };
            if self.failed() {
                return;
            }
            self.poll(t);
        }
    }

    fn after(&mut self) {
        self.observe();
        if let Some((class, msg)) = tap::take_bad() {
            self.w.borrow_mut().fail(class, &["C12", "C06"], msg);
        }
        let mut w = self.w.borrow_mut();
        w.now += 1;
        if w.states.len() < 4096 {
            let mut h = DefaultHasher::new();
            w.bus.live_objs(w.bus.now()).len().hash(&mut h);
            w.bus.live_svcs(w.bus.now()).len().hash(&mut h);
            let open: Vec<_> = w
                .jobs
                .iter()
                .filter(|j| j.st == JobSt::Open)
                .map(|j| (j.client, std::mem::discriminant(&j.wait)))
                .collect();
            open.hash(&mut h);
            for c in &w.clients {
                (c.connected, c.stopping, c.res.is_some(), c.conn_res.is_some()).hash(&mut h);
            }
            for p in w.proxies.iter().filter(|p| p.alive) {
                (p.subs.iter().filter(|s| s.end.is_none()).count(), p.must.len()).hash(&mut h);
            }
            for c in &w.chans {
                (c.sent - c.consumed.min(c.sent), c.ends[0].closed, c.ends[1].closed).hash(&mut h);
            }
            let f = h.finish();
            w.states.insert(f);
        }
    }

    /// One step: `None` if nothing can move, `Some(true)` if it is an operation's turn.
    fn step(&mut self, c: &mut Choices, with_op: bool) -> Option<bool> {
        if self.failed() {
            return None;
        }
        self.adopt();
        let mut acts: Vec<Act> = self
            .exec
            .ready()
            .into_iter()
            .map(|t| Act {
                key: t as u32,
                env: false,
            })
            .collect();
        if with_op {
            acts.push(Act {
                key: 999_999,
                env: true,
            });
        }
        if acts.is_empty() {
            return None;
        }
        let i = c.schedule(&acts);
        if acts[i].env {
            return Some(true);
        }
        self.steps += 1;
        let max = if self.narrow || self.wide { MAX_STEPS_NARROW } else { MAX_STEPS };
        if self.steps > max {
            self.w.borrow_mut().fail(
                "livelock",
                &["C06"],
                format!("still busy after {max} steps"),
            );
            return None;
        }
        self.poll(acts[i].key as usize);
        self.after();
        Some(false)
    }

    fn run_idle(&mut self, c: &mut Choices) {
        while self.step(c, false).is_some() {}
    }

    /// Lets everything come to rest and judges the result.
    /// Has every reader read whatever there is.
    fn resume_readers(&mut self) {
        let w = self.w.borrow();
        for s in w.svcs.iter().filter(|s| s.alive && !s.reading) {
            s.inbox.push(SvcCmd::Read(u32::MAX));
        }
        for p in w.proxies.iter().filter(|p| p.alive && !p.reading) {
            p.inbox.push(ProxyCmd::Read(u32::MAX));
        }
        for l in w.listeners.iter().filter(|l| l.alive && !l.reading) {
            l.inbox.push(LisCmd::Read(u32::MAX));
        }
        for d in w.discs.iter().filter(|d| d.alive && !d.reading) {
            d.inbox.push(DiscCmd::Read(u32::MAX));
        }
    }

    fn settle(&mut self, c: &mut Choices) {
        let taps: Vec<_> = {
            let w = self.w.borrow();
            w.clients
                .iter()
                .flat_map(|c| [c.tap.clone(), c.btap.clone()])
                .collect()
        };
        taps.iter().for_each(tap::unstall);
        self.run_idle(c);
        if self.failed() {
            return;
        }
        let views: Vec<_> = {
            let w = self.w.borrow();
            w.discs
                .iter()
                .filter(|d| d.alive && d.reading && !d.broken)
                .map(|d| d.inbox.clone())
                .collect()
        };
        if !views.is_empty() {
            views.into_iter().for_each(|i| i.push(DiscCmd::View));
            self.run_idle(c);
        }
        if self.failed() {
            return;
        }
        let mut w = self.w.borrow_mut();
        tr!(w, "-- settled");
        checks::quiescent(&mut w);
    }

    fn kill(&mut self, t: usize) {
        {
            let name = self.exec.name(t).to_string();
            let mut w = self.w.borrow_mut();
            tr!(w, "   kill {t} {name}");
        }
        if let Err(e) = self.exec.kill(t) {
            let name = self.exec.name(t).to_string();
            self.panicked(&name, e);
        }
        self.adopt();
    }

    fn tasks_of(&self, client: usize) -> Vec<usize> {
        let mut v: Vec<usize> = self
            .metas
            .iter()
            .filter(|(t, m)| m.client == client && self.exec.alive(**t))
            .map(|(t, _)| *t)
            .collect();
        v.sort();
        v
    }

    fn new_client(&mut self, c: &mut Choices, versions: bool) {
        let least = if self.wide { 64 } else { 1 };
        let medium = match c.below(8) {
            0..=2 => Medium::Unbounded,
            3 | 4 => Medium::Bounded(c.below(3) as usize),
            5 => Medium::BufferedBounded(c.below(3) as usize),
            6 => Medium::Stream(least + (c.below(100) * c.below(40)) as usize),
            _ => Medium::BufferedStream(least + (c.below(100) * c.below(40)) as usize),
        };
        self.narrow |= matches!(medium, Medium::Stream(n) | Medium::BufferedStream(n) if n < 32);
        let ((ct, cref), (bt, bref)) = tap::pair(medium);
        let mut ver = 20;
        let mut legacy = false;
        let mut expect = Greet::Accept;
        if versions {
            ver = 14 + c.below(7);
            legacy = c.chance(1, 8);
            let odd = c.chance(1, 10);
            if legacy {
                ver = 14;
            } else if odd {
                let (major, minor) = *c.pick(&[
                    (1, 0),
                    (1, 13),
                    (0, 20),
                    (2, 14),
                    (2, 20),
                    (1, 21),
                    (1, 34),
                    (1, u32::MAX),
                ]);
                cref.borrow_mut().major = Some(major);
                cref.borrow_mut().minor = Some(minor);
                ver = 20;
                if major != 1 || minor < 14 {
                    expect = Greet::Incompatible;
                }
            } else {
                cref.borrow_mut().minor = Some(ver);
            }
        }
        if expect == Greet::Accept && c.chance(1, 25) {
            expect = Greet::Reject;
        }
        if expect != Greet::Incompatible {
            cref.borrow_mut().ver = ver;
        }
        let mut data = || c.chance(1, 6).then(|| val::gen_value(c, true, 2));
        let (client_data, reply_data) = (data(), data());
        let id;
        {
            let mut w = self.w.borrow_mut();
            id = w.clients.len();
            tr!(w, "op client {id}: 1.{ver} legacy {legacy} over {medium:?}, {expect:?}");
            w.hit(match expect {
                Greet::Accept => "handshakes to be accepted",
                Greet::Reject => "handshakes to be rejected",
                Greet::Incompatible => "handshakes with incompatible versions",
            });
            w.hit("clients");
            w.mixed |= ver != 20;
            w.hit(match medium {
                Medium::Unbounded => "unbounded transports",
                Medium::Bounded(_) | Medium::BufferedBounded(_) => "bounded transports",
                _ => "byte stream transports",
            });
            let clean = w.broker_stopping;
            let stopping = clean || expect != Greet::Accept;
            w.clients.push(ClientRec {
                ver,
                expect,
                handle: None,
                conn: None,
                tap: cref,
                btap: bref,
                task: 0,
                conn_task: 0,
                stopping,
                clean,
                res: None,
                conn_res: None,
                connected: false,
                refused: false,
                own: false,
                forced: false,
                refs: 0,
            });
        }
        let w = self.w.clone();
        let mut bh: BrokerHandle = self.cx.broker.clone();
        let (want, reply) = (client_data.clone(), reply_data.clone());
        let how = self.cx.alt(3);
        let conn = self.exec.spawn(format!("c{id} connection"), async move {
            let acceptor = match Acceptor::new(bt).await {
                Ok(mut a) => {
                    let got = (a.version(), a.client_data());
                    let same = match (want, got.1) {
                        (None, None) => true,
                        // The legacy message always carries a value.
                        (None, Some(g)) => legacy && val::decode(g).is_ok_and(|g| g.value == val::V::None),
                        (Some(w), Some(g)) => same_value(&w, g),
                        _ => false,
                    };
                    if got.0 != aldrin_core::ProtocolVersion::new(1, ver) || !same {
                        let msg = format!("client {id} should connect with 1.{ver}, the broker sees {got:?}");
                        w.borrow_mut().fail("handshake", &["C12"], msg);
                    }
                    if let Some(reply) = reply {
                        match how {
                            0 => a.set_reply_data(reply),
                            1 => drop(a.serialize_reply_data_as::<tags::Value>(&reply)),
                            _ => drop(a.serialize_reply_data(reply)),
                        }
                    }
                    Ok(a)
                }
                Err(e) => Err(e),
            };
            let connected = match acceptor {
                Ok(a) if expect == Greet::Reject => match a.reject().await {
                    Ok(()) => Err(None),
                    Err(e) => Err(Some(e)),
                },
                Ok(a) => a.accept(&mut bh).await.map_err(Some),
                Err(e) => Err(Some(e)),
            };
            let r = match connected {
                Ok(conn) => {
                    {
                        // The broker doesn't look at connections behind a shutdown.
                        let mut w = w.borrow_mut();
                        w.clients[id].refused = w.broker_stopping;
                        w.clients[id].conn = Some(conn.handle().clone());
                    }
                    conn.run().await.map_err(|e| match e {
                        ConnectionError::Transport(e) => err_kind(&e).to_string(),
                        e => format!("{e:?}"),
                    })
                }
                Err(None) => Err("rejected".into()),
                Err(Some(AcceptError::Transport(e))) => Err(err_kind(&e).to_string()),
                Err(Some(AcceptError::Shutdown)) => Err("broker shut down".into()),
                Err(Some(AcceptError::IncompatibleVersion(_))) => Err("incompatible".into()),
                Err(Some(e)) => Err(format!("{e:?}")),
            };
            let mut w = w.borrow_mut();
            tr!(w, "   c{id} connection ended: {r:?}");
            judge_conn(&mut w, id, &r);
            w.clients[id].conn_res = Some(r);
        });
        let w = self.w.clone();
        let task = self.exec.spawn(format!("c{id} client"), async move {
            let mut b = Client::builder(ct);
            if let Some(data) = client_data {
                match how {
                    0 => b.set_data(data),
                    1 => drop(b.serialize_data(data)),
                    _ => drop(b.serialize_data_as::<tags::Value>(&data)),
                }
            }
            let r = if legacy {
                b.connect1_with_data().await.map(|(c, d)| (c, Some(d)))
            } else {
                b.connect_with_data().await
            };
            let judge_data = |d: &Option<SerializedValue>| {
                let same = match (&reply_data, d) {
                    (None, None) => true,
                    (None, Some(d)) => legacy && val::decode(d).is_ok_and(|d| d.value == val::V::None),
                    (Some(a), Some(b)) => same_value(a, b),
                    _ => false,
                };
                if !same {
                    let msg = format!("client {id} got {d:?} as data, the broker sent {reply_data:?}");
                    w.borrow_mut().fail("handshake", &["C12"], msg);
                }
            };
            let r = match r {
                Ok((client, data)) => {
                    judge_data(&data);
                    {
                        let h = client.handle().clone();
                        let mut w = w.borrow_mut();
                        w.clients[id].handle = Some(h);
                        w.clients[id].connected = true;
                        tr!(w, "   c{id} connected");
                    }
                    match client.run().await {
                        Ok(()) => RunRes::Ok,
                        Err(RunError::Transport(e)) => RunRes::Transport(err_kind(&e)),
                        Err(RunError::UnexpectedMessageReceived(m)) => {
                            RunRes::Unexpected(format!("{m:?}"))
                        }
                        Err(e) => RunRes::Other(format!("{e:?}")),
                    }
                }
                Err(ConnectError::Transport(e)) => RunRes::Transport(err_kind(&e)),
                Err(ConnectError::Rejected(data)) => {
                    judge_data(&data);
                    RunRes::Connect("rejected".into())
                }
                Err(ConnectError::IncompatibleVersion) => RunRes::Connect("incompatible".into()),
                Err(e) => RunRes::Connect(format!("{e:?}")),
            };
            let mut w = w.borrow_mut();
            tr!(w, "   c{id} client ended: {r:?}");
            judge_run(&mut w, id, &r);
            w.any_stop = true;
            w.clients[id].res = Some(r);
        });
        let mut w = self.w.borrow_mut();
        w.clients[id].task = task;
        w.clients[id].conn_task = conn;
    }

    fn crash(&mut self, id: usize) {
        let task = {
            let mut w = self.w.borrow_mut();
            if w.clients[id].ended() {
                return;
            }
            tr!(w, "op crash client {id}");
            w.hit("fault: client task dropped");
            w.any_fault = true;
            w.stop(id, false);
            w.clients[id].res = Some(RunRes::Crashed);
            w.clients[id].task
        };
        if let Err(e) = self.exec.kill(task) {
            self.panicked("client", e);
        }
    }

    /// Drops the application's handle.
    fn drop_handle(&mut self, id: usize) {
        let h = {
            let mut w = self.w.borrow_mut();
            let h = w.clients[id].handle.take();
            if h.is_some() && w.clients[id].refs == 0 {
                w.stop_own(id);
            }
            h
        };
        drop(h);
    }

    fn drop_all(&mut self, id: usize) {
        for t in self.tasks_of(id) {
            self.kill(t);
        }
        let objs: Vec<_> = {
            let mut w = self.w.borrow_mut();
            w.objs
                .iter_mut()
                .filter(|o| o.client == id)
                .filter_map(|o| o.obj.take())
                .collect()
        };
        drop(objs);
        self.drop_handle(id);
    }

    fn shutdown(&mut self, id: usize) {
        let mut w = self.w.borrow_mut();
        if let Some(h) = w.clients[id].handle.clone() {
            h.shutdown();
            w.stop_own(id);
        }
    }

    fn conn_down(&mut self, id: usize) {
        let conn = self.w.borrow().clients[id].conn.clone();
        let Some(conn) = conn else {
            return;
        };
        self.w.borrow_mut().stop_forced(id);
        let mut bh = self.cx.broker.clone();
        self.exec.spawn("shutdown connection", async move {
            let _ = bh.shutdown_connection(&conn).await;
        });
    }

    fn broker_down(&mut self) {
        {
            let mut w = self.w.borrow_mut();
            w.broker_stopping = true;
            w.bus_lost = true;
            for i in 0..w.clients.len() {
                w.stop_forced(i);
            }
        }
        let mut bh = self.cx.broker.clone();
        self.exec
            .spawn("shutdown broker", async move { bh.shutdown().await });
    }

    fn idle_down(&mut self) {
        self.w.borrow_mut().idle_requested = true;
        let mut bh = self.cx.broker.clone();
        self.exec
            .spawn("shutdown idle broker", async move { bh.shutdown_idle().await });
    }

    fn outcome(self, c: &Choices) -> Outcome {
        let Self {
            exec, w, cx, steps, ..
        } = self;
        drop(exec);
        drop(cx);
        let mut objs = Vec::new();
        let mut handles = Vec::new();
        let mut w2 = w.borrow_mut();
        for o in &mut w2.objs {
            objs.push(o.obj.take());
        }
        for c in &mut w2.clients {
            handles.push(c.handle.take());
        }
        drop(w2);
        drop(objs);
        drop(handles);
        let mut w = w.borrow_mut();
        let received: u64 = w
            .clients
            .iter()
            .map(|c| c.tap.borrow().received + c.btap.borrow().received)
            .sum();
        let mut cover = std::mem::take(&mut w.cover);
        cover.insert("messages", received);
        Outcome {
            violation: w.violation.take(),
            cover,
            steps,
            sched_hash: c.sched_hash,
            states: std::mem::take(&mut w.states),
            trace: w.trace.take().unwrap_or_default(),
            nontrivial: received >= 8,
        }
    }
}

fn judge_run(w: &mut World, id: usize, r: &RunRes) {
    let c = &w.clients[id];
    let fired = c.tap.borrow().fired;
    let bfired = c.btap.borrow().fired;
    if (fired || bfired) && !c.stopping {
        w.stop(id, false);
    }
    let c = &w.clients[id];
    let ok = match r {
        RunRes::Ok => c.clean,
        RunRes::Transport("injected") => fired,
        RunRes::Connect(m) => match c.expect {
            Greet::Accept => false,
            Greet::Reject => m == "rejected",
            Greet::Incompatible => m == "incompatible",
        },
        RunRes::Transport("closed") => bfired || (!c.connected || c.refused) && w.broker_stopping,
        _ => false,
    };
    if ok {
        let k = match r {
            RunRes::Ok => "clients ended cleanly",
            RunRes::Connect(_) => "clients turned away",
            _ => "clients ended by transport faults",
        };
        w.hit(k);
        return;
    }
    match r {
        RunRes::Unexpected(m) => w.fail(
            "unexpected-message",
            if c.ver < 20 { &["C06", "C12"] } else { &["C06"] },
            format!("client {id} stopped because of an unexpected message: {m}"),
        ),
        _ if !c.connected => w.fail(
            "connect",
            &["C06", "C12"],
            format!("client {id} could not connect: {r:?}"),
        ),
        _ => w.fail(
            "run-result",
            &["C15", "C06"],
            format!("client {id} returned {r:?} (clean cause {}, fault on its side {fired}, on the broker's side {bfired})", w.clients[id].clean),
        ),
    }
}

fn judge_conn(w: &mut World, id: usize, r: &Result<(), String>) {
    w.clients[id].refused |= matches!(r, Err(e) if e == "broker shut down");
    let c = &w.clients[id];
    let fault = c.tap.borrow().fired || c.btap.borrow().fired || c.res == Some(RunRes::Crashed);
    let ok = match r {
        Ok(()) => true,
        Err(e) if e == "injected" => c.btap.borrow().fired,
        // Both sides shut down at the same time: the client may leave first.
        Err(e) if e == "closed" => fault || c.own && (c.forced || w.broker_stopping) && c.res == Some(RunRes::Ok),
        Err(e) if e == "broker shut down" => w.broker_stopping,
        Err(e) if e == "rejected" => c.expect == Greet::Reject,
        Err(e) if e == "incompatible" => c.expect == Greet::Incompatible,
        Err(e) if e == "UnexpectedShutdown" => c.refused && w.broker_stopping,
        Err(_) => false,
    };
    if !ok {
        w.fail(
            "connection-result",
            if c.ver < 20 { &["C15", "C09", "C06", "C12"] } else { &["C15", "C09", "C06"] },
            format!("the connection of client {id} returned {r:?}"),
        );
    }
}

/// How many items a reader shall read before it pauses.
fn read_cmd(c: &mut Choices, reading: bool) -> u32 {
    match (reading, c.chance(1, 2)) {
        (true, true) => 0,
        (false, true) => u32::MAX,
        _ => 1 + c.below(3),
    }
}

fn run_ops(sim: &mut Sim, p: &Profile, c: &mut Choices) {
    let policy = match c.below(8) {
        0 | 1 => Policy::Uniform,
        2 => Policy::MostlyFifo,
        3 => Policy::EnvFirst,
        4 => Policy::TasksFirst,
        5 => Policy::Starve(sim.broker as u32),
        6 => Policy::Starve(3 + c.below(8)),
        _ => Policy::Priorities,
    };
    c.set_policy(policy);
    let alt = match c.below(8) {
        0 => 0,
        _ => c.below(u32::MAX) as u64,
    };
    sim.w.borrow_mut().alt = alt;
    let mut n_ops = p.ops.0 + c.below(p.ops.1 - p.ops.0 + 1);
    match c.below(64) {
        0 => n_ops *= 8,
        1..=4 => n_ops *= 3,
        _ => {}
    }
    let mut drv = Driver {
        weights: p.weights,
        versions: c.chance(1, 3),
        no_stops: c.chance(1, 4),
        pool: (4, 3, 3),
        same: false,
        ids: *c.pick(&[(0, 1), (0, 1), (0, 256), (3, 1 << 16), (u32::MAX, u32::MAX), (9, 1 << 25)]),
        wide: c.chance(1, 20),
    };
    // Runs concentrate on some kinds of operations.
    for i in 0..N_OPS {
        match c.below(8) {
            0 | 1 if i > 1 && i != op::SETTLE => drv.weights[i] = 0,
            2 => drv.weights[i] *= 3,
            _ => {}
        }
    }
    // Half of them even more so, on few entities.
    if c.chance(1, 2) {
        const FOCUS: [&[usize]; 5] = [
            &[op::SUB, op::UNSUB, op::EMIT, op::PROXY_NEW, op::PROXY_CMD],
            &[op::CALL, op::CALL_ABORT, op::RESOLVE, op::PROXY_NEW],
            &[op::CHAN_NEW, op::CHAN_GO, op::SEND, op::CHAN_READ, op::CHAN_CLOSE, op::CHAN_MOVE],
            &[op::LIS_NEW, op::LIS_FILTER, op::LIS_START, op::LIS_CMD],
            &[op::DISC_NEW, op::DISC_CMD, op::SCOPE, op::LIFETIME, op::FIND],
        ];
        let f = c.below(5) as usize;
        for (i, g) in FOCUS.iter().enumerate() {
            for &k in *g {
                if i == f {
                    drv.weights[k] = drv.weights[k].max(p.weights[k]) * 2;
                } else if !FOCUS[f].contains(&k) {
                    drv.weights[k] /= 8;
                }
            }
        }
        if f < 3 {
            for k in [op::OBJ_NEW, op::OBJ_END, op::SVC_NEW, op::SVC_CMD] {
                drv.weights[k] = p.weights[k] / 4 + 1;
            }
        } else {
            for k in [op::OBJ_NEW, op::OBJ_END, op::SVC_NEW, op::SVC_CMD] {
                drv.weights[k] = p.weights[k].max(drv.weights[k]) * 2;
            }
        }
        drv.weights[op::SETTLE] = p.weights[op::SETTLE] * (1 + c.below(3));
        drv.pool = (1 + c.below(4), 1 + c.below(3), 1 + c.below(3));
        drv.same = c.chance(1, 2);
    }
    if drv.wide {
        sim.wide = true;
        drv.pool = (1 + c.below(16), 1 + c.below(10), 1 + c.below(40));
    }
    if drv.no_stops {
        for i in [
            op::SHUTDOWN,
            op::DROP_ALL,
            op::CONN_DOWN,
            op::FAULT_ARM,
            op::FAULT_NOW,
            op::BROKER_DOWN,
            op::CRASH,
            op::DROP_HANDLE,
        ] {
            drv.weights[i] = 0;
        }
    }
    let early_idle = c.chance(1, 6);
    for _ in 0..(p.clients.0 + c.below(p.clients.1 - p.clients.0 + 1)) {
        sim.new_client(c, drv.versions);
    }
    if c.chance(3, 4) {
        // Most runs begin with everybody connected.
        sim.run_idle(c);
    }
    let mut done = 0;
    let mut open = c.begin_span(choice::OP, n_ops > 0);
    while !sim.failed() {
        match sim.step(c, open) {
            None => break,
            Some(true) => {
                drv.op(sim, c);
                sim.after();
                done += 1;
                open = c.begin_span(choice::OP, done < n_ops);
            }
            Some(false) => {}
        }
    }
    finish(sim, c, early_idle);
}

fn finish(sim: &mut Sim, c: &mut Choices, early_idle: bool) {
    c.begin_span(choice::FINAL, true);
    if c.chance(2, 3) {
        sim.resume_readers();
    }
    sim.settle(c);
    if sim.failed() {
        return;
    }
    if early_idle && !sim.w.borrow().broker_stopping {
        sim.idle_down();
    }
    let n = sim.w.borrow().clients.len();
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, c.below(i as u32 + 1) as usize);
    }
    for id in order {
        if sim.failed() {
            return;
        }
        {
            let mut w = sim.w.borrow_mut();
            tr!(w, "-- end of client {id}");
        }
        match c.below(5) {
            0 => sim.shutdown(id),
            1 => sim.conn_down(id),
            2 => sim.drop_all(id),
            3 => {
                sim.drop_handle(id);
                // One resource after the other.
                let mut tasks = sim.tasks_of(id);
                while let Some(&t) = tasks.get(c.below(tasks.len().max(1) as u32) as usize) {
                    sim.kill(t);
                    for _ in 0..c.below(4) {
                        if sim.step(c, false).is_none() {
                            break;
                        }
                    }
                    tasks = sim.tasks_of(id);
                }
                sim.drop_all(id);
            }
            _ => {
                sim.shutdown(id);
                sim.drop_all(id);
            }
        }
        for _ in 0..c.below(6) {
            sim.step(c, false);
        }
        if c.chance(1, 3) {
            sim.settle(c);
        }
    }
    // A client whose handle was gone before may still have resources.
    sim.settle_for_end(c);
}

impl Sim {
    fn settle_for_end(&mut self, c: &mut Choices) {
        let n = self.w.borrow().clients.len();
        for id in 0..n {
            if !self.w.borrow().clients[id].stopping {
                self.drop_all(id);
            }
        }
        self.settle(c);
        if self.failed() {
            return;
        }
        for id in 0..n {
            if !self.w.borrow().clients[id].ended() {
                self.w.borrow_mut().fail(
                    "client-runs-on",
                    &["C15"],
                    format!("client {id} still runs although its last handle was dropped"),
                );
                return;
            }
        }
        let stop = self.w.borrow().observer_stop.clone();
        stop.unwrap().push(());
        self.run_idle(c);
        self.observe();
        self.run_idle(c);
        if self.failed() {
            return;
        }
        let (down, idle) = {
            let w = self.w.borrow();
            (w.broker_stopping, w.idle_requested)
        };
        if !down && !idle {
            if !self.exec.alive(self.broker) {
                self.w.borrow_mut().fail(
                    "broker-ended",
                    &["C06"],
                    "the broker stopped without having been asked to".into(),
                );
                return;
            }
            self.idle_down();
            self.run_idle(c);
        }
        if self.failed() {
            return;
        }
        if self.exec.alive(self.broker) {
            self.w.borrow_mut().fail(
                "broker-runs-on",
                &["C06", "C09"],
                "the broker was asked to stop when idle, is idle, and still runs".into(),
            );
            return;
        }
        let left: Vec<String> = self
            .exec
            .alive_tasks()
            .into_iter()
            .filter(|t| !self.metas.contains_key(t))
            .map(|t| self.exec.name(t).to_string())
            .collect();
        if !left.is_empty() {
            self.w.borrow_mut().fail(
                "task-left",
                &["C06", "C15"],
                format!("tasks still run at the end: {left:?}"),
            );
        }
        self.w.borrow_mut().hit("complete teardowns");
    }
}

struct Driver {
    weights: [u32; N_OPS],
    versions: bool,
    no_stops: bool,
    /// How many object UUIDs, service UUIDs, and events there are.
    pool: (u32, u32, u32),
    /// New proxies prefer to be like an existing one.
    same: bool,
    /// First identifier of events and functions, and the distance between two of them.
    ids: (u32, u32),
    /// The run is about numbers: many identifiers, and bursts of the same kind of operation.
    wide: bool,
}

/// Picks an element, favouring recent ones.
fn pick<T: Clone>(c: &mut Choices, v: &[T]) -> Option<T> {
    if v.is_empty() {
        return None;
    }
    let n = v.len() as u32;
    let i = if c.chance(1, 2) {
        c.below(n)
    } else {
        n - 1 - c.below(n.min(3))
    };
    Some(v[i as usize].clone())
}

impl Driver {
    fn op(&mut self, sim: &mut Sim, c: &mut Choices) {
        for _ in 0..3 {
            let k = c.weighted(&self.weights);
            if self.try_op(sim, c, k) {
                if self.wide && k < op::KILL && c.chance(1, 10) {
                    let n = if c.chance(1, 8) { 200 } else { 30 };
                    for _ in 0..c.below(n) {
                        self.try_op(sim, c, k);
                        sim.after();
                    }
                }
                return;
            }
        }
    }

    /// An event or function.
    fn ident(&self, c: &mut Choices, n: u32) -> u32 {
        let i = c.below(n);
        self.ids.0.wrapping_add(i.wrapping_mul(self.ids.1))
    }

    /// A client with a handle; sometimes one that has stopped.
    fn client(&self, sim: &Sim, c: &mut Choices) -> Option<usize> {
        let w = sim.w.borrow();
        let dead = c.chance(1, 12);
        let v: Vec<usize> = (0..w.clients.len())
            .filter(|&i| w.clients[i].handle.is_some() && (dead || !w.clients[i].ended()))
            .collect();
        drop(w);
        pick(c, &v)
    }

    fn handle(&self, sim: &Sim, c: &mut Choices) -> Option<(usize, aldrin::Handle)> {
        let id = self.client(sim, c)?;
        let h = sim.w.borrow().clients[id].handle.clone()?;
        Some((id, h))
    }

    fn obj(&self, sim: &Sim, c: &mut Choices) -> Option<(usize, Rc<ObjBox>)> {
        let v: Vec<usize> = {
            let w = sim.w.borrow();
            (0..w.objs.len()).filter(|&i| w.objs[i].obj.is_some()).collect()
        };
        let i = pick(c, &v)?;
        let o = sim.w.borrow().objs[i].obj.clone()?;
        Some((i, o))
    }

    fn svc(&self, sim: &Sim, c: &mut Choices) -> Option<usize> {
        let w = sim.w.borrow();
        let v: Vec<usize> = (0..w.svcs.len()).filter(|&i| w.svcs[i].alive).collect();
        drop(w);
        pick(c, &v)
    }

    fn proxy(&self, sim: &Sim, c: &mut Choices) -> Option<usize> {
        let w = sim.w.borrow();
        let v: Vec<usize> = (0..w.proxies.len()).filter(|&i| w.proxies[i].alive).collect();
        drop(w);
        pick(c, &v)
    }

    fn entry(&self, c: &mut Choices) -> (Option<Uuid>, Vec<Uuid>) {
        let obj = c.chance(1, 2).then(|| obj_uuid(c.below(self.pool.0)));
        let mut svcs = Vec::new();
        let m = c.below(8);
        for i in 0..3 {
            if m >> i & 1 == 1 && !(m == 7 && c.chance(1, 2)) {
                svcs.push(svc_uuid(i));
            }
        }
        if svcs.len() > 1 && c.chance(1, 3) {
            svcs.reverse();
        }
        (obj, svcs)
    }

    fn filter(&self, c: &mut Choices) -> BusListenerFilter {
        let o = ObjectUuid(obj_uuid(c.below(self.pool.0)));
        let s = ServiceUuid(svc_uuid(c.below(self.pool.1)));
        match c.below(6) {
            0 => BusListenerFilter::Object(None),
            1 => BusListenerFilter::Object(Some(o)),
            k => BusListenerFilter::Service(BusListenerServiceFilter {
                object: (k & 1 == 1).then_some(o),
                service: (k & 2 == 2).then_some(s),
            }),
        }
    }

    fn chan_actor(&self, sim: &Sim, c: &mut Choices, end: Option<usize>) -> Option<(usize, usize, Inbox<ChanCmd>)> {
        let mut v = Vec::new();
        {
            let w = sim.w.borrow();
            for (i, ch) in w.chans.iter().enumerate() {
                for e in 0..2 {
                    if end.is_some_and(|x| x != e) {
                        continue;
                    }
                    for a in &ch.ends[e].actors {
                        if !a.closed() {
                            v.push((i, e, a.clone()));
                        }
                    }
                }
            }
        }
        pick(c, &v)
    }

    fn try_op(&mut self, sim: &mut Sim, c: &mut Choices, k: usize) -> bool {
        self.do_op(sim, c, k).is_some()
    }

    fn do_op(&mut self, sim: &mut Sim, c: &mut Choices, k: usize) -> Option<()> {
        let cx = sim.cx.clone();
        macro_rules! note {
            ($($a:tt)*) => {{ let mut w = sim.w.borrow_mut(); tr!(w, $($a)*); }};
        }
        match k {
            op::CLIENT => {
                let (n, stop) = {
                    let w = sim.w.borrow();
                    let n = w.clients.iter().filter(|c| !c.ended()).count();
                    (n, w.broker_stopping && w.clients.len() > 8 || w.clients.len() > 12)
                };
                if n >= 5 || stop {
                    return None;
                }
                sim.new_client(c, self.versions);
            }
            op::OBJ_NEW => {
                let (id, h) = self.handle(sim, c)?;
                let u = c.below(self.pool.0);
                note!("op c{id} create object {u}");
                actors::create_object(&cx, id, h, obj_uuid(u));
            }
            op::OBJ_END => {
                let (i, o) = self.obj(sim, c)?;
                match c.below(4) {
                    0 | 1 => {
                        note!("op destroy object {i}");
                        let cancel = c.chance(1, 5);
                        actors::destroy_object(&cx, i, o, cancel);
                    }
                    _ => {
                        note!("op drop object {i}");
                        let x = sim.w.borrow_mut().objs[i].obj.take();
                        drop(o);
                        drop(x);
                    }
                }
            }
            op::SVC_NEW => {
                let (i, o) = self.obj(sim, c)?;
                if matches!(o.inner, ObjInner::Scope(_)) {
                    return None;
                }
                let u = c.below(self.pool.1);
                let ty = c.chance(1, 2).then(|| Uuid::from_u128(0x700 + c.below(2) as u128));
                note!("op create service {u} on object {i}");
                actors::create_service(&cx, i, o, svc_uuid(u), c.below(4), ty);
            }
            op::SVC_CMD => {
                let s = self.svc(sim, c)?;
                let inbox = sim.w.borrow().svcs[s].inbox.clone();
                let r = sim.w.borrow().svcs[s].reading;
                match c.below(6) {
                    0 | 1 => {
                        note!("op destroy service {s}");
                        inbox.push(SvcCmd::Destroy {
                            cancel: c.chance(1, 4),
                        })
                    }
                    2 | 3 => {
                        note!("op drop service {s}");
                        inbox.push(SvcCmd::Drop)
                    }
                    _ => {
                        let n = read_cmd(c, r);
                        note!("op service {s} reading {n}");
                        inbox.push(SvcCmd::Read(n))
                    }
                }
            }
            op::EMIT => {
                let s = self.svc(sim, c)?;
                let inbox = sim.w.borrow().svcs[s].inbox.clone();
                let (ev, n) = (self.ident(c, self.pool.2), 1 + c.below(6));
                note!("op service {s} emit {n} x {ev}");
                inbox.push(SvcCmd::Emit { ev, n });
            }
            op::PROXY_NEW => {
                let like = if self.same && c.chance(2, 3) {
                    self.proxy(sim, c)
                } else {
                    None
                };
                let like = like.and_then(|p| {
                    let w = sim.w.borrow();
                    let (id, s) = (w.proxies[p].client, w.proxies[p].svc);
                    Some((id, w.clients[id].handle.clone()?, s))
                });
                let (id, h, s) = match like {
                    Some(x) => x,
                    None => {
                        let (id, h) = self.handle(sim, c)?;
                        let v: Vec<usize> = {
                            let w = sim.w.borrow();
                            let any = c.chance(1, 4);
                            (0..w.svcs.len()).filter(|&i| any || w.svcs[i].alive).collect()
                        };
                        (id, h, pick(c, &v)?)
                    }
                };
                let mut sid = sim.w.borrow().svcs[s].id;
                let mut svc = Some(s);
                if c.chance(1, 12) {
                    sim.fresh += 1;
                    sid.cookie = ServiceCookie(Uuid::from_u128(0xbad0_0000 + sim.fresh));
                    svc = None;
                }
                note!("op c{id} create proxy of service {s} (valid {})", svc.is_some());
                actors::create_proxy(&cx, id, h, svc, sid);
            }
            op::SUB => {
                let p = self.proxy(sim, c)?;
                let inbox = sim.w.borrow().proxies[p].inbox.clone();
                let ev = (!c.chance(1, 4)).then(|| self.ident(c, self.pool.2));
                let cancel = c.chance(1, 8);
                note!("op proxy {p} subscribe {ev:?} cancel {cancel}");
                inbox.push(ProxyCmd::Sub { ev, cancel });
            }
            op::UNSUB => {
                let p = self.proxy(sim, c)?;
                let inbox = sim.w.borrow().proxies[p].inbox.clone();
                let ev = (!c.chance(1, 4)).then(|| self.ident(c, self.pool.2));
                let cancel = c.chance(1, 8);
                note!("op proxy {p} unsubscribe {ev:?} cancel {cancel}");
                inbox.push(ProxyCmd::Unsub { ev, cancel });
            }
            op::PROXY_CMD => {
                let p = self.proxy(sim, c)?;
                let (inbox, r) = {
                    let w = sim.w.borrow();
                    (w.proxies[p].inbox.clone(), w.proxies[p].reading)
                };
                if c.chance(1, 2) {
                    note!("op drop proxy {p}");
                    inbox.push(ProxyCmd::Drop);
                } else {
                    let n = read_cmd(c, r);
                    note!("op proxy {p} reading {n}");
                    inbox.push(ProxyCmd::Read(n));
                }
            }
            op::CALL => {
                let p = self.proxy(sim, c)?;
                let beh = match c.below(16) {
                    0..=4 => Beh::Ok,
                    5 => Beh::Err,
                    6 => Beh::Done,
                    7 => Beh::Abort,
                    8 => Beh::InvalidFunction,
                    9 => Beh::InvalidArgs,
                    10 => Beh::Drop,
                    _ => Beh::Hold,
                };
                let func = self.ident(c, 4);
                let version = c.chance(1, 2).then(|| c.below(3));
                let pad = if c.chance(1, 10) { c.below(800) } else { c.below(3) };
                let mut w = sim.w.borrow_mut();
                let call = w.calls.len();
                let (caller, svc) = (w.proxies[p].client, w.proxies[p].svc);
                tr!(w, "op proxy {p} call {call}: function {func}, {beh:?}");
                w.calls.push(CallRec {
                    caller,
                    svc,
                    func,
                    version,
                    beh,
                    pad,
                    delivered: false,
                    answered: None,
                    aborted: None,
                    finished: false,
                    held: false,
                    inbox: None,
                    abort_seen: false,
                    sent: false,
                });
                w.proxies[p].inbox.push(ProxyCmd::Call { call });
            }
            op::CALL_ABORT => {
                let v: Vec<usize> = {
                    let mut v: Vec<usize> = sim
                        .metas
                        .iter()
                        .filter(|(t, m)| m.kind == "reply" && sim.exec.alive(**t))
                        .map(|(t, _)| *t)
                        .collect();
                    v.sort();
                    v
                };
                let t = pick(c, &v)?;
                sim.kill(t);
                sim.w.borrow_mut().hit("calls aborted");
            }
            op::RESOLVE => {
                let v: Vec<usize> = {
                    let w = sim.w.borrow();
                    (0..w.calls.len()).filter(|&i| w.calls[i].held).collect()
                };
                let i = pick(c, &v)?;
                let beh = match c.below(8) {
                    0 | 1 => Beh::Ok,
                    2 => Beh::Err,
                    3 => Beh::Done,
                    4 => Beh::Abort,
                    5 => Beh::InvalidFunction,
                    6 => Beh::InvalidArgs,
                    _ => Beh::Drop,
                };
                note!("op resolve call {i}: {beh:?}");
                let inbox = sim.w.borrow().calls[i].inbox.clone()?;
                inbox.push(beh);
            }
            op::CHAN_NEW => {
                let (id, h) = self.handle(sim, c)?;
                let cap = c.chance(1, 2).then(|| capacity(c));
                note!("op c{id} create channel {cap:?}");
                actors::create_channel(&cx, id, h, cap);
            }
            op::CHAN_GO => {
                let (i, e, a) = self.chan_actor(sim, c, None)?;
                if c.chance(1, 2) {
                    note!("op channel {i} end {e} establish");
                    a.push(ChanCmd::Establish);
                    if e == 0 && c.chance(1, 2) {
                        a.push(ChanCmd::Watch);
                    }
                }
                if c.chance(2, 3) {
                    note!("op channel {i} end {e} claim");
                    a.push(ChanCmd::Claim(capacity(c)));
                    if e == 0 && c.chance(1, 3) {
                        a.push(ChanCmd::Watch);
                    }
                }
            }
            op::SEND => {
                let (i, _, a) = self.chan_actor(sim, c, Some(0))?;
                let n = 1 + c.below(8);
                let pad = if c.chance(1, 10) { c.below(900) } else { 0 };
                note!("op channel {i} send {n}");
                a.push(ChanCmd::Send { n, pad });
            }
            op::CHAN_READ => {
                let (i, _, a) = self.chan_actor(sim, c, Some(1))?;
                let b = c.chance(1, 2);
                note!("op channel {i} reading {b}");
                a.push(ChanCmd::Read(b));
            }
            op::CHAN_CLOSE => {
                let (i, e, a) = self.chan_actor(sim, c, None)?;
                match c.below(4) {
                    0 => {
                        note!("op channel {i} drop end {e}");
                        a.push(ChanCmd::Drop)
                    }
                    1 if e == 0 => a.push(ChanCmd::Watch),
                    _ => {
                        note!("op channel {i} close end {e}");
                        a.push(ChanCmd::Close {
                            cancel: c.chance(1, 5),
                        })
                    }
                }
            }
            op::CHAN_MOVE => {
                let (i, e, a) = self.chan_actor(sim, c, None)?;
                let to = self.client(sim, c)?;
                if c.chance(1, 2) {
                    note!("op channel {i} move end {e} to c{to}");
                    a.push(ChanCmd::Unbind(to));
                } else {
                    note!("op channel {i} end {e} also claimed by c{to}");
                    let h = sim.w.borrow().clients[to].handle.clone()?;
                    actors::race_claim(&cx, i, e, to, h, capacity(c));
                }
            }
            op::LIS_NEW => {
                let (id, h) = self.handle(sim, c)?;
                note!("op c{id} create listener");
                actors::create_listener(&cx, id, h);
            }
            op::LIS_FILTER | op::LIS_START | op::LIS_CMD => {
                let v: Vec<usize> = {
                    let w = sim.w.borrow();
                    (0..w.listeners.len()).filter(|&i| w.listeners[i].alive).collect()
                };
                let l = pick(c, &v)?;
                let (inbox, started, reading) = {
                    let w = sim.w.borrow();
                    let r = &w.listeners[l];
                    (r.inbox.clone(), r.started, r.reading)
                };
                match k {
                    op::LIS_FILTER => {
                        let f = self.filter(c);
                        note!("op listener {l} filter {f:?}");
                        match c.below(8) {
                            0 => inbox.push(LisCmd::Remove(f)),
                            1 => inbox.push(LisCmd::Clear),
                            2 => {
                                inbox.push(LisCmd::Add(f));
                                inbox.push(LisCmd::Add(self.filter(c)));
                            }
                            _ => inbox.push(LisCmd::Add(f)),
                        }
                    }
                    op::LIS_START => {
                        let cancel = c.chance(1, 12);
                        if started != c.chance(1, 8) {
                            note!("op listener {l} stop");
                            inbox.push(LisCmd::Stop { cancel });
                        } else {
                            let scope = actors::scope_of(c.below(3));
                            note!("op listener {l} start {scope:?} cancel {cancel}");
                            inbox.push(LisCmd::Start { scope, cancel });
                        }
                    }
                    _ => match c.below(4) {
                        0 => {
                            note!("op listener {l} drop");
                            inbox.push(LisCmd::Drop)
                        }
                        1 => {
                            note!("op listener {l} destroy");
                            inbox.push(LisCmd::Destroy {
                                cancel: c.chance(1, 5),
                            })
                        }
                        _ => {
                            let n = read_cmd(c, reading);
                            note!("op listener {l} reading {n}");
                            inbox.push(LisCmd::Read(n))
                        }
                    },
                }
            }
            op::DISC_NEW => {
                let (id, h) = self.handle(sim, c)?;
                let n = [1, 2, 3, c.below(4)][c.below(4) as usize];
                let entries: Vec<EntrySpec> = (0..n)
                    .map(|key| {
                        let (obj, svcs) = self.entry(c);
                        EntrySpec { key, obj, svcs }
                    })
                    .collect();
                let current = match c.below(6) {
                    0 => 1,
                    1 => 2,
                    _ => 0,
                };
                note!("op c{id} create discoverer {entries:?} {current}");
                actors::create_discoverer(&cx, id, h, entries, current);
            }
            op::DISC_CMD => {
                let v: Vec<usize> = {
                    let w = sim.w.borrow();
                    (0..w.discs.len()).filter(|&i| w.discs[i].alive).collect()
                };
                let d = pick(c, &v)?;
                let (inbox, reading) = {
                    let w = sim.w.borrow();
                    (w.discs[d].inbox.clone(), w.discs[d].reading)
                };
                match c.below(8) {
                    0 => {
                        note!("op discoverer {d} drop");
                        inbox.push(DiscCmd::Drop)
                    }
                    1..=3 => {
                        let current = match c.below(6) {
                            0 => 1,
                            1 => 2,
                            _ => 0,
                        };
                        let cancel = c.chance(1, 10);
                        note!("op discoverer {d} restart {current} cancel {cancel}");
                        inbox.push(DiscCmd::Restart { current, cancel });
                    }
                    _ => {
                        let n = read_cmd(c, reading);
                        note!("op discoverer {d} reading {n}");
                        inbox.push(DiscCmd::Read(n))
                    }
                }
            }
            op::SCOPE => {
                let (id, h) = self.handle(sim, c)?;
                note!("op c{id} create scope");
                actors::create_scope(&cx, id, h);
            }
            op::LIFETIME => {
                let (id, h) = self.handle(sim, c)?;
                let v: Vec<ObjectId> = {
                    let w = sim.w.borrow();
                    let any = c.chance(1, 3);
                    w.objs
                        .iter()
                        .filter(|o| any || o.obj.is_some())
                        .map(|o| o.id)
                        .collect()
                };
                let mut oid = pick(c, &v)?;
                if c.chance(1, 8) {
                    sim.fresh += 1;
                    oid.cookie = ObjectCookie(Uuid::from_u128(0xbad1_0000 + sim.fresh));
                }
                note!("op c{id} bind lifetime {}", short(oid.cookie.0));
                actors::create_lifetime(&cx, id, h, oid);
            }
            op::FIND => {
                let (id, h) = self.handle(sim, c)?;
                let (obj, svcs) = self.entry(c);
                let wait = c.chance(1, 2);
                note!("op c{id} find {obj:?} {svcs:?} wait {wait}");
                actors::find(&cx, id, h, obj, svcs, wait);
            }
            op::SIMPLE => {
                let (id, h) = self.handle(sim, c)?;
                let kind = c.below(6);
                note!("op c{id} request {kind}");
                actors::simple(&cx, id, h, kind);
            }
            op::KILL => {
                let mut v: Vec<usize> = sim
                    .metas
                    .iter()
                    .filter(|(t, m)| m.polled && sim.exec.alive(**t))
                    .map(|(t, _)| *t)
                    .collect();
                v.sort();
                let t = pick(c, &v)?;
                sim.w.borrow_mut().hit("fault: application task dropped");
                sim.kill(t);
            }
            op::SETTLE => {
                sim.settle(c);
            }
            op::SHUTDOWN => {
                let id = self.client(sim, c)?;
                note!("op c{id} shutdown");
                sim.w.borrow_mut().hit("stop: Handle::shutdown");
                sim.shutdown(id);
            }
            op::DROP_ALL => {
                let id = self.client(sim, c)?;
                note!("op c{id} drop everything");
                sim.w.borrow_mut().hit("stop: last handle dropped");
                sim.drop_all(id);
            }
            op::DROP_HANDLE => {
                let id = self.client(sim, c)?;
                note!("op c{id} drop handle");
                sim.drop_handle(id);
            }
            op::CONN_DOWN => {
                let id = self.client(sim, c)?;
                note!("op shutdown connection {id}");
                sim.w.borrow_mut().hit("stop: shutdown_connection");
                sim.conn_down(id);
            }
            op::CRASH => {
                let id = self.client(sim, c)?;
                sim.crash(id);
            }
            op::FAULT_ARM | op::FAULT_NOW => {
                let n = sim.w.borrow().clients.len() as u32;
                if n == 0 {
                    return None;
                }
                let id = c.below(n) as usize;
                let side = c.below(2);
                let kind = match c.below(5) {
                    0 | 1 => FaultKind::Error,
                    2 => FaultKind::Cut,
                    3 => FaultKind::SendOnly,
                    _ => FaultKind::RecvOnly,
                };
                let t = {
                    let mut w = sim.w.borrow_mut();
                    if w.clients[id].ended() {
                        return None;
                    }
                    w.any_fault = true;
                    w.hit("fault: transport failure armed");
                    if side == 0 {
                        w.clients[id].tap.clone()
                    } else {
                        w.clients[id].btap.clone()
                    }
                };
                if k == op::FAULT_NOW {
                    note!("op fault {kind:?} at c{id} side {side} now");
                    tap::inject_now(&t, kind);
                } else {
                    let e = c.below(8);
                    let n = (1u64 << e) + c.below(1 << e) as u64;
                    note!("op fault {kind:?} at c{id} side {side} in {n} operations");
                    let mut t = t.borrow_mut();
                    t.fault_in = Some(n);
                    t.fault_kind = Some(kind);
                }
            }
            op::STALL | op::UNSTALL => {
                let n = sim.w.borrow().clients.len() as u32;
                if n == 0 {
                    return None;
                }
                let id = c.below(n) as usize;
                let t = {
                    let w = sim.w.borrow();
                    if c.below(2) == 0 {
                        w.clients[id].tap.clone()
                    } else {
                        w.clients[id].btap.clone()
                    }
                };
                if k == op::STALL {
                    note!("op stall c{id}");
                    sim.w.borrow_mut().hit("fault: stalled transport");
                    t.borrow_mut().stalled = true;
                } else {
                    note!("op unstall c{id}");
                    tap::unstall(&t);
                }
            }
            op::BROKER_DOWN => {
                if sim.w.borrow().broker_stopping || c.chance(2, 3) {
                    return None;
                }
                note!("op shutdown broker");
                sim.w.borrow_mut().hit("stop: broker shutdown");
                sim.broker_down();
            }
            _ => return None,
        }
        Some(())
    }
}

fn capacity(c: &mut Choices) -> u32 {
    match c.below(8) {
        0 => 0,
        1 | 2 => 1,
        3 | 4 => 1 + c.below(6),
        5 | 6 => 3 + c.below(8),
        _ => 16 + c.below(100),
    }
}

pub fn run(p: &Profile, c: &mut Choices, trace: bool) -> Outcome {
    crate::val::allow_big(false);
    c.begin_span(choice::CONFIG, true);
    choice::serials(c);
    let mut sim = Sim::new(trace);
    run_ops(&mut sim, p, c);
    sim.outcome(c)
}
