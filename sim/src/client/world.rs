//! Everything the client harness knows about a run: the bus history seen by the observer, one record
//! per resource, and one job per awaited operation.

use super::tap::TapRef;
use crate::exec::Spawner;
use crate::run::Violation;
use aldrin::{Error, Handle, LifetimeScope, Object};
use aldrin_broker::{BrokerHandle, ConnectionHandle};
use aldrin_core::{BusEvent, BusListenerFilter, BusListenerScope, ObjectId, ServiceId};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::future::Future;
use std::rc::Rc;
use std::task::{Context, Waker};
use uuid::Uuid;

pub type W = Rc<RefCell<World>>;

pub fn obj_uuid(i: u32) -> Uuid {
    Uuid::from_u128(0x0b00_0000_0000_4000_8000_0000_0000_0000 + i as u128)
}

pub fn svc_uuid(i: u32) -> Uuid {
    Uuid::from_u128(0x5e00_0000_0000_4000_8000_0000_0000_0000 + i as u128)
}

/// The order of bus events as the broker produced them.
#[derive(Default)]
pub struct Bus {
    pub log: Vec<BusEvent>,
    created: HashMap<Uuid, usize>,
    destroyed: HashMap<Uuid, usize>,
    pub objs: Vec<ObjectId>,
    pub svcs: Vec<ServiceId>,
    /// What exists in state `i`, that is before the `i`th event; all but the last state.
    past: Vec<(Vec<ObjectId>, Vec<ServiceId>)>,
    /// What exists now.
    cur: (Vec<ObjectId>, Vec<ServiceId>),
}

/// Objects with the services that satisfy an entry.
pub type Match = (ObjectId, Vec<ServiceId>);

impl Bus {
    /// Appends an event; an error if the history is not well-formed.
    pub fn push(&mut self, ev: BusEvent) -> Result<(), String> {
        let n = self.log.len();
        self.log.push(ev);
        self.past.push(self.cur.clone());
        match ev {
            BusEvent::ObjectCreated(o) => self.cur.0.push(o),
            BusEvent::ObjectDestroyed(o) => self.cur.0.retain(|x| *x != o),
            BusEvent::ServiceCreated(s) => self.cur.1.push(s),
            BusEvent::ServiceDestroyed(s) => self.cur.1.retain(|x| *x != s),
        }
        match ev {
            BusEvent::ObjectCreated(o) => {
                if self.created.insert(o.cookie.0, n).is_some() {
                    return Err("object created twice".into());
                }
                if self
                    .objs
                    .iter()
                    .any(|p| p.uuid == o.uuid && self.live(p.cookie.0, n))
                {
                    return Err("object created while its uuid was in use".into());
                }
                self.objs.push(o);
            }
            BusEvent::ObjectDestroyed(o) => {
                if !self.live(o.cookie.0, n) || !self.objs.contains(&o) {
                    return Err("destruction of an object that does not exist".into());
                }
                if self
                    .svcs
                    .iter()
                    .any(|s| s.object_id == o && self.live(s.cookie.0, n))
                {
                    return Err("object destroyed before one of its services".into());
                }
                self.destroyed.insert(o.cookie.0, n);
            }
            BusEvent::ServiceCreated(s) => {
                if self.created.insert(s.cookie.0, n).is_some() {
                    return Err("service created twice".into());
                }
                if !self.live(s.object_id.cookie.0, n) {
                    return Err("service created outside its object's lifetime".into());
                }
                if self.svcs.iter().any(|p| {
                    p.object_id == s.object_id && p.uuid == s.uuid && self.live(p.cookie.0, n)
                }) {
                    return Err("service created while its uuid was in use".into());
                }
                self.svcs.push(s);
            }
            BusEvent::ServiceDestroyed(s) => {
                if !self.live(s.cookie.0, n) || !self.svcs.contains(&s) {
                    return Err("destruction of a service that does not exist".into());
                }
                self.destroyed.insert(s.cookie.0, n);
            }
        }
        Ok(())
    }

    pub fn now(&self) -> usize {
        self.log.len()
    }

    /// States `i` in which the entity exists, as an inclusive range.
    fn span(&self, cookie: Uuid) -> Option<(usize, usize)> {
        let c = *self.created.get(&cookie)?;
        let d = self.destroyed.get(&cookie).copied().unwrap_or(usize::MAX);
        Some((c + 1, d))
    }

    pub fn live(&self, cookie: Uuid, i: usize) -> bool {
        self.span(cookie).is_some_and(|(a, b)| a <= i && i <= b)
    }

    pub fn live_within(&self, cookie: Uuid, lo: usize, hi: usize) -> bool {
        self.span(cookie)
            .is_some_and(|(a, b)| a.max(lo) <= b.min(hi))
    }

    pub fn gone_within(&self, cookie: Uuid, lo: usize, hi: usize) -> bool {
        match self.span(cookie) {
            None => true,
            Some((a, b)) => lo < a || hi > b,
        }
    }

    pub fn created_within(&self, cookie: Uuid, lo: usize, hi: usize) -> bool {
        self.created.get(&cookie).is_some_and(|&c| lo <= c && c < hi)
    }

    pub fn destroyed_within(&self, cookie: Uuid, lo: usize, hi: usize) -> bool {
        self.destroyed.get(&cookie).is_some_and(|&d| lo <= d && d < hi)
    }

    pub fn is_destroyed(&self, cookie: Uuid) -> bool {
        self.destroyed.contains_key(&cookie)
    }

    pub fn obj_uuid_live_within(&self, uuid: Uuid, lo: usize, hi: usize) -> bool {
        self.objs
            .iter()
            .any(|o| o.uuid.0 == uuid && self.live_within(o.cookie.0, lo, hi))
    }

    pub fn svc_uuid_live_within(&self, obj: Uuid, uuid: Uuid, lo: usize, hi: usize) -> bool {
        self.svcs.iter().any(|s| {
            s.object_id.cookie.0 == obj && s.uuid.0 == uuid && self.live_within(s.cookie.0, lo, hi)
        })
    }

    /// What exists in state `i`.
    fn at(&self, i: usize) -> &(Vec<ObjectId>, Vec<ServiceId>) {
        self.past.get(i).unwrap_or(&self.cur)
    }

    pub fn live_objs(&self, i: usize) -> Vec<ObjectId> {
        self.at(i).0.clone()
    }

    pub fn live_svcs(&self, i: usize) -> Vec<ServiceId> {
        self.at(i).1.clone()
    }

    pub fn matches(&self, obj: Option<Uuid>, svcs: &[Uuid], i: usize) -> Vec<Match> {
        let (live_objs, live_svcs) = self.at(i);
        let mut out = Vec::new();
        let candidates: Vec<&ServiceId> =
            live_svcs.iter().filter(|s| svcs.contains(&s.uuid.0)).collect();
        'objs: for o in live_objs {
            if obj.is_some_and(|u| u != o.uuid.0) {
                continue;
            }
            let mut ids = Vec::new();
            for u in svcs {
                match candidates
                    .iter()
                    .find(|s| s.object_id == *o && s.uuid.0 == *u)
                {
                    Some(s) => ids.push(**s),
                    None => continue 'objs,
                }
            }
            out.push((*o, ids));
        }
        out
    }
}

pub fn filter_matches(f: &BusListenerFilter, ev: BusEvent) -> bool {
    // Stated independently of the code under test.
    match (*f, ev) {
        (
            BusListenerFilter::Object(u),
            BusEvent::ObjectCreated(o) | BusEvent::ObjectDestroyed(o),
        ) => u.map_or(true, |u| u == o.uuid),
        (
            BusListenerFilter::Service(f),
            BusEvent::ServiceCreated(s) | BusEvent::ServiceDestroyed(s),
        ) => {
            f.object.map_or(true, |u| u == s.object_id.uuid) && f.service.map_or(true, |u| u == s.uuid)
        }
        _ => false,
    }
}

/// What a job waits for.
#[derive(Debug, Clone, PartialEq)]
pub enum Wait {
    /// Something the broker answers at once.
    Req(&'static str),
    Reply(usize),
    Establish { chan: usize, end: usize },
    Send(usize),
    /// A stream that must end because it is finite.
    Drain,
    WaitObject(Option<Uuid>, Vec<Uuid>),
    Lifetime(usize),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum JobSt {
    Open,
    Done,
    Killed,
}

pub struct Job {
    pub client: usize,
    pub wait: Wait,
    pub lo: usize,
    pub start: u64,
    /// The client had already finished when the operation was started.
    pub after_end: bool,
    pub st: JobSt,
}

#[derive(Debug, Clone, PartialEq)]
pub enum RunRes {
    Ok,
    Transport(&'static str),
    Unexpected(String),
    Other(String),
    Connect(String),
    Crashed,
}

/// How a handshake has to end.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Greet {
    Accept,
    Reject,
    Incompatible,
}

pub struct ClientRec {
    pub expect: Greet,
    pub ver: u32,
    pub handle: Option<Handle>,
    pub conn: Option<ConnectionHandle>,
    pub tap: TapRef,
    pub btap: TapRef,
    pub task: usize,
    pub conn_task: usize,
    /// Something happened that makes the client stop.
    pub stopping: bool,
    /// One of the clean causes is among them.
    pub clean: bool,
    pub own: bool,
    pub forced: bool,
    pub res: Option<RunRes>,
    pub conn_res: Option<Result<(), String>>,
    pub connected: bool,
    /// The connection was established while the broker shut down, and then dropped.
    pub refused: bool,
    pub refs: usize,
}

impl ClientRec {
    pub fn ended(&self) -> bool {
        self.res.is_some()
    }

    pub fn usable(&self) -> bool {
        self.connected && !self.ended()
    }
}

pub struct ObjRec {
    pub client: usize,
    pub id: ObjectId,
    pub obj: Option<Rc<ObjBox>>,
    /// Destruction was requested.
    pub ending: bool,
}

pub enum ObjInner {
    Obj(Object),
    Scope(LifetimeScope),
}

pub struct ObjBox {
    pub w: W,
    pub rec: usize,
    pub inner: ObjInner,
    pub lease: Lease,
}

impl Drop for ObjBox {
    fn drop(&mut self) {
        self.w.borrow_mut().objs[self.rec].ending = true;
    }
}

pub struct SvcRec {
    pub client: usize,
    pub obj: usize,
    pub id: ServiceId,
    pub version: u32,
    pub type_id: Option<Uuid>,
    pub ending: bool,
    /// `destroy` returned Ok.
    pub destroyed: bool,
    pub inbox: Inbox<SvcCmd>,
    pub reading: bool,
    pub ended: bool,
    pub alive: bool,
    pub emitted: u32,
    pub emissions: Vec<(u32, u64)>,
}

pub enum SvcCmd {
    Destroy { cancel: bool },
    /// Read this many items, then pause.
    Read(u32),
    Emit { ev: u32, n: u32 },
    Drop,
}

/// One period during which events may arrive.
#[derive(Debug, Clone, Copy)]
pub struct SubSpan {
    pub ev: Option<u32>,
    pub begin: u64,
    pub end: Option<u64>,
    /// Subscribing returned Ok.
    pub ok: bool,
    /// Nothing has been unsettled since.
    pub solid: bool,
    /// An unsubscription was attempted with an unknown outcome.
    pub loose: bool,
}

pub struct ProxyRec {
    pub client: usize,
    pub svc: usize,
    pub inbox: Inbox<ProxyCmd>,
    pub reading: bool,
    pub ended: bool,
    pub alive: bool,
    pub subs: Vec<SubSpan>,
    pub must: VecDeque<u32>,
    pub last_seq: Option<u32>,
    /// Whether this proxy is subscribed, if that is known.
    pub state: std::collections::BTreeMap<Option<u32>, Option<bool>>,
}

pub enum ProxyCmd {
    Sub { ev: Option<u32>, cancel: bool },
    Unsub { ev: Option<u32>, cancel: bool },
    /// Read this many items, then pause.
    Read(u32),
    Call { call: usize },
    Drop,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Beh {
    Ok,
    Err,
    Done,
    Abort,
    InvalidFunction,
    InvalidArgs,
    Drop,
    Hold,
}

pub struct CallRec {
    pub caller: usize,
    pub svc: usize,
    pub func: u32,
    pub version: Option<u32>,
    pub beh: Beh,
    pub pad: u32,
    pub delivered: bool,
    /// What the callee answered; set before it answers.
    pub answered: Option<Beh>,
    pub aborted: Option<u64>,
    pub finished: bool,
    pub held: bool,
    pub inbox: Option<Inbox<Beh>>,
    pub abort_seen: bool,
    pub sent: bool,
}

#[derive(Default)]
pub struct ClaimTry {
    pub client: usize,
    pub done: Option<bool>,
    pub cap: u32,
}

#[derive(Default)]
pub struct EndRec {
    pub tries: Vec<ClaimTry>,
    /// Client that got the end.
    pub owner: Option<usize>,
    /// Clients that ever held an object for this end.
    pub holders: Vec<usize>,
    /// Somebody tried to close the end.
    pub close_tried: bool,
    /// Clients that tried to close it without having claimed it.
    pub other_close: Vec<usize>,
    /// The sender watches for the receiver's closure.
    pub watching: bool,
    /// The owner closed it.
    pub closed: bool,
    pub actors: Vec<Inbox<ChanCmd>>,
    pub reading: bool,
    pub ended: bool,
    pub established: bool,
}

pub struct ChanRec {
    pub id: Uuid,
    /// Sender and receiver.
    pub ends: [EndRec; 2],
    pub sent: u32,
    pub consumed: u32,
    pub pads: Vec<u32>,
    /// Capacity given when the receiver was created claimed.
    pub cap: Option<u32>,
}

impl ChanRec {
    /// The least and the greatest capacity the receiver may have been claimed with.
    pub fn caps(&self) -> (u32, u32) {
        if let Some(c) = self.cap {
            return (c.max(1), c.max(1));
        }
        let tries = &self.ends[1].tries;
        let done = tries.iter().filter(|t| t.done == Some(true));
        let open = tries.iter().filter(|t| t.done.is_none());
        let caps = || done.clone().chain(open.clone()).map(|t| t.cap.max(1));
        (caps().min().unwrap_or(1), caps().max().unwrap_or(1))
    }
}

pub enum ChanCmd {
    Claim(u32),
    Establish,
    Send { n: u32, pad: u32 },
    Close { cancel: bool },
    Watch,
    Read(bool),
    Unbind(usize),
    Drop,
}

pub enum LisCmd {
    Add(BusListenerFilter),
    Remove(BusListenerFilter),
    Clear,
    Start { scope: BusListenerScope, cancel: bool },
    Stop { cancel: bool },
    Destroy { cancel: bool },
    /// Read this many items, then pause.
    Read(u32),
    Drop,
}

pub struct LisSession {
    pub filters: Vec<BusListenerFilter>,
    pub scope: BusListenerScope,
    pub lo: usize,
    pub hi: usize,
    pub stop: Option<(usize, usize)>,
    pub events: Vec<BusEvent>,
    pub dirty: bool,
    pub drained: bool,
}

pub struct LisRec {
    pub client: usize,
    pub inbox: Inbox<LisCmd>,
    pub filters: Vec<BusListenerFilter>,
    pub started: bool,
    pub destroyed: bool,
    /// A start or stop was cancelled; nothing is known any more.
    pub unknown: bool,
    pub cur: Option<LisSession>,
    pub reading: bool,
    pub ended: bool,
    pub alive: bool,
}

#[derive(Debug, Clone)]
pub struct EntrySpec {
    pub key: u32,
    pub obj: Option<Uuid>,
    pub svcs: Vec<Uuid>,
}

pub enum DiscCmd {
    Restart { current: u32, cancel: bool },
    /// Read this many items, then pause.
    Read(u32),
    View,
    Drop,
}

pub struct DiscRec {
    pub client: usize,
    pub inbox: Inbox<DiscCmd>,
    pub entries: Vec<EntrySpec>,
    pub current_only: bool,
    pub lo: usize,
    pub hi: usize,
    /// Key, created, object.
    pub events: Vec<(u32, bool, ObjectId)>,
    /// Built or restarted so that the events of the current objects may have been skipped.
    pub silent: bool,
    pub reading: bool,
    pub ended: bool,
    pub alive: bool,
    pub broken: bool,
    /// State as reported at the last settlement.
    pub view: Option<Vec<(u32, Match)>>,
    pub view_error: Option<String>,
}

pub struct LifeRec {
    pub client: usize,
    pub id: ObjectId,
    pub lo: usize,
}

pub struct TaskMeta {
    pub client: usize,
    pub kind: &'static str,
    pub polled: bool,
}

pub struct World {
    pub now: u64,
    pub bus: Bus,
    pub bus_lost: bool,
    pub clients: Vec<ClientRec>,
    pub objs: Vec<ObjRec>,
    pub svcs: Vec<SvcRec>,
    pub proxies: Vec<ProxyRec>,
    pub calls: Vec<CallRec>,
    pub chans: Vec<ChanRec>,
    pub listeners: Vec<LisRec>,
    pub discs: Vec<DiscRec>,
    pub lifes: Vec<LifeRec>,
    pub jobs: Vec<Job>,
    pub metas: VecDeque<TaskMeta>,
    pub broker_stopping: bool,
    pub idle_requested: bool,
    pub observer_stop: Option<Inbox<()>>,
    pub observer_done: bool,
    pub registered: bool,
    pub violation: Option<Violation>,
    pub any_fault: bool,
    pub any_stop: bool,
    pub mixed: bool,
    pub cover: BTreeMap<&'static str, u64>,
    pub states: BTreeSet<u64>,
    pub trace: Option<Vec<String>>,
    /// Decides between parts of the API that do the same; the first is always taken if 0.
    pub alt: u64,
}

macro_rules! tr {
    ($w:expr, $($a:tt)*) => {
        if $w.trace.is_some() {
            let line = format!($($a)*);
            $w.trace.as_mut().unwrap().push(line);
        }
    };
}
pub(crate) use tr;

impl World {
    pub fn new(trace: bool) -> Self {
        Self {
            now: 0,
            bus: Bus::default(),
            bus_lost: false,
            clients: Vec::new(),
            objs: Vec::new(),
            svcs: Vec::new(),
            proxies: Vec::new(),
            calls: Vec::new(),
            chans: Vec::new(),
            listeners: Vec::new(),
            discs: Vec::new(),
            lifes: Vec::new(),
            jobs: Vec::new(),
            metas: VecDeque::new(),
            broker_stopping: false,
            idle_requested: false,
            observer_stop: None,
            observer_done: false,
            registered: false,
            violation: None,
            any_fault: false,
            any_stop: false,
            mixed: false,
            cover: BTreeMap::new(),
            states: BTreeSet::new(),
            trace: trace.then(Vec::new),
            alt: 0,
        }
    }

    /// Picks one of `n` equivalent ways.
    pub fn alt(&mut self, n: u32) -> u32 {
        if self.alt == 0 {
            return 0;
        }
        self.alt = self.alt.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
        ((self.alt >> 33) % n as u64) as u32
    }

    pub fn hit(&mut self, k: &'static str) {
        *self.cover.entry(k).or_insert(0) += 1;
    }

    pub fn fail(&mut self, class: &str, props: &[&'static str], msg: String) {
        if self.violation.is_none() {
            tr!(self, "!! {class}: {msg}");
            self.violation = Some(Violation {
                class: class.to_string(),
                props: props.to_vec(),
                msg,
            });
        }
    }

    pub fn stopping(&self, client: usize) -> bool {
        self.clients[client].stopping
    }

    /// The client itself was asked to stop, or nothing holds it anymore.
    pub fn stop_own(&mut self, client: usize) {
        self.clients[client].own = true;
        self.stop(client, true);
    }

    /// The broker was asked to end the connection.
    pub fn stop_forced(&mut self, client: usize) {
        self.clients[client].forced = true;
        self.stop(client, true);
    }

    pub fn stop(&mut self, client: usize, clean: bool) {
        self.any_stop = true;
        self.clients[client].stopping = true;
        self.clients[client].clean |= clean;
    }

    /// The service is gone or may be on its way out.
    pub fn svc_ending(&self, s: usize) -> bool {
        let r = &self.svcs[s];
        r.ending
            || self.objs[r.obj].ending
            || self.stopping(r.client)
            || self.bus.is_destroyed(r.id.cookie.0)
    }

    pub fn svc_destroyed(&self, s: usize) -> bool {
        self.bus.is_destroyed(self.svcs[s].id.cookie.0)
    }

    /// The end is closed or may be on its way out.
    pub fn end_closing(&self, chan: usize, end: usize) -> bool {
        let e = &self.chans[chan].ends[end];
        e.close_tried || e.closed || e.owner.is_some_and(|o| self.stopping(o))
            || e.tries.iter().any(|t| self.stopping(t.client))
    }

    /// The end must be closed once everything has settled.
    pub fn end_surely_closed(&self, chan: usize, end: usize) -> bool {
        let e = &self.chans[chan].ends[end];
        match e.owner {
            Some(o) => e.closed || self.stopping(o),
            None => false,
        }
    }
}

/// Keeps count of what holds a handle of a client.
pub struct Lease {
    w: W,
    client: usize,
}

impl Lease {
    pub fn new(w: &W, client: usize) -> Self {
        w.borrow_mut().clients[client].refs += 1;
        Self {
            w: w.clone(),
            client,
        }
    }
}

impl Drop for Lease {
    fn drop(&mut self) {
        let mut w = self.w.borrow_mut();
        let c = &mut w.clients[self.client];
        c.refs -= 1;
        if c.refs == 0 && c.handle.is_none() {
            w.stop_own(self.client);
        }
    }
}

struct InboxInner<C> {
    q: VecDeque<C>,
    waker: Option<Waker>,
    closed: bool,
}

/// Commands for an actor.
pub struct Inbox<C>(Rc<RefCell<InboxInner<C>>>);

impl<C> Clone for Inbox<C> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}

impl<C> Inbox<C> {
    pub fn new() -> Self {
        Self(Rc::new(RefCell::new(InboxInner {
            q: VecDeque::new(),
            waker: None,
            closed: false,
        })))
    }

    pub fn push(&self, c: C) {
        let wk = {
            let mut i = self.0.borrow_mut();
            if i.closed {
                return;
            }
            i.q.push_back(c);
            i.waker.take()
        };
        if let Some(wk) = wk {
            wk.wake();
        }
    }

    pub fn pop(&self, cx: &mut Context) -> Option<C> {
        let mut i = self.0.borrow_mut();
        match i.q.pop_front() {
            Some(c) => Some(c),
            None => {
                i.waker = Some(cx.waker().clone());
                None
            }
        }
    }

    pub fn closed(&self) -> bool {
        self.0.borrow().closed
    }

    pub fn close(&self) {
        let q = {
            let mut i = self.0.borrow_mut();
            i.closed = true;
            i.waker = None;
            std::mem::take(&mut i.q)
        };
        drop(q);
    }
}

/// Runs a closure when dropped; used to note the end of an actor, however it ends.
pub struct OnDrop<F: FnMut()>(pub F);

impl<F: FnMut()> Drop for OnDrop<F> {
    fn drop(&mut self) {
        (self.0)();
    }
}

#[derive(Clone)]
pub struct Cx {
    pub w: W,
    pub sp: Spawner,
    pub broker: BrokerHandle,
}

pub struct JobGuard {
    w: W,
    pub id: usize,
    pub client: usize,
}

pub struct Span {
    pub lo: usize,
    pub hi: usize,
    pub start: u64,
}

impl Cx {
    /// Picks one of `n` equivalent ways.
    pub fn alt(&self, n: u32) -> u32 {
        self.w.borrow_mut().alt(n)
    }

    pub fn begin(&self, client: usize, wait: Wait) -> JobGuard {
        let mut w = self.w.borrow_mut();
        let id = w.jobs.len();
        let job = Job {
            client,
            wait,
            lo: w.bus.now(),
            start: w.now,
            after_end: w.clients[client].ended(),
            st: JobSt::Open,
        };
        tr!(w, "   c{client} job {id}: {:?}", job.wait);
        w.jobs.push(job);
        JobGuard {
            w: self.w.clone(),
            id,
            client,
        }
    }

    pub fn spawn(
        &self,
        client: usize,
        kind: &'static str,
        fut: impl Future<Output = ()> + 'static,
    ) {
        // A reply doesn't keep its client running.
        let lease = (kind != "reply").then(|| Lease::new(&self.w, client));
        self.w.borrow_mut().metas.push_back(TaskMeta {
            client,
            kind,
            polled: false,
        });
        self.sp.spawn(format!("c{client} {kind}"), async move {
            let _lease = lease;
            fut.await;
        });
    }
}

impl JobGuard {
    fn done(&self, w: &mut World) -> Span {
        let hi = w.bus.now();
        let job = &mut w.jobs[self.id];
        job.st = JobSt::Done;
        Span {
            lo: job.lo,
            hi,
            start: job.start,
        }
    }

    /// The operation returned `res`.
    pub fn end<T>(self, what: &str, res: &Result<T, Error>) -> Span {
        let mut w = self.w.borrow_mut();
        let span = self.done(&mut w);
        let (client, id) = (self.client, self.id);
        let after = w.jobs[id].after_end;
        tr!(
            w,
            "   c{client} job {id} {what}: {:?}",
            res.as_ref().map(|_| ()).map_err(|e| *e)
        );
        match res {
            Err(Error::Shutdown) if !w.stopping(client) => w.fail(
                "spurious-shutdown",
                &["C06", "C15"],
                format!("{what} failed with Shutdown although the client keeps running"),
            ),
            Err(Error::Shutdown) => w.hit("ops ended by shutdown"),
            // These can be decided by what the client has already delivered.
            _ if after && (what.starts_with("establish") || what.starts_with("close")) => {}
            Err(Error::InvalidChannel) if after => {}
            _ if after => w.fail(
                "op-after-end",
                &["C15"],
                format!("{what}, started after the client had stopped, did not fail with Shutdown"),
            ),
            _ => {}
        }
        drop(w);
        span
    }

    /// The operation finished without a result that tells whether the client is gone.
    pub fn end_plain(self, what: &str) -> Span {
        let mut w = self.w.borrow_mut();
        let (client, id) = (self.client, self.id);
        tr!(w, "   c{client} job {id} {what}: finished");
        self.done(&mut w)
    }
}

impl Drop for JobGuard {
    fn drop(&mut self) {
        let Ok(mut w) = self.w.try_borrow_mut() else {
            return;
        };
        if w.jobs[self.id].st == JobSt::Open {
            w.jobs[self.id].st = JobSt::Killed;
            let wait = w.jobs[self.id].wait.clone();
            let now = w.now;
            if let Wait::Reply(c) = wait {
                tr!(w, "   call {c} aborted by the caller");
                w.calls[c].aborted = Some(now);
            }
        }
    }
}
