//! Wire-level harness: the real `Broker`, `Acceptor` and `Connection` futures on a simulated
//! executor and simulated transports, driven by scripted raw-protocol peers and compared, message
//! by message, with the reference model.

pub mod model;
pub mod ops;
pub mod parts;

use crate::choice::{self, Act, Choices, Policy};
use crate::exec::{Exec, Polled};
use crate::run::{Outcome, Violation};
use crate::val;
use aldrin_broker::{Acceptor, Broker, BrokerHandle, ConnectionError, ConnectionHandle};
use aldrin_core::message::*;
use aldrin_core::transport::AsyncTransport;
use aldrin_core::{SerializedValue, ServiceInfo};
use model::{Ev, Exp, Gone, Model, Numbers, Rule, Step, SYM};
use parts::{dissect, IdKind, Parts};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct LinkError(pub &'static str);

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Phase {
    Await,
    /// Reply predicted; `Some(minor)` if the handshake must succeed.
    Replying(Option<u32>),
    Registered,
    Over,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Fin {
    Running,
    Ok,
    Transport,
    Unexpected,
    Codec,
    AcceptErr(String),
    Rejected,
    Killed,
}

pub struct Link {
    pub phase: Phase,
    pub ver: u32,
    inflight: VecDeque<Message>,
    arrived: VecDeque<Message>,
    recv_waker: Option<Waker>,
    recv_fault: bool,
    send_fault: bool,
    /// Number of further transport operations before a fault hits.
    fault_in: Option<u32>,
    /// Directions the fault affects: 1 receiving, 2 sending, 3 both.
    fault_dirs: u8,
    fault_hit: bool,
    out: VecDeque<Message>,
    cap: Option<usize>,
    send_waker: Option<Waker>,
    lag: bool,
    dirty: bool,
    flush_waker: Option<Waker>,
    pub dropped: bool,
    pub task: usize,
    pub fin: Fin,
    pub handle: Option<ConnectionHandle>,
    exp: VecDeque<Step>,
    handshake_exp: Option<Message>,
    pub reject: bool,
    pub reply_data: Option<SerializedValue>,
    pub client_data: Option<SerializedValue>,
    /// The first message is arbitrary; expect whatever data it carries.
    pub any_data: bool,
    /// Has sent introspection messages while several connections may know a type. The model leaves open what it is sent in return and
    /// therefore when the broker notices that its task was dropped.
    pub introspection: bool,
    pub legacy: bool,
    /// The scripted peer has sent its Shutdown.
    pub sent_shutdown: bool,
    shutdown_received: bool,
    got_shutdown: bool,
    pub stalled: bool,
    pub next_serial: u32,
    pub calls_open: Vec<u32>,
    pub calls_done: Vec<u32>,
    pub n_recv: u64,
}

impl Link {
    pub fn new() -> Self {
        Self {
            phase: Phase::Await,
            ver: 20,
            inflight: VecDeque::new(),
            arrived: VecDeque::new(),
            recv_waker: None,
            recv_fault: false,
            send_fault: false,
            fault_in: None,
            fault_dirs: 3,
            fault_hit: false,
            out: VecDeque::new(),
            cap: None,
            send_waker: None,
            lag: false,
            dirty: false,
            flush_waker: None,
            dropped: false,
            task: usize::MAX,
            fin: Fin::Running,
            handle: None,
            exp: VecDeque::new(),
            handshake_exp: None,
            reject: false,
            reply_data: None,
            client_data: None,
            any_data: true,
            introspection: false,
            legacy: false,
            sent_shutdown: false,
            shutdown_received: false,
            got_shutdown: false,
            stalled: false,
            next_serial: 0,
            calls_open: Vec::new(),
            calls_done: Vec::new(),
            n_recv: 0,
        }
    }
}

#[derive(Default)]
pub struct Pools {
    pub objs: Vec<(u128, u128, usize)>,
    pub svcs: Vec<(u128, usize)>,
    pub chans: Vec<(u128, usize)>,
    pub lis: Vec<(u128, usize)>,
    /// Observed forwarded calls: (serial, callee connection).
    pub callee: Vec<(u32, usize)>,
    /// Observed introspection queries: (serial, target).
    pub iq: Vec<(u32, usize)>,
}

pub struct World {
    pub links: Vec<Link>,
    pub model: Model,
    queue: VecDeque<Ev>,
    bind: HashMap<(IdKind, u128), u128>,
    rev: HashMap<(IdKind, u128), u128>,
    pub pools: Pools,
    pub violation: Option<Violation>,
    pub cover: BTreeMap<&'static str, u64>,
    pub trace: Option<Vec<String>>,
    pub hostile: bool,
    pub drop_probe: bool,
    pub any_end: bool,
    pub mixed_versions: bool,
    stat_results: Vec<(usize, Result<Numbers, ()>)>,
    snap_results: Vec<(usize, Result<(Numbers, Vec<String>), ()>)>,
    next_token: usize,
    pub max_exp: usize,
    pub states: BTreeSet<u64>,
    pub broker_done: bool,
}

pub type W = Rc<RefCell<World>>;

macro_rules! tr {
    ($w:expr, $($a:tt)*) => {
        if let Some(t) = &mut $w.trace { t.push(format!($($a)*)); }
    };
}

impl World {
    fn hit(&mut self, k: &'static str) {
        *self.cover.entry(k).or_insert(0) += 1;
    }

    fn fail(&mut self, class: &str, props: &[&'static str], msg: String) {
        if self.violation.is_none() {
            if self.drop_probe {
                tr!(self, "!! drop-unnoticed: {class}: {msg}");
                self.violation = Some(Violation {
                    class: "drop-unnoticed".to_string(),
                    props: vec!["C09"],
                    msg: "the broker doesn't notice that a connection's task was dropped".into(),
                });
                return;
            }
            let mut p: BTreeSet<&'static str> = props.iter().copied().collect();
            if self.hostile {
                p.insert("C11");
            }
            if self.any_end {
                p.insert("C09");
            }
            if self.mixed_versions {
                p.insert("C12");
            }
            tr!(self, "!! {class}: {msg}");
            self.violation = Some(Violation {
                class: class.to_string(),
                props: p.into_iter().collect(),
                msg,
            });
        }
    }

    fn push(&mut self, ev: Ev) {
        if !matches!(ev, Ev::Msg(..) | Ev::New(..) | Ev::Stats(_) | Ev::Snapshot(_)) {
            self.any_end = true;
        }
        tr!(self, "   queue {}", show_ev(&ev));
        self.queue.push_back(ev);
    }

    /// Brings the model up to date with everything the broker is about to process.
    fn process(&mut self) {
        while let Some(ev) = self.queue.pop_front() {
            if self.model.terminated {
                continue;
            }
            let n_closed = self.model.gone.len();
            let steps = self.model.event(ev);
            if self.model.gone.len() != n_closed {
                self.any_end = true;
            }
            for (cid, st) in steps {
                self.links[cid].exp.push_back(st);
                let n = self.links[cid].exp.len();
                self.max_exp = self.max_exp.max(n);
            }
            if self.states.len() < 4096 {
                let f = self.model.fingerprint();
                self.states.insert(f);
            }
        }
    }

    fn sym(&self, kind: IdKind, actual: u128) -> u128 {
        self.bind.get(&(kind, actual)).copied().unwrap_or(actual)
    }

    fn unify(&mut self, exp: &Parts, act: &Parts) -> Result<(), bool> {
        if exp.skel != act.skel || exp.ids.len() != act.ids.len() {
            return Err(false);
        }
        let mut new = Vec::new();
        for (&(ek, es), &(ak, aa)) in exp.ids.iter().zip(&act.ids) {
            if ek != ak {
                return Err(false);
            }
            match self.rev.get(&(ek, es)) {
                Some(&bound) if bound == aa => {}
                Some(_) => return Err(false),
                None => match self.bind.get(&(ek, aa)) {
                    Some(&other) => {
                        let reusable = match ek {
                            IdKind::Callee => !self.model.calls.contains_key(&other),
                            IdKind::Query => !self.model.intro_asked(other),
                            _ => false,
                        };
                        if !reusable {
                            return Err(true);
                        }
                        new.push((ek, es, aa));
                    }
                    None => new.push((ek, es, aa)),
                },
            }
        }
        for (k, s, a) in new {
            self.bind.insert((k, a), s);
            self.rev.insert((k, s), a);
        }
        Ok(())
    }

    /// The broker side took a message off the transport.
    fn on_recv(&mut self, id: usize, msg: &Message) {
        self.links[id].n_recv += 1;
        tr!(self, "c{id} -> {}", show(msg));
        match self.links[id].phase {
            Phase::Await => self.on_handshake(id, msg),
            Phase::Replying(_) | Phase::Over => {}
            Phase::Registered => {
                if let Message::Shutdown(_) = msg {
                    if !self.links[id].shutdown_received {
                        self.links[id].shutdown_received = true;
                        self.push(Ev::Shut(id));
                    }
                } else if !self.links[id].shutdown_received {
                    self.links[id].introspection |= !self.model.intro_exact
                        && matches!(
                            msg,
                            Message::RegisterIntrospection(_) | Message::QueryIntrospection(_)
                        );
                    let m = self.translate(msg.clone());
                    self.push(Ev::Msg(id, m));
                }
            }
        }
    }

    fn on_handshake(&mut self, id: usize, msg: &Message) {
        let reject = self.links[id].reject;
        let nul = val::raw_value(&[0]);
        let (exp, ver) = match msg {
            Message::Connect(m) => {
                self.links[id].legacy = true;
                if self.links[id].any_data {
                    self.links[id].client_data = Some(m.value.clone());
                }
                if m.version != 14 {
                    (Some(ConnectReply::IncompatibleVersion(14).into()), None)
                } else if reject {
                    (Some(ConnectReply::Rejected(nul).into()), None)
                } else {
                    (Some(ConnectReply::Ok(nul).into()), Some(14))
                }
            }
            Message::Connect2(m) => {
                let data = m.value.deserialize::<ConnectData>();
                if data.is_err() {
                    (None, None)
                } else {
                    if self.links[id].any_data {
                        self.links[id].client_data = data.unwrap().user;
                    }
                    let ok = m.major_version == 1 && m.minor_version >= 14;
                    let ver = m.minor_version.min(20);
                    let result = if !ok {
                        ConnectResult::IncompatibleVersion
                    } else if reject {
                        ConnectResult::Rejected
                    } else {
                        ConnectResult::Ok(ver)
                    };
                    (
                        Some(ConnectReply2 { result, value: nul }.into()),
                        (ok && !reject).then_some(ver),
                    )
                }
            }
            _ => (None, None),
        };
        let l = &mut self.links[id];
        l.handshake_exp = exp;
        l.phase = Phase::Replying(ver);
        if let Some(v) = ver {
            l.ver = v;
            self.mixed_versions |= v < 20;
        }
    }

    /// The broker side handed a message to the transport.
    fn on_send(&mut self, id: usize, msg: Message) {
        if self.violation.is_some() {
            return;
        }
        tr!(self, "c{id} <- {}", show(&msg));
        let msg = match recode(msg) {
            Ok(m) => m,
            Err(e) => return self.fail("codec", &["C12"], e),
        };

        if self.links[id].phase != Phase::Registered {
            return self.on_handshake_reply(id, msg);
        }

        let kind = msg.kind();
        let ver = self.links[id].ver;
        if model::min_version(kind) > ver {
            self.fail(
                "newer-kind",
                &["C12"],
                format!("c{id} (1.{ver}) was sent {kind:?}"),
            );
            return;
        }
        if self.links[id].got_shutdown {
            self.fail(
                "after-shutdown",
                &["C09", "C15"],
                format!("c{id} was sent {kind:?} after Shutdown"),
            );
            return;
        }
        if kind == MessageKind::Shutdown {
            self.links[id].got_shutdown = true;
            if self.links[id].shutdown_received {
                self.links[id].out.push_back(msg);
                return;
            }
        }

        match &msg {
            Message::QueryIntrospection(m) if !self.model.intro_exact => {
                let t = m.type_id.0.as_u128();
                self.model.iq.insert(m.serial, (id, t));
                self.pools.iq.push((m.serial, id));
                self.links[id].out.push_back(msg);
                return;
            }
            Message::QueryIntrospectionReply(m) if !self.model.intro_exact => {
                let key = (id, m.serial);
                let types = self.model.iq_pending.remove(&key).unwrap_or_default();
                let open = self.model.gone.contains_key(&id) || self.model.terminated;
                // Replies to queries of the same serial cannot be told apart.
                let unclear = self.model.iq_unclear.contains(&key);
                match &m.result {
                    _ if open => {}
                    _ if unclear && types.is_empty() => {}
                    _ if types.is_empty() && self.model.iq_denied.remove(&key) => {}
                    _ if types.is_empty() => self.fail(
                        "introspection",
                        &["C11"],
                        format!("c{id} got an introspection reply it did not ask for"),
                    ),
                    QueryIntrospectionResult::Ok(v) => {
                        let given = |t: &u128| {
                            self.model
                                .iq_answers
                                .get(t)
                                .is_some_and(|a| a.iter().any(|w| same_value(w, v)))
                        };
                        let known = if unclear {
                            self.model.iq_answers.keys().any(given)
                        } else {
                            types.iter().any(given)
                        };
                        if !known {
                            self.fail(
                                "introspection",
                                &["C11", "C12"],
                                format!("c{id} got a description nobody gave: {:?}", &v[..]),
                            );
                        }
                    }
                    QueryIntrospectionResult::Unavailable => {}
                }
                if types.len() > 1 {
                    let rest = types[1..].to_vec();
                    self.model.iq_pending.insert(key, rest);
                }
                self.links[id].out.push_back(msg);
                return;
            }
            _ => {}
        }

        let act = dissect(msg.clone());
        if let Some(e) = self.match_step(id, &act) {
            self.check_payload(id, &e, &act);
            self.learn(id, &msg);
        } else if self.violation.is_none() {
            let front: Vec<String> = self.links[id]
                .exp
                .front()
                .map(|s| s.items.iter().map(|e| show(&e.parts.skel)).collect())
                .unwrap_or_default();
            let what = self.links[id]
                .exp
                .front()
                .map(|s| s.what.clone())
                .unwrap_or_default();
            let mut props: Vec<&'static str> = props_of(&msg);
            if let Some(s) = self.links[id].exp.front() {
                for e in &s.items {
                    props.extend(props_of(&e.parts.skel));
                }
            }
            self.fail(
                "unexpected-message",
                &props,
                format!(
                    "c{id} got {} but the protocol requires {front:?} (step: {what})",
                    show(&msg)
                ),
            );
        }
        self.links[id].out.push_back(msg);
    }

    fn match_step(&mut self, id: usize, act: &Parts) -> Option<Exp> {
        loop {
            let step = self.links[id].exp.front()?.clone();
            let has_first = step.items.iter().any(|e| e.first);
            let mut reused = false;
            for (i, e) in step.items.iter().enumerate() {
                if has_first && !e.first {
                    continue;
                }
                if e.last && step.items.iter().any(|o| !o.last && !o.optional) {
                    continue;
                }
                if let Some((obj, rank)) = e.ord {
                    if step
                        .items
                        .iter()
                        .any(|o| matches!(o.ord, Some((b, r)) if b == obj && r < rank))
                    {
                        continue;
                    }
                }
                match self.unify(&e.parts, act) {
                    Ok(()) => {
                        let q = &mut self.links[id].exp;
                        let front = q.front_mut().unwrap();
                        let e = front.items.remove(i);
                        if front.items.is_empty() {
                            q.pop_front();
                        }
                        return Some(e);
                    }
                    Err(r) => reused |= r,
                }
            }
            if reused {
                self.fail(
                    "cookie-reuse",
                    &["C03", "C05", "C10"],
                    format!("c{id} was given an identifier used before: {:?}", act.ids),
                );
                return None;
            }
            if step.items.iter().all(|e| e.optional) {
                self.links[id].exp.pop_front();
                continue;
            }
            if step.wild && is_notification(&act.skel) {
                return Some(Exp {
                    parts: act.clone(),
                    rule: Rule::None,
                    first: false,
                    last: false,
                    optional: true,
                    by_end: true,
                    ord: None,
                });
            }
            return None;
        }
    }

    fn check_payload(&mut self, id: usize, e: &Exp, act: &Parts) {
        let ver = self.links[id].ver;
        let props = {
            let mut p = props_of(&e.parts.skel);
            p.push("C12");
            p
        };
        match &e.rule {
            Rule::None => {}
            Rule::Info(info) => {
                let v = act.value.as_ref().expect("value");
                let v2 = val::decode(v).map(|d| d.uses_v2).unwrap_or(true);
                if v.deserialize::<ServiceInfo>().ok() != Some(*info) || (ver < 20 && v2) {
                    self.fail(
                        "payload",
                        &props,
                        format!("c{id} got wrong service info, expected {info:?}"),
                    );
                }
            }
            Rule::Same { value, from } => {
                let v = act.value.as_ref().expect("value");
                let want: &[u8] = value;
                let got: &[u8] = v;
                let convert = *from >= 20 && ver < 20;
                if convert {
                    self.hit("payload_converted");
                }
                let ok = if got == want {
                    !convert || !val::decode(got).map(|d| d.uses_v2).unwrap_or(false)
                } else {
                    match (val::decode(want), val::decode(got)) {
                        (Ok(w), Ok(g)) => w.value == g.value && !(convert && g.uses_v2),
                        // The value model is stricter than the code (which needn't look into strings):
                        // do not judge.
                        (Err(()), _) => true,
                        _ => false,
                    }
                };
                if !ok {
                    self.fail(
                        "payload",
                        &props,
                        format!(
                            "c{id} (1.{ver}) got payload {got:?} for {want:?} sent by a 1.{from} peer in {}",
                            show(&e.parts.skel)
                        ),
                    );
                }
            }
        }
    }

    fn on_handshake_reply(&mut self, id: usize, msg: Message) {
        let exp = self.links[id].handshake_exp.take();
        let ok = match (&exp, &msg) {
            (Some(Message::ConnectReply(e)), Message::ConnectReply(a)) => match (e, a) {
                (ConnectReply::Ok(_), ConnectReply::Ok(v))
                | (ConnectReply::Rejected(_), ConnectReply::Rejected(v)) => {
                    let want = match &self.links[id].reply_data {
                        Some(d) => val::decode(d).map(|d| d.value),
                        None => Ok(val::V::None),
                    };
                    let got = val::decode(v);
                    match (want, got) {
                        (Ok(w), Ok(g)) => w == g.value && !g.uses_v2,
                        _ => false,
                    }
                }
                (ConnectReply::IncompatibleVersion(x), ConnectReply::IncompatibleVersion(y)) => {
                    x == y
                }
                _ => false,
            },
            (Some(Message::ConnectReply2(e)), Message::ConnectReply2(a)) => {
                e.result == a.result
                    && match a.value.deserialize::<ConnectReplyData>() {
                        Ok(d) => {
                            let old = !matches!(a.result, ConnectResult::Ok(v) if v >= 20);
                            let v2 = val::decode(&a.value).map(|d| d.uses_v2).unwrap_or(true);
                            let want = if a.result == ConnectResult::IncompatibleVersion {
                                None
                            } else {
                                self.links[id].reply_data.clone()
                            };
                            let user = match (&want, &d.user) {
                                (None, None) => true,
                                (Some(w), Some(g)) => match (val::decode(w), val::decode(g)) {
                                    (Ok(w), Ok(g)) => w.value == g.value,
                                    _ => false,
                                },
                                _ => false,
                            };
                            user && !(v2 && old && matches!(a.result, ConnectResult::Ok(_)))
                        }
                        Err(_) => false,
                    }
            }
            _ => false,
        };
        if !ok {
            self.fail(
                "handshake",
                &["C12"],
                format!("c{id}: handshake answered with {}, expected {exp:?}", show(&msg)),
            );
        }
        self.links[id].out.push_back(msg);
    }

    fn learn(&mut self, id: usize, msg: &Message) {
        match msg {
            Message::CreateObjectReply(m) => {
                if let CreateObjectResult::Ok(c) = m.result {
                    let a = c.0.as_u128();
                    let s = self.sym(IdKind::Obj, a);
                    let uuid = self.model.objs.get(&s).map(|o| o.uuid).unwrap_or(0);
                    self.pools.objs.push((a, uuid, id));
                }
            }
            Message::CreateServiceReply(m) => {
                if let CreateServiceResult::Ok(c) = m.result {
                    self.pools.svcs.push((c.0.as_u128(), id));
                }
            }
            Message::CreateChannelReply(m) => self.pools.chans.push((m.cookie.0.as_u128(), id)),
            Message::CreateBusListenerReply(m) => self.pools.lis.push((m.cookie.0.as_u128(), id)),
            Message::CallFunction(m) => self.pools.callee.push((m.serial, id)),
            Message::CallFunction2(m) => self.pools.callee.push((m.serial, id)),
            Message::QueryIntrospection(m) => self.pools.iq.push((m.serial, id)),
            Message::CallFunctionReply(m) => {
                let l = &mut self.links[id];
                l.calls_open.retain(|&s| s != m.serial);
                l.calls_done.push(m.serial);
            }
            _ => {}
        }
    }

    /// Replaces broker-chosen identifiers by the model's names for them.
    fn translate(&self, mut msg: Message) -> Message {
        use uuid::Uuid;
        let f = |k: IdKind, u: &mut Uuid| *u = Uuid::from_u128(self.sym(k, u.as_u128()));
        match &mut msg {
            Message::DestroyObject(m) => f(IdKind::Obj, &mut m.cookie.0),
            Message::CreateService(m) => f(IdKind::Obj, &mut m.object_cookie.0),
            Message::CreateService2(m) => f(IdKind::Obj, &mut m.object_cookie.0),
            Message::DestroyService(m) => f(IdKind::Svc, &mut m.cookie.0),
            Message::CallFunction(m) => f(IdKind::Svc, &mut m.service_cookie.0),
            Message::CallFunction2(m) => f(IdKind::Svc, &mut m.service_cookie.0),
            Message::CallFunctionReply(m) => {
                m.serial = match self.bind.get(&(IdKind::Callee, m.serial as u128)) {
                    Some(s) => (s - SYM) as u32,
                    None => u32::MAX,
                }
            }
            Message::QueryIntrospectionReply(m) if self.model.intro_exact => {
                m.serial = match self.bind.get(&(IdKind::Query, m.serial as u128)) {
                    Some(s) => (s - SYM) as u32,
                    None => u32::MAX,
                }
            }
            Message::SubscribeEvent(m) => f(IdKind::Svc, &mut m.service_cookie.0),
            Message::UnsubscribeEvent(m) => f(IdKind::Svc, &mut m.service_cookie.0),
            Message::EmitEvent(m) => f(IdKind::Svc, &mut m.service_cookie.0),
            Message::QueryServiceVersion(m) => f(IdKind::Svc, &mut m.cookie.0),
            Message::QueryServiceInfo(m) => f(IdKind::Svc, &mut m.cookie.0),
            Message::SubscribeService(m) => f(IdKind::Svc, &mut m.service_cookie.0),
            Message::UnsubscribeService(m) => f(IdKind::Svc, &mut m.service_cookie.0),
            Message::SubscribeAllEvents(m) => f(IdKind::Svc, &mut m.service_cookie.0),
            Message::UnsubscribeAllEvents(m) => f(IdKind::Svc, &mut m.service_cookie.0),
            Message::CloseChannelEnd(m) => f(IdKind::Chan, &mut m.cookie.0),
            Message::ClaimChannelEnd(m) => f(IdKind::Chan, &mut m.cookie.0),
            Message::AddChannelCapacity(m) => f(IdKind::Chan, &mut m.cookie.0),
            Message::SendItem(m) => f(IdKind::Chan, &mut m.cookie.0),
            Message::DestroyBusListener(m) => f(IdKind::Listener, &mut m.cookie.0),
            Message::AddBusListenerFilter(m) => f(IdKind::Listener, &mut m.cookie.0),
            Message::RemoveBusListenerFilter(m) => f(IdKind::Listener, &mut m.cookie.0),
            Message::ClearBusListenerFilters(m) => f(IdKind::Listener, &mut m.cookie.0),
            Message::StartBusListener(m) => f(IdKind::Listener, &mut m.cookie.0),
            Message::StopBusListener(m) => f(IdKind::Listener, &mut m.cookie.0),
            _ => {}
        }
        msg
    }
}

/// Whether `got` is what was sent as `want`, possibly in another encoding.
fn same_value(want: &SerializedValue, got: &SerializedValue) -> bool {
    let (want, got): (&[u8], &[u8]) = (want, got);
    want == got
        || match (val::decode(want), val::decode(got)) {
            (Ok(w), Ok(g)) => w.value == g.value,
            (Err(()), _) => true,
            _ => false,
        }
}

fn recode(msg: Message) -> Result<Message, String> {
    let kind = msg.kind();
    let bytes = msg
        .serialize_message()
        .map_err(|e| format!("{kind:?} does not serialize: {e}"))?;
    Message::deserialize_message(bytes).map_err(|e| format!("{kind:?} does not deserialize: {e}"))
}

pub fn show(msg: &Message) -> String {
    let s = format!("{msg:?}");
    if s.len() > 400 {
        let mut end = 400;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        format!("{}…", &s[..end])
    } else {
        s
    }
}

fn show_ev(ev: &Ev) -> String {
    match ev {
        Ev::Msg(c, m) => format!("Msg(c{c}, {:?})", m.kind()),
        ev => format!("{ev:?}"),
    }
}

fn is_notification(m: &Message) -> bool {
    matches!(
        m,
        Message::ServiceDestroyed(_)
            | Message::ChannelEndClosed(_)
            | Message::EmitBusEvent(_)
            | Message::UnsubscribeEvent(_)
            | Message::UnsubscribeAllEvents(_)
            | Message::AbortFunctionCall(_)
            | Message::CallFunctionReply(_)
            | Message::QueryIntrospection(_)
            | Message::QueryIntrospectionReply(_)
    )
}

/// Properties a wrong, missing or surplus message of this kind speaks about.
pub fn props_of(msg: &Message) -> Vec<&'static str> {
    match msg.kind() {
        MessageKind::CallFunction | MessageKind::CallFunction2 => vec!["C02", "C12"],
        MessageKind::AbortFunctionCall => vec!["C02", "C12"],
        MessageKind::CallFunctionReply => vec!["C02", "C03"],
        MessageKind::CreateObjectReply
        | MessageKind::DestroyObjectReply
        | MessageKind::CreateServiceReply
        | MessageKind::DestroyServiceReply
        | MessageKind::QueryServiceVersionReply
        | MessageKind::QueryServiceInfoReply => vec!["C03"],
        MessageKind::SubscribeEventReply
        | MessageKind::SubscribeServiceReply
        | MessageKind::SubscribeAllEventsReply
        | MessageKind::UnsubscribeAllEventsReply => vec!["C03", "C04"],
        MessageKind::SubscribeEvent
        | MessageKind::UnsubscribeEvent
        | MessageKind::EmitEvent
        | MessageKind::ServiceDestroyed
        | MessageKind::SubscribeAllEvents
        | MessageKind::UnsubscribeAllEvents => vec!["C04"],
        MessageKind::CreateChannelReply
        | MessageKind::CloseChannelEndReply
        | MessageKind::ChannelEndClosed
        | MessageKind::ClaimChannelEndReply
        | MessageKind::ChannelEndClaimed
        | MessageKind::ItemReceived
        | MessageKind::AddChannelCapacity => vec!["C05"],
        MessageKind::CreateBusListenerReply
        | MessageKind::DestroyBusListenerReply
        | MessageKind::StartBusListenerReply
        | MessageKind::StopBusListenerReply
        | MessageKind::BusListenerCurrentFinished => vec!["C10"],
        MessageKind::EmitBusEvent => vec!["C10", "C03"],
        MessageKind::SyncReply => vec!["C11"],
        MessageKind::QueryIntrospection | MessageKind::QueryIntrospectionReply => {
            vec!["C09", "C11"]
        }
        MessageKind::Shutdown => vec!["C09", "C11"],
        _ => vec!["C12"],
    }
}

pub const WIRE_PROPS: [&str; 9] = [
    "C02", "C03", "C04", "C05", "C06", "C09", "C10", "C11", "C12",
];

// ---------------------------------------------------------------------------------------------
// Transport

pub struct SimTransport {
    w: W,
    id: usize,
}

impl SimTransport {
    /// Counts down to an injected fault.
    fn tick(&self) -> Result<(), LinkError> {
        let mut w = self.w.borrow_mut();
        let l = &mut w.links[self.id];
        if let Some(n) = &mut l.fault_in {
            if *n == 0 {
                l.break_down();
            } else {
                *n -= 1;
            }
        }
        Ok(())
    }
}

impl Link {
    fn break_down(&mut self) {
        self.recv_fault |= self.fault_dirs & 1 != 0;
        self.send_fault |= self.fault_dirs & 2 != 0;
    }
}

impl AsyncTransport for SimTransport {
    type Error = LinkError;

    fn receive_poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message, LinkError>> {
        let mut w = self.w.borrow_mut();
        let id = self.id;
        if w.links[id].fault_in == Some(0) {
            w.links[id].break_down();
        }
        if w.links[id].recv_fault {
            return fault(&mut w, id, "receive");
        }
        if let Some(msg) = w.links[id].arrived.pop_front() {
            if let Some(n) = &mut w.links[id].fault_in {
                *n = n.saturating_sub(1);
            }
            w.on_recv(id, &msg);
            return Poll::Ready(Ok(msg));
        }
        w.links[id].recv_waker = Some(cx.waker().clone());
        Poll::Pending
    }

    fn send_poll_ready(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), LinkError>> {
        self.tick().ok();
        let mut w = self.w.borrow_mut();
        let id = self.id;
        if w.links[id].send_fault {
            return fault(&mut w, id, "send");
        }
        let l = &mut w.links[id];
        if l.cap.is_some_and(|c| l.out.len() >= c) {
            l.send_waker = Some(cx.waker().clone());
            w.hit("fault_backpressure");
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }

    fn send_start(self: Pin<&mut Self>, msg: Message) -> Result<(), LinkError> {
        let mut w = self.w.borrow_mut();
        let id = self.id;
        if w.links[id].send_fault {
            let Poll::Ready(Err(e)) = fault::<()>(&mut w, id, "send") else {
                unreachable!()
            };
            return Err(e);
        }
        w.links[id].dirty = true;
        w.on_send(id, msg);
        Ok(())
    }

    fn send_poll_flush(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), LinkError>> {
        self.tick().ok();
        let mut w = self.w.borrow_mut();
        let id = self.id;
        if w.links[id].send_fault {
            return fault(&mut w, id, "flush");
        }
        let l = &mut w.links[id];
        if l.lag && l.dirty {
            l.flush_waker = Some(cx.waker().clone());
            w.hit("fault_flush_delay");
            return Poll::Pending;
        }
        l.dirty = false;
        if let Phase::Replying(v) = l.phase {
            if let Some(v) = v {
                l.phase = Phase::Registered;
                w.push(Ev::New(id, v));
            } else {
                l.phase = Phase::Over;
            }
        }
        Poll::Ready(Ok(()))
    }
}

fn fault<T>(w: &mut World, id: usize, at: &'static str) -> Poll<Result<T, LinkError>> {
    if !w.links[id].fault_hit {
        w.links[id].fault_hit = true;
        tr!(w, "c{id} xx transport error at {at}");
        match at {
            "receive" => w.hit("fault_recv_error"),
            "send" => w.hit("fault_send_error"),
            _ => w.hit("fault_flush_error"),
        }
        if w.links[id].phase == Phase::Registered {
            w.push(Ev::Shut(id));
        } else {
            w.links[id].phase = Phase::Over;
        }
    }
    Poll::Ready(Err(LinkError(at)))
}

impl Drop for SimTransport {
    fn drop(&mut self) {
        if let Ok(mut w) = self.w.try_borrow_mut() {
            let l = &mut w.links[self.id];
            l.dropped = true;
            l.inflight.clear();
            l.arrived.clear();
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Harness

#[derive(Debug, Clone)]
pub struct Profile {
    pub property: &'static str,
    /// Weights of `ops::Family`.
    pub weights: [u32; ops::FAMILIES],
    pub versions: ops::Versions,
    pub ops: (u32, u32),
    pub conns: (u32, u32),
    pub fault_pct: u32,
    pub garbage: bool,
}

pub struct Sim {
    pub w: W,
    pub ex: Exec,
    pub broker: usize,
    pub handle: Option<BrokerHandle>,
    pub steps: u64,
    /// Messages sent by peers.
    sent: u64,
    /// Connections whose tasks were dropped without anybody telling the broker.
    limbo: Vec<usize>,
    names: HashMap<usize, &'static str>,
}

const MAX_STEPS: u64 = 200_000;

#[derive(Debug, Clone, Copy)]
enum Env {
    Task(usize),
    Deliver(usize),
    Consume(usize),
    Flush(usize),
    Op,
}

impl Sim {
    pub fn new(trace: bool) -> Self {
        let w = Rc::new(RefCell::new(World {
            links: Vec::new(),
            model: Model::default(),
            queue: VecDeque::new(),
            bind: HashMap::new(),
            rev: HashMap::new(),
            pools: Pools::default(),
            violation: None,
            cover: BTreeMap::new(),
            trace: trace.then(Vec::new),
            hostile: false,
            drop_probe: false,
            any_end: false,
            mixed_versions: false,
            stat_results: Vec::new(),
            snap_results: Vec::new(),
            next_token: 0,
            max_exp: 0,
            states: BTreeSet::new(),
            broker_done: false,
        }));
        let mut ex = Exec::new();
        let broker = Broker::new();
        let handle = broker.handle().clone();
        let w2 = w.clone();
        let b = ex.spawn("broker", async move {
            broker.run().await;
            w2.borrow_mut().broker_done = true;
        });
        Self {
            w,
            ex,
            broker: b,
            handle: Some(handle),
            steps: 0,
            sent: 0,
            limbo: Vec::new(),
            names: HashMap::from([(b, "broker")]),
        }
    }

    pub fn connect(&mut self, link: Link) -> Option<usize> {
        let mut handle = self.handle.clone()?;
        let w = self.w.clone();
        let id = w.borrow().links.len();
        w.borrow_mut().links.push(link);
        let t = SimTransport { w: w.clone(), id };
        let w2 = w.clone();
        let task = self.ex.spawn(format!("conn{id}"), async move {
            let fin = run_conn(w2.clone(), id, t, &mut handle).await;
            drop(handle);
            let mut w = w2.borrow_mut();
            tr!(w, "c{id} == connection task finished: {fin:?}");
            w.links[id].fin = fin;
            // The connection (and its queue) is gone now.
            if w.links[id].phase == Phase::Registered {
                w.model.set_dead(id);
            }
        });
        self.w.borrow_mut().links[id].task = task;
        Some(id)
    }

    /// Drops the task of a connection. A dropped connection goes unnoticed until the broker sends
    /// something to it (see known-findings.txt). Hence, like a supervisor of connection tasks has
    /// to, tell the broker as well if `force` is set.
    /// Lets a connection read everything its peer sent.
    pub fn push_through(&mut self, id: usize) {
        let task = self.w.borrow().links[id].task;
        for _ in 0..20 {
            if self.w.borrow().links[id].inflight.is_empty() || !self.ex.alive(task) {
                break;
            }
            self.deliver(id);
            self.poll(task);
        }
    }

    /// Has the broker remove those connections whose tasks were dropped a while ago.
    pub fn end_limbo(&mut self) {
        for id in std::mem::take(&mut self.limbo) {
            self.req_shutdown_conn(id);
        }
    }

    /// Drops the task of a connection, but lets the broker find out by itself for now, which it
    /// does as soon as it sends something there.
    pub fn kill_unnoticed(&mut self, id: usize) {
        {
            let w = self.w.borrow();
            let l = &w.links[id];
            if l.phase != Phase::Registered || l.handle.is_none() || self.handle.is_none() {
                return;
            }
        }
        let task = self.w.borrow().links[id].task;
        if !self.ex.alive(task) {
            return;
        }
        self.w.borrow_mut().hit("fault_task_drop_unnoticed");
        self.limbo.push(id);
        self.kill_task(id, task, false);
    }

    pub fn kill_conn(&mut self, id: usize, force: bool) {
        let task = self.w.borrow().links[id].task;
        if !self.ex.alive(task) {
            return;
        }
        {
            let mut w = self.w.borrow_mut();
            let l = &w.links[id];
            if l.phase == Phase::Registered && (l.handle.is_none() || self.handle.is_none()) {
                return;
            }
        }
        let registered = self.kill_task(id, task, !force);
        if registered && force {
            self.req_shutdown_conn(id);
        }
    }

    fn kill_task(&mut self, id: usize, task: usize, noticed: bool) -> bool {
        {
            let mut w = self.w.borrow_mut();
            tr!(w, "c{id} xx connection task dropped");
            w.hit("fault_task_drop");
        }
        let res = self.ex.kill(task);
        {
            let mut w = self.w.borrow_mut();
            w.links[id].dropped = true;
            w.links[id].fin = Fin::Killed;
            let registered = w.links[id].phase == Phase::Registered;
            if registered {
                // Events queued before this point are processed with the receiving side already
                // gone.
                w.model.set_dead(id);
                if noticed {
                    w.push(Ev::Shut(id));
                }
            } else {
                w.links[id].phase = Phase::Over;
            }
            if let Err(e) = res {
                w.fail("panic", &WIRE_PROPS, format!("dropping a connection: {e}"));
            }
            registered
        }
    }

    fn env_actions(&self, out: &mut Vec<(Act, Env)>) {
        let w = self.w.borrow();
        for (i, l) in w.links.iter().enumerate() {
            let k = 1000 + 4 * i as u32;
            if !l.inflight.is_empty() && !l.dropped {
                out.push((Act { key: k, env: true }, Env::Deliver(i)));
            }
            if !l.out.is_empty() && !l.stalled {
                out.push((Act { key: k + 1, env: true }, Env::Consume(i)));
            }
            if l.lag && l.dirty && !l.dropped && l.flush_waker.is_some() {
                out.push((Act { key: k + 2, env: true }, Env::Flush(i)));
            }
        }
    }

    /// Performs one scheduling step. Returns `None` if nothing is enabled, `Some(true)` if the
    /// next workload operation was chosen.
    pub fn step(&mut self, c: &mut Choices, with_op: bool) -> Option<bool> {
        let mut acts: Vec<(Act, Env)> = Vec::with_capacity(16);
        for t in self.ex.ready() {
            acts.push((
                Act {
                    key: t as u32,
                    env: false,
                },
                Env::Task(t),
            ));
        }
        self.env_actions(&mut acts);
        if with_op {
            acts.push((Act { key: 999, env: true }, Env::Op));
        }
        if acts.is_empty() {
            return None;
        }
        let just: Vec<Act> = acts.iter().map(|a| a.0).collect();
        let i = c.schedule(&just);
        self.steps += 1;
        if self.steps > MAX_STEPS + 200 * self.sent {
            self.w.borrow_mut().fail(
                "livelock",
                &WIRE_PROPS,
                format!("no quiescence within {} steps", self.steps),
            );
        }
        match acts[i].1 {
            Env::Task(t) => self.poll(t),
            Env::Deliver(l) => self.deliver(l),
            Env::Consume(l) => self.consume(l),
            Env::Flush(l) => {
                let mut w = self.w.borrow_mut();
                w.links[l].dirty = false;
                if let Some(wk) = w.links[l].flush_waker.take() {
                    wk.wake();
                }
            }
            Env::Op => return Some(true),
        }
        Some(false)
    }

    fn poll(&mut self, t: usize) {
        if t == self.broker {
            self.w.borrow_mut().process();
        }
        let res = self.ex.poll(t);
        self.ex.adopt_spawned();
        let mut w = self.w.borrow_mut();
        match res {
            Polled::Panicked(msg) => {
                let name = if t == self.broker {
                    "broker"
                } else {
                    self.names.get(&t).copied().unwrap_or("connection")
                };
                w.fail("panic", &WIRE_PROPS, format!("{name} panicked: {msg}"));
            }
            Polled::Done if t == self.broker && !w.model.terminated => {
                // Only fine if nobody can reach the broker any more.
                if self.handle.is_some() || !w.model.conns.is_empty() {
                    w.fail(
                        "broker-stopped",
                        &WIRE_PROPS,
                        "Broker::run returned without having been asked to".into(),
                    );
                }
                w.model.terminated = true;
            }
            _ => {}
        }
    }

    fn deliver(&mut self, l: usize) {
        let mut w = self.w.borrow_mut();
        if let Some(m) = w.links[l].inflight.pop_front() {
            w.links[l].arrived.push_back(m);
            if let Some(wk) = w.links[l].recv_waker.take() {
                wk.wake();
            }
        }
    }

    fn consume(&mut self, l: usize) {
        let mut w = self.w.borrow_mut();
        let m = w.links[l].out.pop_front();
        if let Some(wk) = w.links[l].send_waker.take() {
            wk.wake();
        }
        if let Some(Message::Shutdown(_)) = m {
            if !w.links[l].sent_shutdown && !w.links[l].dropped {
                w.links[l].sent_shutdown = true;
                w.links[l].inflight.push_back(Message::Shutdown(Shutdown));
            }
        }
    }

    pub fn send(&mut self, id: usize, msg: Message) {
        let mut w = self.w.borrow_mut();
        if w.links[id].dropped {
            return;
        }
        let m = match recode(msg) {
            Ok(m) => m,
            Err(e) => {
                w.fail("codec", &["C12"], e);
                return;
            }
        };
        w.links[id].inflight.push_back(m);
        self.sent += 1;
    }

    /// Wakes everything that could be waiting for the peer of `id`.
    pub fn kick(&mut self, id: usize) {
        let mut w = self.w.borrow_mut();
        let l = &mut w.links[id];
        if l.fault_in == Some(0) {
            l.break_down();
        }
        if l.recv_fault {
            if let Some(wk) = l.recv_waker.take() {
                wk.wake();
            }
        }
        if l.send_fault || l.cap.is_none_or(|c| l.out.len() < c) {
            if let Some(wk) = l.send_waker.take() {
                wk.wake();
            }
        }
        if l.send_fault || !l.lag {
            if let Some(wk) = l.flush_waker.take() {
                wk.wake();
            }
        }
    }

    /// Lets the transport fail after `n` more operations, in both directions or just in one.
    pub fn inject_fault(&mut self, id: usize, n: u32, dirs: u8) {
        {
            let mut w = self.w.borrow_mut();
            let l = &mut w.links[id];
            if l.dropped || l.fault_in.is_some() {
                return;
            }
            l.fault_in = Some(n);
            l.fault_dirs = dirs;
        }
        self.kick(id);
    }

    pub fn client_shutdown(&mut self, id: usize) {
        {
            let mut w = self.w.borrow_mut();
            let l = &w.links[id];
            if l.dropped || l.sent_shutdown {
                return;
            }
            w.hit("end_client_shutdown");
        }
        self.send(id, Shutdown.into());
        self.w.borrow_mut().links[id].sent_shutdown = true;
    }

    /// No more stalls and no more faults.
    pub fn calm(&mut self) {
        let n = self.w.borrow().links.len();
        for id in 0..n {
            {
                let mut w = self.w.borrow_mut();
                let l = &mut w.links[id];
                l.stalled = false;
                l.cap = None;
                l.lag = false;
                if !l.fault_hit && (l.fault_dirs != 3 || !l.recv_fault) {
                    l.fault_in = None;
                    l.recv_fault = false;
                    l.send_fault = false;
                }
            }
            self.kick(id);
        }
    }

    /// Drops connections whose peers never completed the handshake.
    pub fn drop_handshakes(&mut self) {
        let n = self.w.borrow().links.len();
        for id in 0..n {
            let phase = self.w.borrow().links[id].phase;
            if phase == Phase::Await {
                self.kill_conn(id, true);
            }
        }
    }

    pub fn fail(&mut self, class: &str, props: &[&'static str], msg: String) {
        self.w.borrow_mut().fail(class, props, msg);
    }

    /// After termination was requested and everything came to rest.
    pub fn check_terminated(&mut self) {
        let done = self.w.borrow().broker_done;
        if !done {
            self.fail(
                "broker-hangs",
                &WIRE_PROPS,
                "Broker::run does not return".into(),
            );
            return;
        }
        let alive = self.ex.alive_tasks();
        if let Some(&t) = alive.first() {
            let name = self.ex.name(t).to_string();
            self.fail(
                "connection-hangs",
                &WIRE_PROPS,
                format!("{name} still runs after the broker has terminated"),
            );
        }
    }

    /// Runs until nothing is enabled.
    pub fn settle(&mut self, c: &mut Choices) {
        while !self.failed() {
            if self.step(c, false).is_none() {
                break;
            }
        }
    }

    pub fn failed(&self) -> bool {
        self.w.borrow().violation.is_some()
    }

    // Requests through broker handles, each in a task of its own.

    fn req(&mut self, name: &'static str, f: impl std::future::Future<Output = ()> + 'static) {
        let id = self.ex.spawn(name, f);
        self.names.insert(id, name);
    }

    pub fn req_shutdown(&mut self) {
        if let Some(mut h) = self.handle.clone() {
            let w = self.w.clone();
            self.w.borrow_mut().hit("end_broker_shutdown");
            self.req("handle", async move {
                w.borrow_mut().push(Ev::BrokerShutdown);
                h.shutdown().await;
            });
        }
    }

    pub fn req_idle(&mut self) {
        if let Some(mut h) = self.handle.clone() {
            let w = self.w.clone();
            self.w.borrow_mut().hit("end_idle_shutdown");
            self.req("handle", async move {
                w.borrow_mut().push(Ev::IdleShutdown);
                h.shutdown_idle().await;
            });
        }
    }

    pub fn req_shutdown_conn(&mut self, id: usize) {
        let ch = self.w.borrow().links[id].handle.clone();
        if let (Some(mut h), Some(ch)) = (self.handle.clone(), ch) {
            let w = self.w.clone();
            self.w.borrow_mut().hit("end_forced");
            self.req("handle", async move {
                w.borrow_mut().push(Ev::ShutConn(id));
                let _ = h.shutdown_connection(&ch).await;
            });
        }
    }

    pub fn req_stats(&mut self) {
        let Some(mut h) = self.handle.clone() else {
            return;
        };
        let w = self.w.clone();
        let t = w.borrow().next_token;
        w.borrow_mut().next_token += 1;
        self.req("handle", async move {
            w.borrow_mut().push(Ev::Stats(t));
            let res = h.take_statistics().await;
            let n = res.map_err(|_| ()).map(|s| {
                Numbers(BTreeMap::from([
                    ("connections", s.num_connections()),
                    ("objects", s.num_objects()),
                    ("services", s.num_services()),
                    ("channels", s.num_channels()),
                    ("bus_listeners", s.num_bus_listeners()),
                ]))
            });
            w.borrow_mut().stat_results.push((t, n));
        });
    }

    pub fn req_snapshot(&mut self) {
        #[cfg(feature = "hooks")]
        {
            let Some(mut h) = self.handle.clone() else {
                return;
            };
            let w = self.w.clone();
            let t = w.borrow().next_token;
            w.borrow_mut().next_token += 1;
            self.req("handle", async move {
                w.borrow_mut().push(Ev::Snapshot(t));
                let res = h.verif_snapshot().await;
                let n = res
                    .map_err(|_| ())
                    .map(|s| (Numbers(s.counts.into_iter().collect()), s.inconsistencies));
                w.borrow_mut().snap_results.push((t, n));
            });
        }
    }

    /// Compares statistics and snapshots received so far.
    pub fn check_numbers(&mut self) {
        let mut w = self.w.borrow_mut();
        for (t, res) in std::mem::take(&mut w.stat_results) {
            let Some(want) = w.model.stats.get(&t).cloned() else {
                continue;
            };
            w.hit("statistics_compared");
            match res {
                Ok(n) if n == want => {}
                Ok(n) => {
                    let d = diff(&want, &n);
                    w.fail(
                        "statistics",
                        &["C09"],
                        format!("published statistics differ from the true numbers: {d}"),
                    );
                }
                Err(()) => {
                    w.fail(
                        "statistics",
                        &["C09"],
                        "statistics request failed while the broker was running".into(),
                    );
                }
            }
        }
        for (t, res) in std::mem::take(&mut w.snap_results) {
            let Some(want) = w.model.snaps.get(&t).cloned() else {
                continue;
            };
            w.hit("snapshots_compared");
            let Ok((n, inc)) = res else { continue };
            let mut props = vec!["C09"];
            let d = diff(&want, &n);
            for (k, p) in [
                ("call", "C02"),
                ("obj", "C03"),
                ("svc", "C03"),
                ("event", "C04"),
                ("subscriptions", "C04"),
                ("channels", "C05"),
                ("senders", "C05"),
                ("receivers", "C05"),
                ("bus_listeners", "C10"),
            ] {
                if d.contains(k) {
                    props.push(p);
                }
            }
            if !d.is_empty() {
                w.fail(
                    "residual-state",
                    &props,
                    format!("broker state differs from the model: {d}"),
                );
            } else if !inc.is_empty() {
                w.fail(
                    "inconsistent-state",
                    &props,
                    format!("broker state is inconsistent: {inc:?}"),
                );
            }
        }
    }

    /// At quiescence: nothing that must have been sent is missing.
    pub fn check_settled(&mut self) {
        if self.failed() {
            return;
        }
        self.check_numbers();
        let mut w = self.w.borrow_mut();
        w.process();
        if !w.model.intro_exact && !w.model.terminated {
            let clean = |id: usize| {
                let l = &w.links[id];
                !l.fault_hit && l.fin == Fin::Running && !l.stalled
            };
            if let Some((id, serial, t)) = w.model.intro_lost(clean) {
                w.fail(
                    "introspection-lost",
                    &["C09", "C11"],
                    format!("c{id}: nobody is going to answer its introspection query {serial} for {t:x}"),
                );
                return;
            }
        }
        for id in 0..w.links.len() {
            let l = &w.links[id];
            let gone = w.model.gone.get(&id).copied();
            let clean = !l.fault_hit && l.fin != Fin::Killed && !l.stalled;
            let forced = gone == Some(Gone::Forced);
            if l.phase == Phase::Registered && clean && (gone.is_none() || forced) {
                if w.model.terminated && gone.is_none() {
                    // Registered too late for the broker to take notice.
                    continue;
                }
                if l.shutdown_received && forced {
                    if !l.got_shutdown {
                        w.fail(
                            "no-shutdown-reply",
                            &["C09", "C15"],
                            format!("c{id}'s shutdown was never answered"),
                        );
                        return;
                    }
                    continue;
                }
                let missing: Vec<Exp> = l
                    .exp
                    .iter()
                    .flat_map(|s| s.items.iter())
                    .filter(|e| !e.optional)
                    .cloned()
                    .collect();
                if let Some(e) = missing.first() {
                    let what = l.exp.front().map(|s| s.what.clone()).unwrap_or_default();
                    let mut props = props_of(&e.parts.skel);
                    if matches!(e.parts.skel, Message::Shutdown(_)) {
                        props.extend(["C15"]);
                    }
                    w.fail(
                        "missing-message",
                        &props,
                        format!(
                            "c{id} never got {} (and {} more; step: {what})",
                            show(&e.parts.skel),
                            missing.len() - 1
                        ),
                    );
                    return;
                }
                if gone.is_none() && l.dropped && !l.shutdown_received {
                    w.fail(
                        "closed",
                        &WIRE_PROPS,
                        format!("c{id} was closed without reason"),
                    );
                    return;
                }
            }
            let l = &w.links[id];
            if l.phase == Phase::Registered
                && clean
                && l.shutdown_received
                && !l.got_shutdown
                && gone == Some(Gone::Own)
            {
                w.fail(
                    "no-shutdown-reply",
                    &["C09", "C15"],
                    format!("c{id}'s shutdown was never answered"),
                );
                return;
            }
            // Connections the broker has let go must end.
            if matches!(gone, Some(Gone::Closed) | Some(Gone::Own) | Some(Gone::Dead))
                && l.fin == Fin::Running
            {
                let class = "connection-hangs";
                let why = w.model.last_close.clone();
                w.fail(
                    class,
                    &WIRE_PROPS,
                    format!("c{id} must have ended ({gone:?}) but still runs ({why})"),
                );
                return;
            }
            let l = &w.links[id];
            match l.phase {
                Phase::Replying(Some(_)) | Phase::Await => {}
                Phase::Over | Phase::Replying(None)
                    if l.fin == Fin::Running && l.handshake_exp.is_none() => {
                        w.fail(
                            "handshake-hangs",
                            &["C12"],
                            format!("c{id}: refused handshake does not end"),
                        );
                        return;
                    }
                _ => {}
            }
            let l = &w.links[id];
            if l.handshake_exp.is_some() && clean && !l.dropped && !w.model.terminated {
                w.fail(
                    "handshake",
                    &["C12"],
                    format!("c{id}: handshake was not answered"),
                );
                return;
            }
            // Results of finished connections.
            let l = &w.links[id];
            let forced_clean = forced && clean && !l.shutdown_received;
            let bad = match &l.fin {
                Fin::Running | Fin::Killed => None,
                Fin::Ok => (!(l.shutdown_received || (forced && l.got_shutdown)))
                    .then_some("Ok without a shutdown"),
                Fin::Transport => (!l.fault_hit).then_some("a transport error that never happened"),
                Fin::Codec => Some("a codec error"),
                Fin::Unexpected => {
                    if forced_clean || (l.shutdown_received && clean && gone != Some(Gone::Closed)) {
                        Some("UnexpectedShutdown instead of a clean shutdown")
                    } else if gone.is_none() && !w.model.terminated {
                        Some("UnexpectedShutdown although the broker runs")
                    } else {
                        None
                    }
                }
                Fin::AcceptErr(_) | Fin::Rejected => None,
            };
            if let Some(b) = bad {
                let fin = l.fin.clone();
                w.fail(
                    "connection-result",
                    &["C09", "C11", "C12", "C15"],
                    format!("c{id} ended with {b} ({fin:?}, broker view: {gone:?})"),
                );
                return;
            }
        }
    }

    pub fn outcome(mut self, c: &Choices) -> Outcome {
        let mut w = self.w.borrow_mut();
        let mut cover = std::mem::take(&mut w.cover);
        for (k, v) in std::mem::take(&mut w.model.cover) {
            *cover.entry(k).or_insert(0) += v;
        }
        let msgs: u64 = w.links.iter().map(|l| l.n_recv).sum();
        cover.insert("messages_received", msgs);
        cover.insert("connections", w.links.len() as u64);
        let out = Outcome {
            violation: w.violation.take(),
            cover,
            steps: self.steps,
            sched_hash: c.sched_hash,
            states: std::mem::take(&mut w.states),
            trace: w.trace.take().unwrap_or_default(),
            nontrivial: msgs >= 8,
        };
        drop(w);
        // Break reference cycles between tasks and the world.
        self.handle = None;
        out
    }
}

fn diff(want: &Numbers, got: &Numbers) -> String {
    let mut s = Vec::new();
    for (k, v) in &want.0 {
        match got.0.get(k) {
            Some(g) if g == v => {}
            Some(g) => s.push(format!("{k}={g} (true: {v})")),
            None => {}
        }
    }
    s.join(", ")
}

async fn run_conn(w: W, id: usize, t: SimTransport, handle: &mut BrokerHandle) -> Fin {
    let mut acc = match Acceptor::new(t).await {
        Ok(a) => a,
        Err(e) => {
            return Fin::AcceptErr(format!("{e:?}"));
        }
    };
    {
        let mut wm = w.borrow_mut();
        let l = &wm.links[id];
        let got = acc.client_data().map(|d| d.to_owned());
        let want = l.client_data.clone();
        let same = match (&got, &want) {
            (None, None) => true,
            (Some(g), Some(w)) => match (val::decode(g), val::decode(w)) {
                (Ok(g), Ok(w)) => g.value == w.value,
                _ => g == w,
            },
            _ => false,
        };
        let ver = l.ver;
        let expect_ok = matches!(l.phase, Phase::Replying(_)) && l.handshake_exp.is_some();
        if expect_ok && !same {
            wm.fail(
                "handshake",
                &["C12"],
                format!("c{id}: client data arrived as {got:?} instead of {want:?}"),
            );
        }
        let reject = wm.links[id].reject;
        if expect_ok && !reject && acc.version().minor() != ver {
            let v = acc.version();
            wm.fail(
                "handshake",
                &["C12"],
                format!("c{id}: negotiated {v}, expected 1.{ver}"),
            );
        }
        if let Some(d) = wm.links[id].reply_data.clone() {
            acc.set_reply_data(d);
        }
    }
    let reject = w.borrow().links[id].reject;
    if reject {
        let _ = acc.reject().await;
        return Fin::Rejected;
    }
    let conn = match acc.accept(handle).await {
        Ok(c) => c,
        Err(e) => return Fin::AcceptErr(format!("{e:?}")),
    };
    w.borrow_mut().links[id].handle = Some(conn.handle().clone());
    match conn.run().await {
        Ok(()) => Fin::Ok,
        Err(ConnectionError::Transport(_)) => Fin::Transport,
        Err(ConnectionError::UnexpectedShutdown) => Fin::Unexpected,
        Err(_) => Fin::Codec,
    }
}

/// One complete wire-level run.
pub fn run(p: &Profile, c: &mut Choices, trace: bool) -> Outcome {
    crate::val::allow_big(true);
    c.begin_span(choice::CONFIG, true);
    choice::serials(c);
    let mut sim = Sim::new(trace);
    let policy = match c.below(8) {
        0 | 1 => Policy::Uniform,
        2 => Policy::MostlyFifo,
        3 => Policy::EnvFirst,
        4 => Policy::TasksFirst,
        5 => Policy::Starve(sim.broker as u32),
        6 => Policy::Starve(1 + c.below(4)),
        _ => Policy::Priorities,
    };
    c.set_policy(policy);
    let mut n_ops = p.ops.0 + c.below(p.ops.1 - p.ops.0 + 1);
    match c.below(64) {
        0 => n_ops *= 8,
        1..=4 => n_ops *= 3,
        _ => {}
    }
    let mut drv = ops::Driver::new(p, c);
    sim.w.borrow_mut().model.low = model::Low(ops::low());
    sim.w.borrow_mut().model.intro_exact = !c.chance(1, 3);
    let more = if drv.wide() { c.below(10) } else { 0 };
    for _ in 0..(p.conns.0 + c.below(p.conns.1 - p.conns.0 + 1) + more) {
        drv.new_conn(&mut sim, c);
    }

    let mut done = 0;
    let mut open = c.begin_span(choice::OP, n_ops > 0);
    while !sim.failed() {
        match sim.step(c, open) {
            None => break,
            Some(true) => {
                drv.op(&mut sim, c);
                done += 1;
                open = c.begin_span(choice::OP, done < n_ops);
            }
            Some(false) => {}
        }
        if sim.steps % 64 == 0 {
            sim.check_numbers();
        }
    }
    drv.finish(&mut sim, c);
    sim.outcome(c)
}
