//! Executable reference model of the broker, written from the protocol semantics. It is fed the
//! broker's input events in queue order and yields, per event and connection, the set of messages
//! that connection must receive.

use super::parts::{dissect, IdKind, Parts};
use aldrin_core::message::*;
use aldrin_core::{
    BusEvent, BusListenerCookie, BusListenerFilter, BusListenerScope, ChannelCookie, ChannelEnd,
    ChannelEndWithCapacity, ObjectCookie, ObjectId, ObjectUuid, ProtocolVersion, SerializedValue,
    ServiceCookie, ServiceId, ServiceInfo, ServiceUuid, TypeId,
};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use uuid::Uuid;

pub type Cid = usize;

/// How a payload must compare to what was sent.
#[derive(Debug, Clone)]
pub enum Rule {
    None,
    /// Value sent by a peer of minor version `from`.
    Same { value: SerializedValue, from: u32 },
    Info(ServiceInfo),
}

#[derive(Debug, Clone)]
pub struct Exp {
    pub parts: Parts,
    pub rule: Rule,
    /// Must be the first message of its step.
    pub first: bool,
    /// Must be the last message of its step.
    pub last: bool,
    /// May be missing.
    pub optional: bool,
    /// Caused by the end of a connection.
    pub by_end: bool,
    /// Object and rank for lifetime ordering within a step.
    pub ord: Option<(u128, u8)>,
}

#[derive(Debug, Clone, Default)]
pub struct Step {
    pub items: Vec<Exp>,
    /// Any notification is tolerated before the items (broker shutdown).
    pub wild: bool,
    pub what: String,
}

#[derive(Debug, Clone)]
pub enum Ev {
    New(Cid, u32),
    Shut(Cid),
    Msg(Cid, Message),
    BrokerShutdown,
    IdleShutdown,
    ShutConn(Cid),
    Stats(usize),
    Snapshot(usize),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Gone {
    /// The connection reported its own end.
    Own,
    /// The broker closed it because of a message.
    Closed,
    /// Told to shut down.
    Forced,
    /// A send failed because its task is gone.
    Dead,
}

#[derive(Debug)]
pub struct MConn {
    pub ver: u32,
    pub dead: bool,
}

#[derive(Debug)]
pub struct MObj {
    pub uuid: u128,
    pub owner: Cid,
}

#[derive(Debug)]
pub struct MSvc {
    pub obj: u128,
    pub uuid: u128,
    pub info: ServiceInfo,
    pub events: BTreeMap<u32, BTreeSet<Cid>>,
    pub all: BTreeSet<Cid>,
    pub subs: BTreeSet<Cid>,
}

#[derive(Debug)]
pub struct MCall {
    pub caller: Cid,
    pub caller_serial: u32,
    pub svc: u128,
    pub aborted: bool,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum End {
    Unclaimed,
    Claimed(Cid, u32),
    Closed,
}

#[derive(Debug)]
pub struct MChan {
    pub s: End,
    pub r: End,
}

#[derive(Debug)]
pub struct MLis {
    pub owner: Cid,
    pub filters: Vec<BusListenerFilter>,
    pub scope: Option<BusListenerScope>,
}

#[derive(Debug, Clone, Copy)]
pub struct Low(pub u32);

impl Default for Low {
    fn default() -> Self {
        Self(4)
    }
}

/// A type some connections can describe.
#[derive(Debug, Default)]
pub struct MIntro {
    pub regs: BTreeSet<Cid>,
    /// The description and the version of who gave it.
    pub known: Option<(SerializedValue, u32)>,
    /// Who is being asked, and the model's name for that query.
    asked: Option<(Cid, u128)>,
    pending: Vec<(Cid, u32)>,
}

#[derive(Debug, Default)]
struct Deferred {
    remove: Vec<(Cid, Gone)>,
    unsub_event: Vec<(Cid, u128, u32)>,
    unsub_all: Vec<(Cid, u128)>,
    svc_destroyed: Vec<(Cid, u128)>,
    call_replies: Vec<(Cid, u32)>,
    obj_created: Vec<(u128, u128)>,
    svc_created: Vec<(u128, u128, u128, u128)>,
    svc_removed: Vec<(u128, u128, u128, u128)>,
    obj_removed: Vec<(u128, u128)>,
    aborts: Vec<u128>,
}

#[derive(Debug, Default)]
pub struct Model {
    /// Connections whose receiving side is gone.
    dead: BTreeSet<Cid>,
    pub conns: BTreeMap<Cid, MConn>,
    pub objs: BTreeMap<u128, MObj>,
    pub svcs: BTreeMap<u128, MSvc>,
    pub calls: BTreeMap<u128, MCall>,
    pub chans: BTreeMap<u128, MChan>,
    pub lis: BTreeMap<u128, MLis>,
    /// A sender is told of more capacity once it has no more than this left.
    pub low: Low,
    /// No two connections describe the same type: it is always known who is asked.
    pub intro_exact: bool,
    pub intro: BTreeMap<u128, MIntro>,
    /// Otherwise: outstanding introspection queries observed on the wire: serial -> target, type.
    pub iq: BTreeMap<u32, (Cid, u128)>,
    /// Otherwise: unanswered introspection queries: (conn, serial) -> types.
    pub iq_pending: BTreeMap<(Cid, u32), Vec<u128>>,
    /// Otherwise: all descriptions given for a type.
    pub iq_answers: BTreeMap<u128, Vec<SerializedValue>>,
    /// Queries it is open whether they are answered.
    pub iq_denied: BTreeSet<(Cid, u32)>,
    /// Queries that cannot be told apart.
    pub iq_unclear: BTreeSet<(Cid, u32)>,
    pub idle: bool,
    pub terminated: bool,
    next_sym: u128,
    def: Deferred,
    out: Vec<(Cid, Exp)>,
    by_end: bool,
    /// Connections removed so far.
    pub gone: BTreeMap<Cid, Gone>,
    /// Why the last connection was closed (diagnostics).
    pub last_close: String,
    pub stats: HashMap<usize, Numbers>,
    pub snaps: HashMap<usize, Numbers>,
    pub cover: BTreeMap<&'static str, u64>,
}

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Numbers(pub BTreeMap<&'static str, usize>);

pub const SYM: u128 = 0x5359_4d42_0000_0000_0000_0000_0000_0000;

fn oc(s: u128) -> ObjectCookie {
    ObjectCookie(Uuid::from_u128(s))
}
fn sc(s: u128) -> ServiceCookie {
    ServiceCookie(Uuid::from_u128(s))
}
fn cc(s: u128) -> ChannelCookie {
    ChannelCookie(Uuid::from_u128(s))
}
fn lc(s: u128) -> BusListenerCookie {
    BusListenerCookie(Uuid::from_u128(s))
}

pub fn malformed(v: &SerializedValue) -> bool {
    // What this model can decode must never be refused.
    crate::val::decode(v).is_err()
        && v
            .clone()
            .convert(Some(ProtocolVersion::V1_20), ProtocolVersion::V1_14)
            .is_err()
}

fn exp(msg: impl Into<Message>) -> Exp {
    Exp {
        parts: dissect(msg.into()),
        rule: Rule::None,
        first: false,
        last: false,
        optional: false,
        by_end: false,
        ord: None,
    }
}

fn intro_reply(serial: u32, known: Option<(SerializedValue, u32)>) -> Exp {
    let mut e = exp(QueryIntrospectionReply {
        serial,
        result: match &known {
            Some((v, _)) => QueryIntrospectionResult::Ok(v.clone()),
            None => QueryIntrospectionResult::Unavailable,
        },
    });
    if let Some((value, from)) = known {
        e.rule = Rule::Same { value, from };
    }
    e
}

type Res = Result<(), ()>;

impl Model {
    pub fn set_dead(&mut self, id: Cid) {
        self.dead.insert(id);
        if let Some(c) = self.conns.get_mut(&id) {
            c.dead = true;
        }
    }

    fn sym(&mut self) -> u128 {
        self.next_sym += 1;
        SYM + self.next_sym
    }

    fn hit(&mut self, what: &'static str) {
        *self.cover.entry(what).or_insert(0) += 1;
    }

    /// Queues an expectation; fails if the receiving task is gone.
    fn send(&mut self, to: Cid, mut e: Exp) -> Res {
        let Some(c) = self.conns.get(&to) else {
            return Ok(());
        };
        if c.dead {
            return Err(());
        }
        e.by_end = self.by_end;
        self.out.push((to, e));
        Ok(())
    }

    fn notify(&mut self, to: Cid, e: Exp) {
        if self.send(to, e).is_err() {
            self.def.remove.push((to, Gone::Dead));
        }
    }

    fn reply(&mut self, to: Cid, msg: impl Into<Message>) -> Res {
        let mut e = exp(msg);
        // What the reply makes of the messages that follow depends on it. Otherwise, the order in
        // which a connection hears of the consequences of its request is open.
        e.first = matches!(e.parts.skel, Message::StartBusListenerReply(_));
        self.send(to, e)
    }

    fn ver(&self, c: Cid) -> u32 {
        self.conns[&c].ver
    }

    fn owner_of_svc(&self, svc: u128) -> Cid {
        self.objs[&self.svcs[&svc].obj].owner
    }

    fn obj_by_uuid(&self, uuid: u128) -> Option<u128> {
        self.objs
            .iter()
            .find(|(_, o)| o.uuid == uuid)
            .map(|(&c, _)| c)
    }

    fn oid(&self, obj: u128) -> ObjectId {
        ObjectId::new(ObjectUuid(Uuid::from_u128(self.objs[&obj].uuid)), oc(obj))
    }

    /// Feeds one event and returns the steps it caused.
    pub fn event(&mut self, ev: Ev) -> Vec<(Cid, Step)> {
        debug_assert!(self.out.is_empty());
        let mut wild = false;
        let mut what = String::new();
        self.by_end = false;

        match ev {
            Ev::New(id, ver) => {
                let dead = self.dead.contains(&id);
                self.conns.insert(id, MConn { ver, dead });
            }
            Ev::Shut(id) => {
                what = format!("end of c{id}");
                self.def.remove.push((id, Gone::Own));
            }
            Ev::ShutConn(id) => {
                what = format!("forced shutdown of c{id}");
                self.def.remove.push((id, Gone::Forced));
            }
            Ev::BrokerShutdown => {
                wild = true;
                what = "broker shutdown".into();
                for &id in self.conns.keys() {
                    self.def.remove.push((id, Gone::Forced));
                }
                self.terminated = true;
            }
            Ev::IdleShutdown => self.idle = true,
            Ev::Stats(t) => {
                let n = self.stat_numbers();
                self.stats.insert(t, n);
            }
            Ev::Snapshot(t) => {
                let n = self.snap_numbers();
                self.snaps.insert(t, n);
            }
            Ev::Msg(id, msg) => {
                if self.conns.contains_key(&id) {
                    what = format!("c{id}: {:?}", msg.kind());
                    let dead = self.conns[&id].dead;
                    if self.message(id, msg).is_err() {
                        self.last_close = what.clone();
                        let g = if dead { Gone::Dead } else { Gone::Closed };
                        self.def.remove.push((id, g));
                    }
                }
            }
        }

        self.settle();

        if self.idle && self.conns.is_empty() {
            self.terminated = true;
        }

        let mut steps: BTreeMap<Cid, Step> = BTreeMap::new();
        for (cid, mut e) in self.out.drain(..) {
            let st = steps.entry(cid).or_default();
            // All connections end at once and in no particular order. Who still gets to see the
            // end of whom is open.
            e.optional |= wild && !e.last;
            st.wild = wild;
            st.items.push(e);
        }
        let mut res: Vec<(Cid, Step)> = steps.into_iter().collect();
        for (_, st) in &mut res {
            st.what = what.clone();
        }
        res
    }

    fn settle(&mut self) {
        loop {
            if let Some((id, why)) = self.def.remove.pop() {
                self.remove_conn(id, why);
            } else if let Some((to, svc, event)) = self.def.unsub_event.pop() {
                self.notify(
                    to,
                    exp(UnsubscribeEvent {
                        service_cookie: sc(svc),
                        event,
                    }),
                );
            } else if let Some((to, svc)) = self.def.unsub_all.pop() {
                self.notify(
                    to,
                    exp(UnsubscribeAllEvents {
                        serial: None,
                        service_cookie: sc(svc),
                    }),
                );
            } else if let Some((to, svc)) = self.def.svc_destroyed.pop() {
                self.notify(
                    to,
                    exp(ServiceDestroyed {
                        service_cookie: sc(svc),
                    }),
                );
            } else if let Some((to, serial)) = self.def.call_replies.pop() {
                self.notify(
                    to,
                    exp(CallFunctionReply {
                        serial,
                        result: CallFunctionResult::InvalidService,
                    }),
                );
            } else if let Some((obj, uuid)) = self.def.obj_created.pop() {
                let id = ObjectId::new(ObjectUuid(Uuid::from_u128(uuid)), oc(obj));
                self.bus_event(BusEvent::ObjectCreated(id), obj, 0);
            } else if let Some((ou, o, su, s)) = self.def.svc_created.pop() {
                let id = sid(ou, o, su, s);
                self.bus_event(BusEvent::ServiceCreated(id), o, 1);
            } else if let Some((ou, o, su, s)) = self.def.svc_removed.pop() {
                let id = sid(ou, o, su, s);
                self.bus_event(BusEvent::ServiceDestroyed(id), o, 2);
            } else if let Some((obj, uuid)) = self.def.obj_removed.pop() {
                let id = ObjectId::new(ObjectUuid(Uuid::from_u128(uuid)), oc(obj));
                self.bus_event(BusEvent::ObjectDestroyed(id), obj, 3);
            } else if let Some(callee) = self.def.aborts.pop() {
                self.abort(callee);
            } else {
                break;
            }
        }
    }

    fn remove_conn(&mut self, id: Cid, why: Gone) {
        let Some(conn) = self.conns.remove(&id) else {
            return;
        };
        self.by_end = true;
        self.hit("conn_removed");
        self.gone.insert(id, why);
        if why == Gone::Forced && !conn.dead {
            let mut e = exp(Shutdown);
            e.last = true;
            e.by_end = true;
            self.out.push((id, e));
        }

        self.lis.retain(|_, l| l.owner != id);

        let objs: Vec<u128> = self
            .objs
            .iter()
            .filter(|(_, o)| o.owner == id)
            .map(|(&c, _)| c)
            .collect();
        for o in objs {
            self.remove_object(o);
        }

        let svcs: Vec<u128> = self.svcs.keys().copied().collect();
        for s in svcs {
            let owner = self.owner_of_svc(s);
            let svc = self.svcs.get_mut(&s).unwrap();
            let mut ended = Vec::new();
            svc.events.retain(|&e, set| {
                if set.remove(&id) && set.is_empty() {
                    ended.push(e);
                }
                !set.is_empty()
            });
            let all_ended = svc.all.remove(&id) && svc.all.is_empty();
            svc.subs.remove(&id);
            for e in ended {
                self.def.unsub_event.push((owner, s, e));
            }
            if all_ended {
                self.def.unsub_all.push((owner, s));
            }
        }

        let chans: Vec<u128> = self.chans.keys().copied().collect();
        for &c in &chans {
            if matches!(self.chans.get(&c), Some(ch) if matches!(ch.s, End::Claimed(o, _) if o == id))
            {
                self.close_end(c, ChannelEnd::Sender);
            }
        }
        for &c in &chans {
            if matches!(self.chans.get(&c), Some(ch) if matches!(ch.r, End::Claimed(o, _) if o == id))
            {
                self.close_end(c, ChannelEnd::Receiver);
            }
        }

        let calls: Vec<u128> = self
            .calls
            .iter()
            .filter(|(_, c)| c.caller == id && !c.aborted)
            .map(|(&k, _)| k)
            .collect();
        self.def.aborts.extend(calls);

        self.iq.retain(|_, t| t.0 != id);
        self.iq_pending.retain(|k, _| k.0 != id);
        self.intro_remove_conn(id);
    }

    /// `id` no longer describes any types, nor waits for descriptions.
    fn intro_remove_conn(&mut self, id: Cid) {
        let types: Vec<u128> = self.intro.keys().copied().collect();
        for t in types {
            let e = self.intro.get_mut(&t).unwrap();
            e.pending.retain(|p| p.0 != id);
            let had = e.regs.remove(&id);
            if !had || !e.regs.is_empty() {
                continue;
            }
            let e = self.intro.remove(&t).unwrap();
            if e.asked.is_some() {
                self.hit("introspection_end_of_asked");
            }
            for (to, serial) in e.pending {
                self.notify(to, intro_reply(serial, None));
            }
        }
    }

    pub fn intro_asked(&self, sym: u128) -> bool {
        self.intro
            .values()
            .any(|e| matches!(e.asked, Some((_, s)) if s == sym))
    }

    /// A query that nobody is going to answer.
    pub fn intro_lost(&self, clean: impl Fn(Cid) -> bool) -> Option<(Cid, u32, u128)> {
        for (key, types) in &self.iq_pending {
            if self.iq_unclear.contains(key) || !clean(key.0) || !self.conns.contains_key(&key.0) {
                continue;
            }
            for t in types {
                let asked = self.iq.values().any(|q| q.1 == *t);
                let regs_clean = self
                    .intro
                    .get(t)
                    .is_none_or(|e| e.regs.iter().all(|&r| clean(r)));
                if !asked && regs_clean {
                    return Some((key.0, key.1, *t));
                }
            }
        }
        None
    }

    /// Asks whoever can describe `t`.
    fn intro_ask(&mut self, t: u128) {
        let sym = self.sym();
        let e = self.intro.get_mut(&t).unwrap();
        let to = *e.regs.first().unwrap();
        e.asked = Some((to, sym));
        let mut q = exp(QueryIntrospection {
            serial: 0,
            type_id: TypeId(Uuid::from_u128(t)),
        });
        q.parts.ids = vec![(IdKind::Query, sym)];
        self.hit("introspection_asked");
        self.notify(to, q);
    }

    fn intro_query(&mut self, id: Cid, m: QueryIntrospection) -> Res {
        let t = m.type_id.0.as_u128();
        let Some(e) = self.intro.get_mut(&t) else {
            return self.send(id, intro_reply(m.serial, None));
        };
        if let Some(known) = e.known.clone() {
            self.hit("introspection_cached");
            return self.send(id, intro_reply(m.serial, Some(known)));
        }
        e.pending.push((id, m.serial));
        if e.asked.is_none() {
            self.intro_ask(t);
        }
        Ok(())
    }

    fn intro_answer(&mut self, id: Cid, m: QueryIntrospectionReply) -> Res {
        let sym = SYM + m.serial as u128;
        let Some(t) = self
            .intro
            .iter()
            .find(|(_, e)| e.asked == Some((id, sym)))
            .map(|(&t, _)| t)
        else {
            return Err(());
        };
        let ver = self.ver(id);
        match m.result {
            QueryIntrospectionResult::Ok(v) => {
                if malformed(&v) {
                    return Err(());
                }
                self.hit("introspection_described");
                let e = self.intro.get_mut(&t).unwrap();
                e.asked = None;
                e.known = Some((v.clone(), ver));
                for (to, serial) in std::mem::take(&mut e.pending) {
                    self.notify(to, intro_reply(serial, Some((v.clone(), ver))));
                }
            }
            QueryIntrospectionResult::Unavailable => {
                // It is the only one that ever claimed to know.
                self.hit("introspection_denied");
                let e = self.intro.remove(&t).unwrap();
                for (to, serial) in e.pending {
                    self.notify(to, intro_reply(serial, None));
                }
            }
        }
        Ok(())
    }

    fn remove_object(&mut self, obj: u128) {
        let svcs: Vec<u128> = self
            .svcs
            .iter()
            .filter(|(_, s)| s.obj == obj)
            .map(|(&c, _)| c)
            .collect();
        let uuid = self.objs[&obj].uuid;
        self.def.obj_removed.push((obj, uuid));
        for s in svcs {
            self.remove_service(s);
        }
        self.objs.remove(&obj);
    }

    fn remove_service(&mut self, s: u128) {
        let svc = self.svcs.remove(&s).unwrap();
        let ou = self.objs[&svc.obj].uuid;
        self.def.svc_removed.push((ou, svc.obj, svc.uuid, s));
        let calls: Vec<u128> = self
            .calls
            .iter()
            .filter(|(_, c)| c.svc == s)
            .map(|(&k, _)| k)
            .collect();
        for k in calls {
            let c = self.calls.remove(&k).unwrap();
            if !c.aborted {
                self.hit("call_ended_by_removal");
                self.def.call_replies.push((c.caller, c.caller_serial));
            }
        }
        let mut told: BTreeSet<Cid> = svc.subs.clone();
        told.extend(svc.events.values().flatten());
        for t in told {
            if self.conns.contains_key(&t) {
                self.hit("service_destroyed_notice");
                self.def.svc_destroyed.push((t, s));
            }
        }
    }

    fn abort(&mut self, callee: u128) {
        let Some(call) = self.calls.get_mut(&callee) else {
            return;
        };
        if call.aborted {
            return;
        }
        call.aborted = true;
        let (caller, serial, svc) = (call.caller, call.caller_serial, call.svc);
        let owner = self.owner_of_svc(svc);
        self.hit("call_aborted");
        if self.conns.get(&owner).is_some_and(|c| c.ver >= 16) {
            let mut e = exp(AbortFunctionCall { serial: 0 });
            e.parts.ids = vec![(IdKind::Callee, callee)];
            self.notify(owner, e);
        }
        if self.conns.contains_key(&caller) {
            self.notify(
                caller,
                exp(CallFunctionReply {
                    serial,
                    result: CallFunctionResult::Aborted,
                }),
            );
        }
    }

    fn bus_event(&mut self, event: BusEvent, obj: u128, rank: u8) {
        let targets: BTreeSet<Cid> = self
            .lis
            .values()
            .filter(|l| {
                l.scope.is_some_and(|s| s != BusListenerScope::Current)
                    && l.filters.iter().any(|f| matches_event(f, event))
            })
            .map(|l| l.owner)
            .collect();
        for t in targets {
            self.hit("bus_event");
            let mut e = exp(EmitBusEvent {
                cookie: None,
                event,
            });
            e.ord = Some((obj, rank));
            self.notify(t, e);
        }
    }

    /// Closes one end and tells the owner of the other end, if there is one.
    fn close_end(&mut self, chan: u128, end: ChannelEnd) {
        let Some(ch) = self.chans.get_mut(&chan) else {
            return;
        };
        let other = match end {
            ChannelEnd::Sender => {
                ch.s = End::Closed;
                ch.r
            }
            ChannelEnd::Receiver => {
                ch.r = End::Closed;
                ch.s
            }
        };
        match other {
            End::Claimed(o, _) if self.conns.contains_key(&o) => {
                self.hit("channel_end_closed_notice");
                self.notify(
                    o,
                    exp(ChannelEndClosed {
                        cookie: cc(chan),
                        end,
                    }),
                );
            }
            _ => {
                self.chans.remove(&chan);
            }
        }
    }

    fn message(&mut self, id: Cid, msg: Message) -> Res {
        let ver = self.ver(id);
        let kind = msg.kind();
        if ver < min_version(kind) {
            self.hit("gated_message");
            return Err(());
        }
        match msg {
            Message::CreateObject(m) => {
                let uuid = m.uuid.0.as_u128();
                if self.obj_by_uuid(uuid).is_some() {
                    self.hit("create_object_dup");
                    return self.reply(
                        id,
                        CreateObjectReply {
                            serial: m.serial,
                            result: CreateObjectResult::DuplicateObject,
                        },
                    );
                }
                let c = self.sym();
                self.reply(
                    id,
                    CreateObjectReply {
                        serial: m.serial,
                        result: CreateObjectResult::Ok(oc(c)),
                    },
                )?;
                self.objs.insert(c, MObj { uuid, owner: id });
                self.def.obj_created.push((c, uuid));
                Ok(())
            }

            Message::DestroyObject(m) => {
                let c = m.cookie.0.as_u128();
                let result = match self.objs.get(&c) {
                    None => DestroyObjectResult::InvalidObject,
                    Some(o) if o.owner != id => DestroyObjectResult::ForeignObject,
                    Some(_) => DestroyObjectResult::Ok,
                };
                self.reply(
                    id,
                    DestroyObjectReply {
                        serial: m.serial,
                        result,
                    },
                )?;
                if result == DestroyObjectResult::Ok {
                    self.remove_object(c);
                } else {
                    self.hit("destroy_object_refused");
                }
                Ok(())
            }

            Message::CreateService(m) => self.create_service(
                id,
                m.serial,
                m.object_cookie.0.as_u128(),
                m.uuid.0.as_u128(),
                Ok(ServiceInfo::new(m.version)),
            ),

            Message::CreateService2(m) => {
                let info = m.value.deserialize::<ServiceInfo>().map_err(|_| ()).map(|i| {
                    if ver < 18 {
                        i.set_subscribe_all(false)
                    } else {
                        i
                    }
                });
                self.create_service(
                    id,
                    m.serial,
                    m.object_cookie.0.as_u128(),
                    m.uuid.0.as_u128(),
                    info,
                )
            }

            Message::DestroyService(m) => {
                let c = m.cookie.0.as_u128();
                let result = if !self.svcs.contains_key(&c) {
                    DestroyServiceResult::InvalidService
                } else if self.owner_of_svc(c) != id {
                    DestroyServiceResult::ForeignObject
                } else {
                    DestroyServiceResult::Ok
                };
                self.reply(
                    id,
                    DestroyServiceReply {
                        serial: m.serial,
                        result,
                    },
                )?;
                if result == DestroyServiceResult::Ok {
                    self.remove_service(c);
                } else {
                    self.hit("destroy_service_refused");
                }
                Ok(())
            }

            Message::CallFunction(m) => {
                self.call(id, m.serial, m.service_cookie, m.function, None, m.value)
            }
            Message::CallFunction2(m) => self.call(
                id,
                m.serial,
                m.service_cookie,
                m.function,
                m.version,
                m.value,
            ),

            Message::CallFunctionReply(m) => {
                // `serial` has already been translated to the model's name of the call.
                let key = SYM + m.serial as u128;
                let Some(call) = self.calls.get(&key) else {
                    self.hit("reply_unknown");
                    return Ok(());
                };
                if self.owner_of_svc(call.svc) != id {
                    self.hit("reply_foreign");
                    return Ok(());
                }
                if call.aborted {
                    self.hit("reply_after_abort");
                    self.calls.remove(&key);
                    return Ok(());
                }
                let (caller, serial) = (call.caller, call.caller_serial);
                let value = match &m.result {
                    CallFunctionResult::Ok(v) | CallFunctionResult::Err(v) => Some(v.clone()),
                    _ => None,
                };
                if let Some(v) = &value {
                    if ver >= 20 && self.ver(caller) < 20 && malformed(v) {
                        return Err(());
                    }
                }
                self.hit("reply_delivered");
                self.calls.remove(&key);
                let mut e = exp(CallFunctionReply {
                    serial,
                    result: m.result,
                });
                if let Some(value) = value {
                    e.rule = Rule::Same { value, from: ver };
                }
                self.notify(caller, e);
                Ok(())
            }

            Message::AbortFunctionCall(m) => {
                let key = self
                    .calls
                    .iter()
                    .find(|(_, c)| c.caller == id && c.caller_serial == m.serial && !c.aborted)
                    .map(|(&k, _)| k);
                match key {
                    Some(k) => self.def.aborts.push(k),
                    None => self.hit("abort_unknown"),
                }
                Ok(())
            }

            Message::SubscribeEvent(m) => {
                let serial = m.serial.ok_or(())?;
                let c = m.service_cookie.0.as_u128();
                let ok = self.svcs.contains_key(&c);
                self.reply(
                    id,
                    SubscribeEventReply {
                        serial,
                        result: if ok {
                            SubscribeEventResult::Ok
                        } else {
                            SubscribeEventResult::InvalidService
                        },
                    },
                )?;
                if ok {
                    let owner = self.owner_of_svc(c);
                    let set = self
                        .svcs
                        .get_mut(&c)
                        .unwrap()
                        .events
                        .entry(m.event)
                        .or_default();
                    let first = set.is_empty();
                    set.insert(id);
                    if first {
                        self.hit("event_0_to_1");
                        // A failure to reach the owner is noticed later.
                        let _ = self.send(
                            owner,
                            exp(SubscribeEvent {
                                serial: None,
                                service_cookie: sc(c),
                                event: m.event,
                            }),
                        );
                    }
                }
                Ok(())
            }

            Message::UnsubscribeEvent(m) => {
                let c = m.service_cookie.0.as_u128();
                if let Some(svc) = self.svcs.get_mut(&c) {
                    let mut last = false;
                    if let Some(set) = svc.events.get_mut(&m.event) {
                        set.remove(&id);
                        if set.is_empty() {
                            svc.events.remove(&m.event);
                            last = true;
                        }
                    }
                    if last {
                        self.hit("event_1_to_0");
                        let owner = self.owner_of_svc(c);
                        self.notify(
                            owner,
                            exp(UnsubscribeEvent {
                                service_cookie: sc(c),
                                event: m.event,
                            }),
                        );
                    }
                }
                Ok(())
            }

            Message::EmitEvent(m) => {
                let c = m.service_cookie.0.as_u128();
                if !self.svcs.contains_key(&c) || self.owner_of_svc(c) != id {
                    self.hit("emit_dropped");
                    return Ok(());
                }
                let svc = &self.svcs[&c];
                let mut targets: BTreeSet<Cid> = svc.all.clone();
                if let Some(s) = svc.events.get(&m.event) {
                    targets.extend(s);
                }
                let bad = ver >= 20 && malformed(&m.value);
                let mut failed = false;
                for t in targets {
                    if bad && self.ver(t) < 20 {
                        failed = true;
                        continue;
                    }
                    self.hit("event_delivered");
                    let mut e = exp(EmitEvent {
                        service_cookie: sc(c),
                        event: m.event,
                        value: m.value.clone(),
                    });
                    e.optional = bad;
                    e.rule = Rule::Same {
                        value: m.value.clone(),
                        from: ver,
                    };
                    self.notify(t, e);
                }
                if failed {
                    return Err(());
                }
                Ok(())
            }

            Message::QueryServiceVersion(m) => {
                let result = match self.svcs.get(&m.cookie.0.as_u128()) {
                    Some(s) => QueryServiceVersionResult::Ok(s.info.version()),
                    None => QueryServiceVersionResult::InvalidService,
                };
                self.reply(
                    id,
                    QueryServiceVersionReply {
                        serial: m.serial,
                        result,
                    },
                )
            }

            Message::QueryServiceInfo(m) => match self.svcs.get(&m.cookie.0.as_u128()) {
                Some(s) => {
                    let info = s.info;
                    let mut e = exp(QueryServiceInfoReply {
                        serial: m.serial,
                        result: QueryServiceInfoResult::Ok(crate::val::raw_value(&[0])),
                    });
                    e.rule = Rule::Info(info);
                    self.send(id, e)
                }
                None => self.reply(
                    id,
                    QueryServiceInfoReply {
                        serial: m.serial,
                        result: QueryServiceInfoResult::InvalidService,
                    },
                ),
            },

            Message::SubscribeService(m) => {
                let c = m.service_cookie.0.as_u128();
                let ok = self.svcs.contains_key(&c);
                self.reply(
                    id,
                    SubscribeServiceReply {
                        serial: m.serial,
                        result: if ok {
                            SubscribeServiceResult::Ok
                        } else {
                            SubscribeServiceResult::InvalidService
                        },
                    },
                )?;
                if ok {
                    self.svcs.get_mut(&c).unwrap().subs.insert(id);
                }
                Ok(())
            }

            Message::UnsubscribeService(m) => {
                if let Some(s) = self.svcs.get_mut(&m.service_cookie.0.as_u128()) {
                    s.subs.remove(&id);
                }
                Ok(())
            }

            Message::SubscribeAllEvents(m) => {
                let serial = m.serial.ok_or(())?;
                let c = m.service_cookie.0.as_u128();
                let result = match self.svcs.get(&c) {
                    None => SubscribeAllEventsResult::InvalidService,
                    Some(s)
                        if s.info.subscribe_all() != Some(true)
                            || self.ver(self.owner_of_svc(c)) < 18 =>
                    {
                        SubscribeAllEventsResult::NotSupported
                    }
                    Some(_) => SubscribeAllEventsResult::Ok,
                };
                self.reply(id, SubscribeAllEventsReply { serial, result })?;
                if result == SubscribeAllEventsResult::Ok {
                    let owner = self.owner_of_svc(c);
                    let svc = self.svcs.get_mut(&c).unwrap();
                    let first = svc.all.is_empty();
                    svc.all.insert(id);
                    if first {
                        self.hit("all_0_to_1");
                        let _ = self.send(
                            owner,
                            exp(SubscribeAllEvents {
                                serial: None,
                                service_cookie: sc(c),
                            }),
                        );
                    }
                }
                Ok(())
            }

            Message::UnsubscribeAllEvents(m) => {
                let c = m.service_cookie.0.as_u128();
                let result = match self.svcs.get(&c) {
                    None => UnsubscribeAllEventsResult::InvalidService,
                    Some(_) if self.ver(self.owner_of_svc(c)) < 18 => {
                        UnsubscribeAllEventsResult::NotSupported
                    }
                    Some(_) => UnsubscribeAllEventsResult::Ok,
                };
                if let Some(serial) = m.serial {
                    self.reply(id, UnsubscribeAllEventsReply { serial, result })?;
                }
                if result == UnsubscribeAllEventsResult::Ok {
                    let owner = self.owner_of_svc(c);
                    let svc = self.svcs.get_mut(&c).unwrap();
                    if svc.all.remove(&id) && svc.all.is_empty() {
                        self.hit("all_1_to_0");
                        let _ = self.send(
                            owner,
                            exp(UnsubscribeAllEvents {
                                serial: None,
                                service_cookie: sc(c),
                            }),
                        );
                    }
                }
                Ok(())
            }

            Message::CreateChannel(m) => {
                let c = self.sym();
                self.reply(
                    id,
                    CreateChannelReply {
                        serial: m.serial,
                        cookie: cc(c),
                    },
                )?;
                let ch = match m.end {
                    ChannelEndWithCapacity::Sender => MChan {
                        s: End::Claimed(id, 0),
                        r: End::Unclaimed,
                    },
                    ChannelEndWithCapacity::Receiver(cap) => MChan {
                        s: End::Unclaimed,
                        r: End::Claimed(id, cap),
                    },
                };
                self.chans.insert(c, ch);
                Ok(())
            }

            Message::ClaimChannelEnd(m) => {
                let c = m.cookie.0.as_u128();
                let (mine, other) = match (self.chans.get(&c), m.end) {
                    (None, _) => (End::Closed, End::Closed),
                    (Some(ch), ChannelEndWithCapacity::Sender) => (ch.s, ch.r),
                    (Some(ch), ChannelEndWithCapacity::Receiver(_)) => (ch.r, ch.s),
                };
                let err = match mine {
                    End::Unclaimed => None,
                    End::Claimed(..) => Some(ClaimChannelEndResult::AlreadyClaimed),
                    End::Closed => Some(ClaimChannelEndResult::InvalidChannel),
                };
                if let Some(result) = err {
                    self.hit("claim_refused");
                    return self.reply(
                        id,
                        ClaimChannelEndReply {
                            serial: m.serial,
                            result,
                        },
                    );
                }
                let End::Claimed(other, cap) = other else {
                    unreachable!("unclaimed end without a claimed other end")
                };
                self.hit("claimed");
                let ch = self.chans.get_mut(&c).unwrap();
                let result = match m.end {
                    ChannelEndWithCapacity::Sender => {
                        ch.s = End::Claimed(id, cap);
                        ClaimChannelEndResult::SenderClaimed(cap)
                    }
                    ChannelEndWithCapacity::Receiver(rc) => {
                        ch.r = End::Claimed(id, rc);
                        ch.s = End::Claimed(other, rc);
                        ClaimChannelEndResult::ReceiverClaimed
                    }
                };
                let res = self.reply(
                    id,
                    ClaimChannelEndReply {
                        serial: m.serial,
                        result,
                    },
                );
                self.notify(
                    other,
                    exp(ChannelEndClaimed {
                        cookie: m.cookie,
                        end: m.end,
                    }),
                );
                res
            }

            Message::CloseChannelEnd(m) => {
                let c = m.cookie.0.as_u128();
                let result = match self.chans.get(&c) {
                    None => CloseChannelEndResult::InvalidChannel,
                    Some(ch) => {
                        let e = match m.end {
                            ChannelEnd::Sender => ch.s,
                            ChannelEnd::Receiver => ch.r,
                        };
                        match e {
                            End::Unclaimed => CloseChannelEndResult::Ok,
                            End::Claimed(o, _) if o == id => CloseChannelEndResult::Ok,
                            End::Claimed(..) => CloseChannelEndResult::ForeignChannel,
                            End::Closed => CloseChannelEndResult::InvalidChannel,
                        }
                    }
                };
                self.reply(
                    id,
                    CloseChannelEndReply {
                        serial: m.serial,
                        result,
                    },
                )?;
                if result == CloseChannelEndResult::Ok {
                    self.close_end(c, m.end);
                } else {
                    self.hit("close_refused");
                }
                Ok(())
            }

            Message::AddChannelCapacity(m) => {
                let c = m.cookie.0.as_u128();
                let Some(ch) = self.chans.get_mut(&c) else {
                    return Ok(());
                };
                let End::Claimed(o, cap) = ch.r else {
                    return Ok(());
                };
                if o != id || m.capacity == 0 {
                    return Ok(());
                }
                let Some(new) = cap.checked_add(m.capacity) else {
                    self.hit("capacity_overflow");
                    self.close_end(c, ChannelEnd::Receiver);
                    return Ok(());
                };
                ch.r = End::Claimed(o, new);
                if let End::Claimed(so, scap) = ch.s {
                    if scap <= self.low.0 {
                        ch.s = End::Claimed(so, new);
                        self.hit("capacity_forwarded");
                        self.notify(
                            so,
                            exp(AddChannelCapacity {
                                cookie: cc(c),
                                capacity: new - scap,
                            }),
                        );
                    }
                }
                Ok(())
            }

            Message::SendItem(m) => {
                let c = m.cookie.0.as_u128();
                let Some(ch) = self.chans.get_mut(&c) else {
                    return Ok(());
                };
                let End::Claimed(so, scap) = ch.s else {
                    return Ok(());
                };
                if so != id {
                    self.hit("item_foreign");
                    return Ok(());
                }
                let (ro, rcap) = match ch.r {
                    End::Claimed(o, cap) => (o, cap),
                    End::Unclaimed => {
                        self.hit("item_unclaimed");
                        self.close_end(c, ChannelEnd::Receiver);
                        self.close_end(c, ChannelEnd::Sender);
                        return Ok(());
                    }
                    End::Closed => return Ok(()),
                };
                if scap == 0 {
                    self.hit("capacity_exhausted");
                    self.close_end(c, ChannelEnd::Sender);
                    return Ok(());
                }
                let (mut scap, rcap) = (scap - 1, rcap - 1);
                let mut add = None;
                if scap <= self.low.0 && rcap > scap {
                    add = Some(rcap - scap);
                    scap = rcap;
                }
                ch.s = End::Claimed(so, scap);
                ch.r = End::Claimed(ro, rcap);
                if ver >= 20 && self.ver(ro) < 20 && malformed(&m.value) {
                    return Err(());
                }
                self.hit("item_delivered");
                let mut e = exp(ItemReceived {
                    cookie: cc(c),
                    value: m.value.clone(),
                });
                e.rule = Rule::Same {
                    value: m.value,
                    from: ver,
                };
                self.notify(ro, e);
                if let Some(capacity) = add {
                    self.hit("capacity_replenished");
                    self.send(
                        id,
                        exp(AddChannelCapacity {
                            cookie: cc(c),
                            capacity,
                        }),
                    )?;
                }
                Ok(())
            }

            Message::Sync(m) => self.reply(id, SyncReply { serial: m.serial }),

            Message::CreateBusListener(m) => {
                let c = self.sym();
                self.reply(
                    id,
                    CreateBusListenerReply {
                        serial: m.serial,
                        cookie: lc(c),
                    },
                )?;
                self.lis.insert(
                    c,
                    MLis {
                        owner: id,
                        filters: Vec::new(),
                        scope: None,
                    },
                );
                Ok(())
            }

            Message::DestroyBusListener(m) => {
                let c = m.cookie.0.as_u128();
                let ok = self.lis.get(&c).is_some_and(|l| l.owner == id);
                self.reply(
                    id,
                    DestroyBusListenerReply {
                        serial: m.serial,
                        result: if ok {
                            DestroyBusListenerResult::Ok
                        } else {
                            DestroyBusListenerResult::InvalidBusListener
                        },
                    },
                )?;
                if ok {
                    self.lis.remove(&c);
                }
                Ok(())
            }

            Message::AddBusListenerFilter(m) => {
                if let Some(l) = self.own_lis(id, m.cookie) {
                    if !l.filters.contains(&m.filter) {
                        l.filters.push(m.filter);
                    }
                }
                Ok(())
            }
            Message::RemoveBusListenerFilter(m) => {
                if let Some(l) = self.own_lis(id, m.cookie) {
                    l.filters.retain(|f| *f != m.filter);
                }
                Ok(())
            }
            Message::ClearBusListenerFilters(m) => {
                if let Some(l) = self.own_lis(id, m.cookie) {
                    l.filters.clear();
                }
                Ok(())
            }

            Message::StartBusListener(m) => {
                let result = match self.own_lis(id, m.cookie) {
                    None => StartBusListenerResult::InvalidBusListener,
                    Some(l) if l.scope.is_some() => StartBusListenerResult::AlreadyStarted,
                    Some(l) => {
                        l.scope = Some(m.scope);
                        StartBusListenerResult::Ok
                    }
                };
                self.reply(
                    id,
                    StartBusListenerReply {
                        serial: m.serial,
                        result,
                    },
                )?;
                if result == StartBusListenerResult::Ok && m.scope != BusListenerScope::New {
                    let filters = self.lis[&m.cookie.0.as_u128()].filters.clone();
                    let mut evs = Vec::new();
                    for &o in self.objs.keys() {
                        evs.push((BusEvent::ObjectCreated(self.oid(o)), o, 0));
                    }
                    for (&s, svc) in &self.svcs {
                        let id = ServiceId::new(
                            self.oid(svc.obj),
                            ServiceUuid(Uuid::from_u128(svc.uuid)),
                            sc(s),
                        );
                        evs.push((BusEvent::ServiceCreated(id), svc.obj, 1));
                    }
                    for (event, obj, rank) in evs {
                        if filters.iter().any(|f| matches_event(f, event)) {
                            self.hit("current_event");
                            let mut e = exp(EmitBusEvent {
                                cookie: Some(m.cookie),
                                event,
                            });
                            e.ord = Some((obj, rank));
                            self.send(id, e)?;
                        }
                    }
                    let mut e = exp(BusListenerCurrentFinished { cookie: m.cookie });
                    e.last = true;
                    self.send(id, e)?;
                }
                Ok(())
            }

            Message::StopBusListener(m) => {
                let result = match self.own_lis(id, m.cookie) {
                    None => StopBusListenerResult::InvalidBusListener,
                    Some(l) => match l.scope.take() {
                        Some(_) => StopBusListenerResult::Ok,
                        None => StopBusListenerResult::NotStarted,
                    },
                };
                self.reply(
                    id,
                    StopBusListenerReply {
                        serial: m.serial,
                        result,
                    },
                )
            }

            Message::RegisterIntrospection(m) => {
                let types = m.value.deserialize::<HashSet<TypeId>>().map_err(|_| ())?;
                for t in types {
                    self.intro
                        .entry(t.0.as_u128())
                        .or_default()
                        .regs
                        .insert(id);
                }
                Ok(())
            }

            Message::QueryIntrospection(m) if self.intro_exact => self.intro_query(id, m),

            Message::QueryIntrospection(m) => {
                let key = (id, m.serial);
                let types = self.iq_pending.entry(key).or_default();
                if !types.is_empty() {
                    self.iq_unclear.insert(key);
                }
                types.push(m.type_id.0.as_u128());
                Ok(())
            }

            Message::QueryIntrospectionReply(m) if self.intro_exact => self.intro_answer(id, m),

            Message::QueryIntrospectionReply(m) => {
                let Some(&(to, t)) = self.iq.get(&m.serial) else {
                    return Err(());
                };
                if to != id {
                    return Err(());
                }
                match m.result {
                    QueryIntrospectionResult::Ok(v) => {
                        if malformed(&v) {
                            return Err(());
                        }
                        self.iq_answers.entry(t).or_default().push(v);
                    }
                    QueryIntrospectionResult::Unavailable => {
                        // Whether one who was wrong about its own type gets an answer is open.
                        for (k, types) in &mut self.iq_pending {
                            if k.0 == id && types.contains(&t) {
                                types.retain(|o| *o != t);
                                self.iq_denied.insert(*k);
                            }
                        }
                        if let Some(e) = self.intro.get_mut(&t) {
                            e.regs.remove(&id);
                            if e.regs.is_empty() {
                                self.intro.remove(&t);
                            }
                        }
                    }
                }
                self.iq.remove(&m.serial);
                Ok(())
            }

            _ => {
                self.hit("wrong_direction");
                Err(())
            }
        }
    }

    fn own_lis(&mut self, id: Cid, c: BusListenerCookie) -> Option<&mut MLis> {
        self.lis
            .get_mut(&c.0.as_u128())
            .filter(|l| l.owner == id)
    }

    fn create_service(
        &mut self,
        id: Cid,
        serial: u32,
        obj: u128,
        uuid: u128,
        info: Result<ServiceInfo, ()>,
    ) -> Res {
        let result = match self.objs.get(&obj) {
            None => CreateServiceResult::InvalidObject,
            Some(_) if self.svcs.values().any(|s| s.obj == obj && s.uuid == uuid) => {
                CreateServiceResult::DuplicateService
            }
            Some(o) if o.owner != id => CreateServiceResult::ForeignObject,
            Some(_) => {
                let info = info?;
                let c = self.sym();
                self.reply(
                    id,
                    CreateServiceReply {
                        serial,
                        result: CreateServiceResult::Ok(sc(c)),
                    },
                )?;
                let ou = self.objs[&obj].uuid;
                self.svcs.insert(
                    c,
                    MSvc {
                        obj,
                        uuid,
                        info,
                        events: BTreeMap::new(),
                        all: BTreeSet::new(),
                        subs: BTreeSet::new(),
                    },
                );
                self.def.svc_created.push((ou, obj, uuid, c));
                return Ok(());
            }
        };
        self.hit("create_service_refused");
        self.reply(id, CreateServiceReply { serial, result })
    }

    fn call(
        &mut self,
        id: Cid,
        serial: u32,
        service_cookie: ServiceCookie,
        function: u32,
        version: Option<u32>,
        value: SerializedValue,
    ) -> Res {
        let c = service_cookie.0.as_u128();
        if !self.svcs.contains_key(&c) {
            self.hit("call_invalid_service");
            return self.reply(
                id,
                CallFunctionReply {
                    serial,
                    result: CallFunctionResult::InvalidService,
                },
            );
        }
        if self
            .calls
            .values()
            .any(|k| k.caller == id && k.caller_serial == serial && !k.aborted)
        {
            self.hit("call_duplicate_serial");
            return Err(());
        }
        let owner = self.owner_of_svc(c);
        let from = self.ver(id);
        if from >= 20 && self.ver(owner) < 20 && malformed(&value) {
            return Err(());
        }
        self.hit("call_forwarded");
        let key = self.sym();
        self.calls.insert(
            key,
            MCall {
                caller: id,
                caller_serial: serial,
                svc: c,
                aborted: false,
            },
        );
        let mut e = if self.ver(owner) >= 19 {
            exp(CallFunction2 {
                serial: 0,
                service_cookie,
                function,
                version,
                value: value.clone(),
            })
        } else {
            exp(CallFunction {
                serial: 0,
                service_cookie,
                function,
                value: value.clone(),
            })
        };
        e.parts.ids[0].1 = key;
        e.rule = Rule::Same { value, from };
        self.notify(owner, e);
        Ok(())
    }

    pub fn stat_numbers(&self) -> Numbers {
        Numbers(BTreeMap::from([
            ("connections", self.conns.len()),
            ("objects", self.objs.len()),
            ("services", self.svcs.len()),
            ("channels", self.chans.len()),
            ("bus_listeners", self.lis.len()),
        ]))
    }

    pub fn snap_numbers(&self) -> Numbers {
        let ends = |s: bool| {
            self.chans
                .values()
                .filter(|c| matches!(if s { c.s } else { c.r }, End::Claimed(..)))
                .count()
        };
        let ev: usize = self
            .svcs
            .values()
            .flat_map(|s| s.events.values())
            .map(BTreeSet::len)
            .sum();
        let all: usize = self.svcs.values().map(|s| s.all.len()).sum();
        let subs: usize = self.svcs.values().map(|s| s.subs.len()).sum();
        Numbers(BTreeMap::from([
            ("conns", self.conns.len()),
            ("obj_uuids", self.objs.len()),
            ("objs", self.objs.len()),
            ("svc_uuids", self.svcs.len()),
            ("svcs", self.svcs.len()),
            ("function_calls", self.calls.len()),
            ("channels", self.chans.len()),
            ("bus_listeners", self.lis.len()),
            ("svc.function_calls", self.calls.len()),
            ("svc.events", ev),
            ("svc.all_events", all),
            ("svc.subscriptions", subs),
            ("conn.objects", self.objs.len()),
            ("conn.events", ev),
            ("conn.subscriptions", subs),
            ("conn.senders", ends(true)),
            ("conn.receivers", ends(false)),
            ("conn.bus_listeners", self.lis.len()),
            (
                "conn.calls",
                self.calls.values().filter(|c| !c.aborted).count(),
            ),
        ]))
    }

    /// Cheap fingerprint of the bus state, for counting distinct states.
    pub fn fingerprint(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = Fnv(0xcbf2_9ce4_8422_2325);
        self.conns.len().hash(&mut h);
        for o in self.objs.values() {
            (o.uuid, o.owner).hash(&mut h);
        }
        for s in self.svcs.values() {
            (s.uuid, s.events.len(), s.all.len(), s.subs.len()).hash(&mut h);
            for e in &s.events {
                e.hash(&mut h);
            }
        }
        for c in self.calls.values() {
            (c.caller, c.aborted).hash(&mut h);
        }
        for c in self.chans.values() {
            for e in [c.s, c.r] {
                match e {
                    End::Unclaimed => 0u32.hash(&mut h),
                    End::Claimed(o, cap) => (1u32, o, cap.min(16)).hash(&mut h),
                    End::Closed => 2u32.hash(&mut h),
                }
            }
        }
        for l in self.lis.values() {
            (l.owner, l.filters.len(), l.scope.map(|s| s as u8)).hash(&mut h);
        }
        h.finish()
    }
}

pub struct Fnv(pub u64);

impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x0100_0000_01b3);
        }
    }
}

fn sid(ou: u128, o: u128, su: u128, s: u128) -> ServiceId {
    ServiceId::new(
        ObjectId::new(ObjectUuid(Uuid::from_u128(ou)), oc(o)),
        ServiceUuid(Uuid::from_u128(su)),
        sc(s),
    )
}

/// The filter semantics, spelled out independently of aldrin-core's own predicate.
pub fn matches_event(f: &BusListenerFilter, ev: BusEvent) -> bool {
    match (f, ev) {
        (
            BusListenerFilter::Object(want),
            BusEvent::ObjectCreated(id) | BusEvent::ObjectDestroyed(id),
        ) => want.is_none() || *want == Some(id.uuid),
        (
            BusListenerFilter::Service(want),
            BusEvent::ServiceCreated(id) | BusEvent::ServiceDestroyed(id),
        ) => {
            (want.object.is_none() || want.object == Some(id.object_id.uuid))
                && (want.service.is_none() || want.service == Some(id.uuid))
        }
        _ => false,
    }
}

/// Minimum minor version a message kind may be used with.
pub fn min_version(kind: MessageKind) -> u32 {
    match kind {
        MessageKind::AbortFunctionCall => 16,
        MessageKind::RegisterIntrospection
        | MessageKind::QueryIntrospection
        | MessageKind::QueryIntrospectionReply
        | MessageKind::CreateService2
        | MessageKind::QueryServiceInfo
        | MessageKind::QueryServiceInfoReply => 17,
        MessageKind::SubscribeService
        | MessageKind::SubscribeServiceReply
        | MessageKind::UnsubscribeService
        | MessageKind::SubscribeAllEvents
        | MessageKind::SubscribeAllEventsReply
        | MessageKind::UnsubscribeAllEvents
        | MessageKind::UnsubscribeAllEventsReply => 18,
        MessageKind::CallFunction2 => 19,
        _ => 14,
    }
}
