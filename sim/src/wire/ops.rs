//! Workload of the wire-level harness: scripted protocol peers.

use super::{Link, Phase, Profile, Sim, WIRE_PROPS};
use crate::choice::Choices;
use crate::val;
use aldrin_core::message::*;
use aldrin_core::{
    BusEvent, BusListenerCookie, BusListenerFilter, BusListenerScope, ChannelCookie, ChannelEnd,
    ChannelEndWithCapacity, ObjectCookie, ObjectId, ObjectUuid, SerializedValue, ServiceCookie,
    ServiceId, ServiceInfo, ServiceUuid, TypeId,
};
use std::cell::Cell;
use std::collections::HashSet;
use uuid::Uuid;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Family {
    Obj,
    Svc,
    Query,
    Call,
    Reply,
    Abort,
    Sub,
    Emit,
    Chan,
    Item,
    Bus,
    Sync,
    Intro,
    Conn,
    End,
    Viol,
    Hostile,
    Stats,
    Tune,
}

pub const FAMILIES: usize = 19;

pub const ALL: [Family; FAMILIES] = [
    Family::Obj,
    Family::Svc,
    Family::Query,
    Family::Call,
    Family::Reply,
    Family::Abort,
    Family::Sub,
    Family::Emit,
    Family::Chan,
    Family::Item,
    Family::Bus,
    Family::Sync,
    Family::Intro,
    Family::Conn,
    Family::End,
    Family::Viol,
    Family::Hostile,
    Family::Stats,
    Family::Tune,
];

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Versions {
    /// Mostly 1.20, sometimes older.
    Mostly,
    /// Uniform over 1.14..=1.20.
    All,
}

const MAX_LINKS: usize = 48;
const UUID_BASE: u128 = 0xaaaa_0000_0000_0000_0000_0000_0000_0000;

pub struct Driver {
    p: Profile,
    weights: [u32; FAMILIES],
    n_obj: u32,
    n_svc: u32,
    n_ev: u32,
    /// First identifier of events and functions, and the distance between two of them.
    ids: (u32, u32),
    /// The run is about numbers: many identifiers, and bursts of the same kind of operation.
    wide: bool,
    v2_mix: bool,
    never: u32,
    ended: bool,
    /// The connection that acts next.
    only: Option<Cid>,
    /// How many connections are to behave, while others don't, and which ones do.
    civil: usize,
    civils: HashSet<Cid>,
    garbled: Cell<bool>,
}

type Cid = usize;

fn u(base: u128) -> Uuid {
    Uuid::from_u128(base)
}

impl Driver {
    pub fn new(p: &Profile, c: &mut Choices) -> Self {
        let mut weights = p.weights;
        // Swarm testing: some runs do without some kinds of operations.
        if c.chance(1, 3) {
            for (i, w) in weights.iter_mut().enumerate() {
                if *w < 10 && c.chance(1, 3) && ALL[i] != Family::Conn {
                    *w = 0;
                }
            }
        }
        let wide = c.chance(1, 20);
        let w = |a: u32, b: u32| if wide { b } else { a };
        Self {
            p: p.clone(),
            weights,
            n_obj: 1 + c.below(w(4, 40)),
            n_svc: 1 + c.below(w(3, 20)),
            n_ev: 1 + c.below(w(3, 80)),
            ids: *c.pick(&[(0, 1), (0, 1), (0, 256), (3, 1 << 16), (u32::MAX, u32::MAX), (9, 1 << 25)]),
            wide,
            v2_mix: !c.chance(1, 4),
            never: 0,
            ended: false,
            only: None,
            // Where everybody misbehaves, connections don't live long enough to have much.
            civil: if p.garbage && c.chance(2, 3) { 2 + c.below(3) as usize } else { 0 },
            civils: HashSet::new(),
            garbled: Cell::new(false),
        }
    }

    pub fn wide(&self) -> bool {
        self.wide
    }

    // -- identifiers ---------------------------------------------------------------------------

    fn never_cookie(&mut self) -> u128 {
        self.never += 1;
        0xdead_0000_0000_0000_0000_0000_0000_0000 + self.never as u128
    }

    fn from_pool(&mut self, c: &mut Choices, pool: &[u128]) -> u128 {
        let n = pool.len() as u32;
        let mode = c.below(32);
        if n == 0 || mode == 31 {
            c.below(1);
            return self.never_cookie();
        }
        if mode < 20 {
            pool[(n - 1 - c.below(n.min(3))) as usize]
        } else {
            pool[c.below(n) as usize]
        }
    }

    fn obj(&mut self, sim: &Sim, c: &mut Choices, owner: Option<Cid>) -> u128 {
        let pool: Vec<u128> = {
            let w = sim.w.borrow();
            w.pools
                .objs
                .iter()
                .filter(|o| owner.is_none_or(|i| o.2 == i))
                .map(|o| o.0)
                .collect()
        };
        self.from_pool(c, &pool)
    }

    fn svc(&mut self, sim: &Sim, c: &mut Choices, owner: Option<Cid>) -> ServiceCookie {
        let pool: Vec<u128> = {
            let w = sim.w.borrow();
            w.pools
                .svcs
                .iter()
                .filter(|o| owner.is_none_or(|i| o.1 == i))
                .map(|o| o.0)
                .collect()
        };
        ServiceCookie(u(self.from_pool(c, &pool)))
    }

    fn chan(&mut self, sim: &Sim, c: &mut Choices) -> ChannelCookie {
        let pool: Vec<u128> = sim.w.borrow().pools.chans.iter().map(|o| o.0).collect();
        ChannelCookie(u(self.from_pool(c, &pool)))
    }

    fn lis(&mut self, sim: &Sim, c: &mut Choices, owner: Option<Cid>) -> BusListenerCookie {
        let pool: Vec<u128> = {
            let w = sim.w.borrow();
            w.pools
                .lis
                .iter()
                .filter(|o| owner.is_none_or(|i| o.1 == i))
                .map(|o| o.0)
                .collect()
        };
        BusListenerCookie(u(self.from_pool(c, &pool)))
    }

    fn obj_uuid(&self, c: &mut Choices) -> ObjectUuid {
        ObjectUuid(u(UUID_BASE + c.below(self.n_obj) as u128))
    }

    fn svc_uuid(&self, c: &mut Choices) -> ServiceUuid {
        ServiceUuid(u(UUID_BASE + 100 + c.below(self.n_svc) as u128))
    }

    /// A type for `id` to be interested in. Where it matters who knows it, that is not `id`: it
    /// is open whether one who denies knowing its own type gets an answer to its query.
    fn type_id(&self, sim: &Sim, c: &mut Choices, id: Cid) -> TypeId {
        let w = sim.w.borrow();
        if w.model.intro_exact {
            let known: Vec<u128> = w
                .model
                .intro
                .iter()
                .filter(|(_, e)| !e.regs.contains(&id))
                .map(|(&t, _)| t)
                .collect();
            if !known.is_empty() && c.below(5) != 0 {
                // Mostly the latest ones.
                let n = known.len() as u32;
                return TypeId(u(known[(n - 1 - c.below(n.min(4))) as usize]));
            }
            let n = w.links.len() + 1;
            let of = (id + 1 + c.below(n as u32 - 1) as usize) % n;
            self.own_type(c, of)
        } else {
            TypeId(u(UUID_BASE + 200 + c.below(2) as u128))
        }
    }

    /// A type that only `id` may claim to know.
    fn own_type(&self, c: &mut Choices, id: Cid) -> TypeId {
        TypeId(u(UUID_BASE + 300 + 2 * id as u128 + c.below(2) as u128))
    }

    /// Types for `id` to register.
    fn types_of(&self, sim: &Sim, c: &mut Choices, id: Cid) -> SerializedValue {
        let exact = sim.w.borrow().model.intro_exact;
        let n = c.below(3);
        let set: HashSet<TypeId> = (0..n)
            .map(|_| {
                if exact {
                    self.own_type(c, id)
                } else {
                    self.type_id(sim, c, id)
                }
            })
            .collect();
        SerializedValue::serialize(set).unwrap()
    }

    /// An event or function.
    fn ident(&self, c: &mut Choices, n: u32) -> u32 {
        let i = c.below(n);
        self.ids.0.wrapping_add(i.wrapping_mul(self.ids.1))
    }

    fn capacity(&self, c: &mut Choices) -> u32 {
        if self.wide && c.chance(1, 3) {
            return *c.pick(&[32, 33, 64, 100, 255, 256, 257, 300, 65_535, 65_536, 1 << 31]);
        }
        *c.pick(&[1, 0, 2, 3, 4, 5, 6, 8, 16, u32::MAX - 1, u32::MAX])
    }

    /// A connection whose peer can still send.
    fn conn(&self, sim: &Sim, c: &mut Choices) -> Option<Cid> {
        if self.only.is_some() {
            return self.only;
        }
        let w = sim.w.borrow();
        let alive: Vec<Cid> = (0..w.links.len())
            .filter(|&i| {
                let l = &w.links[i];
                !l.dropped && !l.sent_shutdown && l.phase != Phase::Over
            })
            .collect();
        drop(w);
        if !self.civils.is_empty() && c.below(3) != 2 {
            let civil: Vec<Cid> = alive.iter().copied().filter(|i| self.civils.contains(i)).collect();
            if !civil.is_empty() {
                return Some(*c.pick(&civil));
            }
        }
        let n = alive.len() as u32;
        (n > 0).then(|| alive[c.below(n) as usize])
    }

    fn serial(&self, sim: &Sim, c: &mut Choices, id: Cid) -> u32 {
        let mut w = sim.w.borrow_mut();
        let l = &mut w.links[id];
        if c.chance(1, 16) {
            *c.pick(&[0, u32::MAX, 1, 255])
        } else {
            l.next_serial += 1;
            l.next_serial
        }
    }

    fn value(&self, c: &mut Choices, ver: u32) -> SerializedValue {
        if self.p.garbage && c.chance(1, if self.civil > 0 { 16 } else { 8 }) {
            self.garbled.set(true);
            return garbage(c);
        }
        let depth = c.below(4);
        val::gen_value(c, ver >= 20 && self.v2_mix, depth)
    }

    // -- connections ---------------------------------------------------------------------------

    pub fn new_conn(&mut self, sim: &mut Sim, c: &mut Choices) {
        let n = sim.w.borrow().links.len();
        let civil = {
            let w = sim.w.borrow();
            let alive = self.civils.iter().filter(|&&i| w.links[i].phase != Phase::Over).count();
            alive < self.civil
        };
        let odd = self.p.weights[Family::Conn as usize] > 6 && n > 0 && !civil;
        let mut link = Link::new();
        let mut first: Option<Message> = None;
        let kind = if odd { c.below(16) } else { c.below(8) };
        let ver = match self.p.versions {
            Versions::All => 20 - c.below(7),
            Versions::Mostly => {
                if c.chance(1, 4) {
                    20 - c.below(7)
                } else {
                    20
                }
            }
        };
        let user = if c.chance(1, 4) {
            Some(val::gen_value(c, true, 2))
        } else {
            None
        };
        if c.chance(1, 4) {
            link.reply_data = Some(val::gen_value(c, true, 2));
        }
        link.reject = odd && c.chance(1, 8);
        link.ver = ver;
        match kind {
            0..=6 | 8..=10 => {
                if ver == 14 && c.chance(1, 2) {
                    let value = user.unwrap_or_else(|| val::raw_value(&[0]));
                    link.any_data = false;
                    link.client_data = Some(value.clone());
                    first = Some(Connect { version: 14, value }.into());
                } else {
                    let minor = if ver == 20 && odd {
                        *c.pick(&[20, 21, 99, u32::MAX])
                    } else {
                        ver
                    };
                    link.any_data = false;
                    link.client_data = user.clone();
                    let data = ConnectData { user };
                    let mut value = SerializedValue::serialize(&data).unwrap();
                    if ver < 20 && c.chance(1, 2) {
                        // Old clients only know the old encoding.
                        if let Ok(d) = val::decode(&value) {
                            let mut out = Vec::new();
                            val::encode(&d.value, &mut || false, &mut out);
                            value = val::raw_value(&out);
                        }
                    }
                    first = Some(
                        Connect2 {
                            major_version: 1,
                            minor_version: minor,
                            value,
                        }
                        .into(),
                    );
                }
            }
            7 => {
                let value = user.unwrap_or_else(|| val::raw_value(&[0]));
                link.any_data = false;
                link.client_data = Some(value.clone());
                link.ver = 14;
                first = Some(Connect { version: 14, value }.into());
            }
            11 => {
                let version = *c.pick(&[0, 13, 15, 20, u32::MAX]);
                let value = user.unwrap_or_else(|| val::raw_value(&[0]));
                link.any_data = false;
                link.client_data = Some(value.clone());
                first = Some(Connect { version, value }.into());
            }
            12 => {
                let (major, minor) = *c.pick(&[
                    (1, 13),
                    (1, 0),
                    (0, 14),
                    (0, 20),
                    (2, 20),
                    (2, 14),
                    (u32::MAX, 20),
                    (14, 1),
                    (1, 12),
                ]);
                link.any_data = false;
                link.client_data = user.clone();
                let value = SerializedValue::serialize(&ConnectData { user }).unwrap();
                first = Some(
                    Connect2 {
                        major_version: major,
                        minor_version: minor,
                        value,
                    }
                    .into(),
                );
            }
            13 => {
                first = Some(
                    Connect2 {
                        major_version: 1,
                        minor_version: ver,
                        value: garbage(c),
                    }
                    .into(),
                );
            }
            14 => {
                let k = c.below(63);
                first = Some(self.any_kind(sim, c, None, k));
            }
            _ => {}
        }
        let Some(id) = sim.connect(link) else {
            return;
        };
        if civil {
            self.civils.insert(id);
        }
        if let Some(m) = first {
            sim.send(id, m);
        }
        if c.chance(1, 4) {
            self.tune(sim, c, id);
        }
        if odd && c.chance(1, 6) {
            let n = c.below(5);
            sim.inject_fault(id, n, dirs(c));
        }
    }

    fn tune(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid) {
        let k = c.below(4);
        let cap = 1 + c.below(3) as usize;
        let mut w = sim.w.borrow_mut();
        match k {
            0 => w.links[id].cap = Some(cap),
            1 => {
                w.links[id].lag = true;
            }
            2 => {
                w.links[id].stalled = !w.links[id].stalled;
                w.hit("fault_peer_stalled");
            }
            _ => {
                w.links[id].stalled = false;
                w.links[id].cap = None;
            }
        }
        drop(w);
        sim.kick(id);
    }

    // -- operations ----------------------------------------------------------------------------

    pub fn op(&mut self, sim: &mut Sim, c: &mut Choices) {
        let fam = ALL[c.weighted(&self.weights)];
        if self.wide && c.chance(1, 12) && !matches!(fam, Family::Conn | Family::End | Family::Viol)
        {
            let n = if c.chance(1, 8) { 300 } else { 40 };
            for _ in 0..1 + c.below(n) {
                self.one(sim, c, fam);
            }
        } else {
            self.one(sim, c, fam);
        }
    }

    fn one(&mut self, sim: &mut Sim, c: &mut Choices, fam: Family) {
        if c.chance(1, 8) {
            sim.end_limbo();
        }
        if fam == Family::Conn {
            if sim.w.borrow().links.len() < MAX_LINKS {
                self.new_conn(sim, c);
            }
            return;
        }
        if fam == Family::Stats {
            if c.below(2) == 0 {
                sim.req_stats();
            } else {
                sim.req_snapshot();
            }
            return;
        }
        let Some(id) = self.conn(sim, c) else {
            if sim.w.borrow().links.len() < MAX_LINKS && !self.ended {
                self.new_conn(sim, c);
            }
            return;
        };
        let ver = sim.w.borrow().links[id].ver;
        let mut fam = fam;
        if self.civils.contains(&id) && matches!(fam, Family::End | Family::Viol | Family::Hostile) {
            const REGULAR: [Family; 9] = [
                Family::Obj,
                Family::Svc,
                Family::Call,
                Family::Reply,
                Family::Sub,
                Family::Emit,
                Family::Chan,
                Family::Item,
                Family::Bus,
            ];
            fam = *c.pick(&REGULAR);
        }
        if self.civils.contains(&id) && !c.chance(1, 8) && self.first_needed(sim, c, id, fam) {
            return;
        }
        match fam {
            Family::Obj => self.op_obj(sim, c, id),
            Family::Svc => self.op_svc(sim, c, id, ver),
            Family::Query => self.op_query(sim, c, id, ver),
            Family::Call => self.op_call(sim, c, id, ver),
            Family::Reply => self.op_reply(sim, c),
            Family::Abort => self.op_abort(sim, c, id, ver),
            Family::Sub => self.op_sub(sim, c, id, ver),
            Family::Emit => self.op_emit(sim, c, id, ver),
            Family::Chan => self.op_chan(sim, c, id),
            Family::Item => self.op_item(sim, c, id, ver),
            Family::Bus => self.op_bus(sim, c, id),
            Family::Sync => {
                let serial = self.serial(sim, c, id);
                sim.send(id, Sync { serial }.into());
            }
            Family::Intro => self.op_intro(sim, c, id, ver),
            Family::End => self.op_end(sim, c, id),
            Family::Viol => self.op_viol(sim, c, id, ver),
            Family::Hostile => self.op_hostile(sim, c, id),
            Family::Tune => self.tune(sim, c, id),
            Family::Conn | Family::Stats => unreachable!(),
        }
        if self.garbled.take() {
            let mut w = sim.w.borrow_mut();
            w.hostile = true;
            w.hit("op_garbage_value");
        }
    }

    /// Creates what an operation of a kind cannot do without, if there is none yet.
    fn first_needed(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid, fam: Family) -> bool {
        let (obj, svc, any_svc, chan, lis) = {
            let w = sim.w.borrow();
            let p = &w.pools;
            (
                p.objs.iter().any(|o| o.2 == id),
                p.svcs.iter().any(|s| s.1 == id),
                !p.svcs.is_empty(),
                !p.chans.is_empty(),
                p.lis.iter().any(|l| l.1 == id),
            )
        };
        let missing = match fam {
            Family::Svc => !obj,
            Family::Emit => !svc,
            Family::Call | Family::Sub => !any_svc,
            Family::Chan | Family::Item => !chan,
            Family::Bus => !lis,
            _ => false,
        };
        if !missing {
            return false;
        }
        let serial = self.serial(sim, c, id);
        let m: Message = match fam {
            Family::Chan | Family::Item => {
                let end = self.any_end_cap(c);
                CreateChannel { serial, end }.into()
            }
            Family::Bus => CreateBusListener { serial }.into(),
            _ if obj => {
                let object_cookie = ObjectCookie(u(self.obj(sim, c, Some(id))));
                let uuid = self.svc_uuid(c);
                let version = c.below(4);
                CreateService { serial, object_cookie, uuid, version }.into()
            }
            _ => {
                let mut uuid = self.obj_uuid(c);
                if c.below(3) != 0 {
                    // One that nobody else has.
                    uuid = ObjectUuid(u(UUID_BASE + 0x1000 + id as u128));
                }
                CreateObject { serial, uuid }.into()
            }
        };
        sim.send(id, m);
        true
    }

    fn op_obj(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid) {
        if c.below(5) < 3 {
            let uuid = self.obj_uuid(c);
            let serial = self.serial(sim, c, id);
            sim.send(id, CreateObject { serial, uuid }.into());
        } else {
            let own = !c.chance(1, 4);
            let cookie = ObjectCookie(u(self.obj(sim, c, own.then_some(id))));
            let serial = self.serial(sim, c, id);
            sim.send(id, DestroyObject { serial, cookie }.into());
        }
    }

    fn op_svc(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid, ver: u32) {
        if c.below(5) < 3 {
            let own = !c.chance(1, 5);
            let object_cookie = ObjectCookie(u(self.obj(sim, c, own.then_some(id))));
            let uuid = self.svc_uuid(c);
            let serial = self.serial(sim, c, id);
            let version = c.below(4);
            if ver >= 17 && c.below(4) != 0 {
                let mut info = ServiceInfo::new(version);
                if c.below(4) != 3 {
                    info = info.set_subscribe_all(c.below(4) != 3);
                }
                if c.below(3) == 0 {
                    info = info.set_type_id(self.type_id(sim, c, id));
                }
                let value = SerializedValue::serialize(info).unwrap();
                sim.send(
                    id,
                    CreateService2 {
                        serial,
                        object_cookie,
                        uuid,
                        value,
                    }
                    .into(),
                );
            } else {
                sim.send(
                    id,
                    CreateService {
                        serial,
                        object_cookie,
                        uuid,
                        version,
                    }
                    .into(),
                );
            }
        } else {
            let own = !c.chance(1, 4);
            let cookie = self.svc(sim, c, own.then_some(id));
            let serial = self.serial(sim, c, id);
            sim.send(id, DestroyService { serial, cookie }.into());
        }
    }

    fn op_query(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid, ver: u32) {
        let cookie = self.svc(sim, c, None);
        let serial = self.serial(sim, c, id);
        if ver >= 17 && c.below(2) == 1 {
            sim.send(id, QueryServiceInfo { serial, cookie }.into());
        } else {
            sim.send(id, QueryServiceVersion { serial, cookie }.into());
        }
    }

    fn op_call(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid, ver: u32) {
        let service_cookie = self.svc(sim, c, None);
        let serial = {
            let done: Vec<u32> = {
                let w = sim.w.borrow();
                let l = &w.links[id];
                l.calls_done
                    .iter()
                    .copied()
                    .filter(|s| !l.calls_open.contains(s))
                    .collect()
            };
            if !done.is_empty() && c.chance(1, 3) {
                done[done.len() - 1 - c.below(done.len().min(4) as u32) as usize]
            } else {
                let mut s = self.serial(sim, c, id);
                while sim.w.borrow().links[id].calls_open.contains(&s) {
                    let mut w = sim.w.borrow_mut();
                    w.links[id].next_serial += 1;
                    s = w.links[id].next_serial;
                }
                s
            }
        };
        let function = self.ident(c, 4);
        let value = self.value(c, ver);
        sim.w.borrow_mut().links[id].calls_open.push(serial);
        if ver >= 19 && c.below(3) != 2 {
            let version = if c.below(2) == 0 { None } else { Some(c.below(5)) };
            sim.send(
                id,
                CallFunction2 {
                    serial,
                    service_cookie,
                    function,
                    version,
                    value,
                }
                .into(),
            );
        } else {
            sim.send(
                id,
                CallFunction {
                    serial,
                    service_cookie,
                    function,
                    value,
                }
                .into(),
            );
        }
    }

    fn result(&mut self, c: &mut Choices, ver: u32) -> CallFunctionResult {
        match c.below(8) {
            0..=3 => CallFunctionResult::Ok(self.value(c, ver)),
            4 => CallFunctionResult::Err(self.value(c, ver)),
            5 => CallFunctionResult::InvalidFunction,
            6 => CallFunctionResult::InvalidArgs,
            _ => {
                if c.below(2) == 0 {
                    CallFunctionResult::Aborted
                } else {
                    CallFunctionResult::InvalidService
                }
            }
        }
    }

    fn op_reply(&mut self, sim: &mut Sim, c: &mut Choices) {
        let n = sim.w.borrow().pools.callee.len() as u32;
        if n == 0 {
            return;
        }
        let back = if c.below(4) < 3 {
            c.below(n.min(4))
        } else {
            c.below(n)
        };
        let idx = (n - 1 - back) as usize;
        let (serial, owner) = sim.w.borrow().pools.callee[idx];
        let from = if c.chance(1, 10) {
            match self.conn(sim, c) {
                Some(i) => i,
                None => return,
            }
        } else {
            owner
        };
        if from == owner && !c.chance(1, 6) {
            sim.w.borrow_mut().pools.callee.remove(idx);
        }
        if sim.w.borrow().links[from].sent_shutdown {
            return;
        }
        let ver = sim.w.borrow().links[from].ver;
        let result = self.result(c, ver);
        sim.send(from, CallFunctionReply { serial, result }.into());
    }

    fn op_abort(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid, ver: u32) {
        if ver < 16 {
            return;
        }
        let open = sim.w.borrow().links[id].calls_open.clone();
        let serial = if !open.is_empty() && !c.chance(1, 12) {
            open[open.len() - 1 - c.below(open.len().min(5) as u32) as usize]
        } else {
            c.below(20)
        };
        sim.send(id, AbortFunctionCall { serial }.into());
    }

    fn op_sub(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid, ver: u32) {
        let service_cookie = self.svc(sim, c, None);
        let event = self.ident(c, self.n_ev);
        let k = if ver >= 18 { c.below(14) } else { c.below(6) };
        let m: Message = match k {
            0..=3 => SubscribeEvent {
                serial: Some(self.serial(sim, c, id)),
                service_cookie,
                event,
            }
            .into(),
            4 | 5 => UnsubscribeEvent {
                service_cookie,
                event,
            }
            .into(),
            6..=8 => SubscribeAllEvents {
                serial: Some(self.serial(sim, c, id)),
                service_cookie,
            }
            .into(),
            9 | 10 => {
                let serial = if c.below(4) == 3 {
                    None
                } else {
                    Some(self.serial(sim, c, id))
                };
                UnsubscribeAllEvents {
                    serial,
                    service_cookie,
                }
                .into()
            }
            11 | 12 => SubscribeService {
                serial: self.serial(sim, c, id),
                service_cookie,
            }
            .into(),
            _ => UnsubscribeService { service_cookie }.into(),
        };
        sim.send(id, m);
    }

    fn op_emit(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid, ver: u32) {
        let (service_cookie, id, ver) = if c.chance(1, 8) {
            (self.svc(sim, c, None), id, ver)
        } else {
            // Let some owner emit.
            let pool: Vec<(u128, Cid)> = {
                let w = sim.w.borrow();
                w.pools
                    .svcs
                    .iter()
                    .copied()
                    .filter(|s| !w.links[s.1].dropped && !w.links[s.1].sent_shutdown)
                    .collect()
            };
            let n = pool.len() as u32;
            if n == 0 {
                return;
            }
            let (s, o) = pool[(n - 1 - c.below(n.min(4))) as usize];
            let v = sim.w.borrow().links[o].ver;
            (ServiceCookie(u(s)), o, v)
        };
        let event = self.ident(c, self.n_ev);
        let value = self.value(c, ver);
        sim.send(
            id,
            EmitEvent {
                service_cookie,
                event,
                value,
            }
            .into(),
        );
    }

    fn op_chan(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid) {
        let serial = self.serial(sim, c, id);
        let end = |c: &mut Choices, d: &Self| {
            if c.below(2) == 0 {
                ChannelEndWithCapacity::Sender
            } else {
                ChannelEndWithCapacity::Receiver(d.capacity(c))
            }
        };
        match c.below(10) {
            0..=2 => {
                let end = end(c, self);
                sim.send(id, CreateChannel { serial, end }.into());
            }
            3..=7 => {
                let cookie = self.chan(sim, c);
                let end = end(c, self);
                sim.send(
                    id,
                    ClaimChannelEnd {
                        serial,
                        cookie,
                        end,
                    }
                    .into(),
                );
            }
            _ => {
                let cookie = self.chan(sim, c);
                let end = if c.below(2) == 0 {
                    ChannelEnd::Sender
                } else {
                    ChannelEnd::Receiver
                };
                sim.send(
                    id,
                    CloseChannelEnd {
                        serial,
                        cookie,
                        end,
                    }
                    .into(),
                );
            }
        }
    }

    fn op_item(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid, ver: u32) {
        let k = c.below(10);
        let many = 1 + if c.chance(1, 3) { c.below(8) } else { 0 };
        // Usually act on a channel from its right end.
        let est: Vec<(u128, Option<Cid>, Option<Cid>)> = {
            let w = sim.w.borrow();
            w.model
                .chans
                .iter()
                .map(|(&s, ch)| {
                    let o = |e: super::model::End| match e {
                        super::model::End::Claimed(o, _) => Some(o),
                        _ => None,
                    };
                    let real = w
                        .rev
                        .get(&(super::IdKind::Chan, s))
                        .copied()
                        .unwrap_or(0xdead);
                    (real, o(ch.s), o(ch.r))
                })
                .collect()
        };
        let (cookie, s, r) = if est.is_empty() || c.chance(1, 10) {
            (self.chan(sim, c), None, None)
        } else {
            let n = est.len() as u32;
            let e = est[(n - 1 - c.below(n.min(4))) as usize];
            (ChannelCookie(u(e.0)), e.1, e.2)
        };
        let wrong = c.chance(1, 12);
        if k < 7 {
            let from = if wrong { id } else { s.unwrap_or(id) };
            let ver = if from == id {
                ver
            } else {
                sim.w.borrow().links[from].ver
            };
            for _ in 0..many {
                if sim.w.borrow().links[from].sent_shutdown {
                    return;
                }
                let value = self.value(c, ver);
                sim.send(from, SendItem { cookie, value }.into());
            }
        } else {
            let from = if wrong { id } else { r.unwrap_or(id) };
            if sim.w.borrow().links[from].sent_shutdown {
                return;
            }
            let capacity = self.capacity(c);
            sim.send(from, AddChannelCapacity { cookie, capacity }.into());
        }
    }

    fn filter(&self, c: &mut Choices) -> BusListenerFilter {
        match c.below(6) {
            0 => BusListenerFilter::any_object(),
            1 => BusListenerFilter::object(self.obj_uuid(c)),
            2 => BusListenerFilter::any_object_any_service(),
            3 => BusListenerFilter::specific_object_any_service(self.obj_uuid(c)),
            4 => BusListenerFilter::any_object_specific_service(self.svc_uuid(c)),
            _ => BusListenerFilter::specific_object_and_service(self.obj_uuid(c), self.svc_uuid(c)),
        }
    }

    fn op_bus(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid) {
        let k = c.below(20);
        let own = !c.chance(1, 10);
        let cookie = self.lis(sim, c, own.then_some(id));
        let m: Message = match k {
            0 | 1 => CreateBusListener {
                serial: self.serial(sim, c, id),
            }
            .into(),
            2..=8 => AddBusListenerFilter {
                cookie,
                filter: self.filter(c),
            }
            .into(),
            9 | 10 => RemoveBusListenerFilter {
                cookie,
                filter: self.filter(c),
            }
            .into(),
            11 => ClearBusListenerFilters { cookie }.into(),
            12..=15 => StartBusListener {
                serial: self.serial(sim, c, id),
                cookie,
                scope: *c.pick(&[
                    BusListenerScope::All,
                    BusListenerScope::New,
                    BusListenerScope::Current,
                ]),
            }
            .into(),
            16..=18 => StopBusListener {
                serial: self.serial(sim, c, id),
                cookie,
            }
            .into(),
            _ => DestroyBusListener {
                serial: self.serial(sim, c, id),
                cookie,
            }
            .into(),
        };
        sim.send(id, m);
    }

    fn op_intro(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid, ver: u32) {
        match c.below(3) {
            0 if ver >= 17 => {
                let value = self.types_of(sim, c, id);
                sim.send(id, RegisterIntrospection { value }.into());
            }
            1 if ver >= 17 => {
                let serial = self.serial(sim, c, id);
                let type_id = self.type_id(sim, c, id);
                sim.send(id, QueryIntrospection { serial, type_id }.into());
            }
            _ => {
                let n = sim.w.borrow().pools.iq.len() as u32;
                if n == 0 {
                    return;
                }
                let idx = (n - 1 - c.below(n.min(3))) as usize;
                let (serial, target) = sim.w.borrow().pools.iq[idx];
                sim.w.borrow_mut().pools.iq.remove(idx);
                if sim.w.borrow().links[target].sent_shutdown {
                    return;
                }
                let tver = sim.w.borrow().links[target].ver;
                let result = if c.below(3) == 2 {
                    QueryIntrospectionResult::Unavailable
                } else {
                    QueryIntrospectionResult::Ok(self.value(c, tver))
                };
                sim.send(target, QueryIntrospectionReply { serial, result }.into());
            }
        }
    }

    fn op_end(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid) {
        match c.below(24) {
            0..=5 => sim.client_shutdown(id),
            6..=11 => {
                let n = c.below(8);
                sim.inject_fault(id, n, dirs(c))
            }
            12..=16 => {
                if sim.w.borrow().links[id].introspection {
                    let n = c.below(8);
                    sim.inject_fault(id, n, dirs(c));
                    return;
                }
                if c.below(2) == 0 {
                    self.parting(sim, c, id);
                }
                // What a query means for a connection that is gone is up to the broker.
                if sim.failed() || sim.w.borrow().links[id].introspection {
                    return;
                }
                if limbo() && c.below(2) == 0 {
                    sim.kill_unnoticed(id);
                } else {
                    sim.kill_conn(id, true);
                }
            }
            17..=22 => sim.req_shutdown_conn(id),
            _ => {
                if c.chance(1, 6) {
                    self.ended = true;
                    if c.below(2) == 0 {
                        sim.req_shutdown();
                    } else {
                        sim.req_idle();
                    }
                } else {
                    sim.client_shutdown(id);
                }
            }
        }
    }

    /// Messages that reach the broker's queue just before their connection is gone.
    fn parting(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid) {
        self.only = Some(id);
        for _ in 0..1 + c.below(3) {
            let fam = *c.pick(&[
                Family::Abort,
                Family::Call,
                Family::Obj,
                Family::Svc,
                Family::Sub,
                Family::Chan,
                Family::Item,
                Family::Bus,
                Family::Sync,
                Family::Query,
                Family::Intro,
            ]);
            self.one(sim, c, fam);
        }
        self.only = None;
        sim.push_through(id);
    }

    /// Messages a connection must be closed for.
    fn op_viol(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid, ver: u32) {
        sim.w.borrow_mut().hit("op_violation");
        let m: Message = match c.below(4) {
            0 => {
                // Newer than negotiated (or, for 1.20, just legal).
                let kinds: [u32; 13] = [48, 49, 50, 51, 52, 53, 55, 57, 58, 60, 62, 56, 59];
                let gated: Vec<u32> = kinds
                    .iter()
                    .copied()
                    .filter(|&k| {
                        super::model::min_version(MessageKind::try_from(k as u8).unwrap()) > ver
                    })
                    .collect();
                if gated.is_empty() {
                    return;
                }
                let k = *c.pick(&gated);
                self.any_kind(sim, c, Some(id), k)
            }
            1 => {
                let open = sim.w.borrow().links[id].calls_open.clone();
                if open.is_empty() {
                    return;
                }
                let serial = *c.pick(&open);
                CallFunction {
                    serial,
                    service_cookie: self.svc(sim, c, None),
                    function: 0,
                    value: self.value(c, ver),
                }
                .into()
            }
            2 => {
                let service_cookie = self.svc(sim, c, None);
                if c.below(2) == 0 {
                    SubscribeEvent {
                        serial: None,
                        service_cookie,
                        event: c.below(3),
                    }
                    .into()
                } else {
                    SubscribeAllEvents {
                        serial: None,
                        service_cookie,
                    }
                    .into()
                }
            }
            _ => {
                let k = *c.pick(&[
                    0u32, 1, 4, 6, 8, 10, 14, 18, 20, 22, 23, 25, 26, 28, 31, 32, 34, 36, 41, 43, 44,
                    45, 46, 47, 54, 56, 59, 61,
                ]);
                self.any_kind(sim, c, Some(id), k)
            }
        };
        sim.w.borrow_mut().any_end = true;
        sim.send(id, m);
    }

    fn op_hostile(&mut self, sim: &mut Sim, c: &mut Choices, id: Cid) {
        {
            let mut w = sim.w.borrow_mut();
            w.hostile = true;
            w.hit("op_hostile");
        }
        // Never the regular end of a connection.
        let k = match c.below(62) {
            k if k < 2 => k,
            k => k + 1,
        };
        let m = self.any_kind(sim, c, Some(id), k);
        sim.send(id, m);
    }

    fn any_value(&mut self, c: &mut Choices) -> SerializedValue {
        match c.below(4) {
            0 => garbage(c),
            1 => val::gen_value(c, true, 3),
            _ => val::gen_value(c, true, 1),
        }
    }

    /// Serial the peer could plausibly have seen, or a far-off one. Serials of forwarded calls and
    /// queries are guessed only from what was observed.
    fn any_serial(&mut self, sim: &Sim, c: &mut Choices) -> u32 {
        match c.below(4) {
            0 => c.below(8),
            1 => u32::MAX - c.below(3),
            _ => {
                let w = sim.w.borrow();
                let n = w.pools.callee.len() as u32;
                if n == 0 {
                    c.below(4)
                } else {
                    w.pools.callee[c.below(n) as usize].0
                }
            }
        }
    }

    fn any_oid(&mut self, sim: &Sim, c: &mut Choices) -> ObjectId {
        ObjectId::new(self.obj_uuid(c), ObjectCookie(u(self.obj(sim, c, None))))
    }

    fn any_sid(&mut self, sim: &Sim, c: &mut Choices) -> ServiceId {
        let o = self.any_oid(sim, c);
        let su = self.svc_uuid(c);
        let s = self.svc(sim, c, None);
        ServiceId::new(o, su, s)
    }

    fn any_end(&mut self, c: &mut Choices) -> ChannelEnd {
        if c.below(2) == 0 {
            ChannelEnd::Sender
        } else {
            ChannelEnd::Receiver
        }
    }

    fn any_end_cap(&mut self, c: &mut Choices) -> ChannelEndWithCapacity {
        if c.below(2) == 0 {
            ChannelEndWithCapacity::Sender
        } else {
            ChannelEndWithCapacity::Receiver(self.capacity(c))
        }
    }

    fn any_kind(&mut self, sim: &Sim, c: &mut Choices, from: Option<Cid>, kind: u32) -> Message {
        let kind = MessageKind::try_from(kind as u8).expect("kind");
        let own = c.below(2) == 0;
        let who = if own { from } else { None };
        let serial = self.any_serial(sim, c);
        // Replies are only meaningful for serials that were observed, or for ones nobody uses.
        let reply_serial = {
            let w = sim.w.borrow();
            let n = w.pools.callee.len() as u32;
            if n > 0 && c.below(4) != 0 {
                w.pools.callee[c.below(n) as usize].0
            } else {
                u32::MAX - 7
            }
        };
        let iq_serial = {
            let w = sim.w.borrow();
            let n = w.pools.iq.len() as u32;
            if n > 0 && c.below(4) != 0 {
                w.pools.iq[c.below(n) as usize].0
            } else {
                u32::MAX - 7
            }
        };
        match kind {
            MessageKind::Connect => Connect {
                version: *c.pick(&[14, 13, 15, 0, u32::MAX]),
                value: self.any_value(c),
            }
            .into(),
            MessageKind::ConnectReply => match c.below(3) {
                0 => ConnectReply::Ok(self.any_value(c)).into(),
                1 => ConnectReply::IncompatibleVersion(c.below(30)).into(),
                _ => ConnectReply::Rejected(self.any_value(c)).into(),
            },
            MessageKind::Shutdown => Shutdown.into(),
            MessageKind::CreateObject => CreateObject {
                serial,
                uuid: self.obj_uuid(c),
            }
            .into(),
            MessageKind::CreateObjectReply => CreateObjectReply {
                serial,
                result: if c.below(2) == 0 {
                    CreateObjectResult::DuplicateObject
                } else {
                    CreateObjectResult::Ok(ObjectCookie(u(self.obj(sim, c, None))))
                },
            }
            .into(),
            MessageKind::DestroyObject => DestroyObject {
                serial,
                cookie: ObjectCookie(u(self.obj(sim, c, who))),
            }
            .into(),
            MessageKind::DestroyObjectReply => DestroyObjectReply {
                serial,
                result: DestroyObjectResult::Ok,
            }
            .into(),
            MessageKind::CreateService => CreateService {
                serial,
                object_cookie: ObjectCookie(u(self.obj(sim, c, who))),
                uuid: self.svc_uuid(c),
                version: c.u32(),
            }
            .into(),
            MessageKind::CreateServiceReply => CreateServiceReply {
                serial,
                result: match c.below(4) {
                    0 => CreateServiceResult::Ok(self.svc(sim, c, None)),
                    1 => CreateServiceResult::DuplicateService,
                    2 => CreateServiceResult::InvalidObject,
                    _ => CreateServiceResult::ForeignObject,
                },
            }
            .into(),
            MessageKind::DestroyService => DestroyService {
                serial,
                cookie: self.svc(sim, c, who),
            }
            .into(),
            MessageKind::DestroyServiceReply => DestroyServiceReply {
                serial,
                result: DestroyServiceResult::Ok,
            }
            .into(),
            MessageKind::CallFunction => CallFunction {
                serial,
                service_cookie: self.svc(sim, c, who),
                function: c.u32(),
                value: self.any_value(c),
            }
            .into(),
            MessageKind::CallFunctionReply => {
                let result = match c.below(2) {
                    0 => CallFunctionResult::Ok(self.any_value(c)),
                    _ => self.result(c, 20),
                };
                CallFunctionReply {
                    serial: reply_serial,
                    result,
                }
                .into()
            }
            MessageKind::SubscribeEvent => SubscribeEvent {
                serial: (c.below(3) != 2).then_some(serial),
                service_cookie: self.svc(sim, c, who),
                event: self.ident(c, self.n_ev),
            }
            .into(),
            MessageKind::SubscribeEventReply => SubscribeEventReply {
                serial,
                result: SubscribeEventResult::Ok,
            }
            .into(),
            MessageKind::UnsubscribeEvent => UnsubscribeEvent {
                service_cookie: self.svc(sim, c, who),
                event: self.ident(c, self.n_ev),
            }
            .into(),
            MessageKind::EmitEvent => EmitEvent {
                service_cookie: self.svc(sim, c, who),
                event: self.ident(c, self.n_ev),
                value: self.any_value(c),
            }
            .into(),
            MessageKind::QueryServiceVersion => QueryServiceVersion {
                serial,
                cookie: self.svc(sim, c, None),
            }
            .into(),
            MessageKind::QueryServiceVersionReply => QueryServiceVersionReply {
                serial,
                result: QueryServiceVersionResult::Ok(c.below(9)),
            }
            .into(),
            MessageKind::CreateChannel => CreateChannel {
                serial,
                end: self.any_end_cap(c),
            }
            .into(),
            MessageKind::CreateChannelReply => CreateChannelReply {
                serial,
                cookie: self.chan(sim, c),
            }
            .into(),
            MessageKind::CloseChannelEnd => CloseChannelEnd {
                serial,
                cookie: self.chan(sim, c),
                end: self.any_end(c),
            }
            .into(),
            MessageKind::CloseChannelEndReply => CloseChannelEndReply {
                serial,
                result: CloseChannelEndResult::Ok,
            }
            .into(),
            MessageKind::ChannelEndClosed => ChannelEndClosed {
                cookie: self.chan(sim, c),
                end: self.any_end(c),
            }
            .into(),
            MessageKind::ClaimChannelEnd => ClaimChannelEnd {
                serial,
                cookie: self.chan(sim, c),
                end: self.any_end_cap(c),
            }
            .into(),
            MessageKind::ClaimChannelEndReply => ClaimChannelEndReply {
                serial,
                result: ClaimChannelEndResult::SenderClaimed(c.u32()),
            }
            .into(),
            MessageKind::ChannelEndClaimed => ChannelEndClaimed {
                cookie: self.chan(sim, c),
                end: self.any_end_cap(c),
            }
            .into(),
            MessageKind::SendItem => SendItem {
                cookie: self.chan(sim, c),
                value: self.any_value(c),
            }
            .into(),
            MessageKind::ItemReceived => ItemReceived {
                cookie: self.chan(sim, c),
                value: self.any_value(c),
            }
            .into(),
            MessageKind::AddChannelCapacity => AddChannelCapacity {
                cookie: self.chan(sim, c),
                capacity: self.capacity(c),
            }
            .into(),
            MessageKind::Sync => Sync { serial }.into(),
            MessageKind::SyncReply => SyncReply { serial }.into(),
            MessageKind::ServiceDestroyed => ServiceDestroyed {
                service_cookie: self.svc(sim, c, None),
            }
            .into(),
            MessageKind::CreateBusListener => CreateBusListener { serial }.into(),
            MessageKind::CreateBusListenerReply => CreateBusListenerReply {
                serial,
                cookie: self.lis(sim, c, None),
            }
            .into(),
            MessageKind::DestroyBusListener => DestroyBusListener {
                serial,
                cookie: self.lis(sim, c, who),
            }
            .into(),
            MessageKind::DestroyBusListenerReply => DestroyBusListenerReply {
                serial,
                result: DestroyBusListenerResult::Ok,
            }
            .into(),
            MessageKind::AddBusListenerFilter => AddBusListenerFilter {
                cookie: self.lis(sim, c, who),
                filter: self.filter(c),
            }
            .into(),
            MessageKind::RemoveBusListenerFilter => RemoveBusListenerFilter {
                cookie: self.lis(sim, c, who),
                filter: self.filter(c),
            }
            .into(),
            MessageKind::ClearBusListenerFilters => ClearBusListenerFilters {
                cookie: self.lis(sim, c, who),
            }
            .into(),
            MessageKind::StartBusListener => StartBusListener {
                serial,
                cookie: self.lis(sim, c, who),
                scope: *c.pick(&[
                    BusListenerScope::All,
                    BusListenerScope::New,
                    BusListenerScope::Current,
                ]),
            }
            .into(),
            MessageKind::StartBusListenerReply => StartBusListenerReply {
                serial,
                result: StartBusListenerResult::Ok,
            }
            .into(),
            MessageKind::StopBusListener => StopBusListener {
                serial,
                cookie: self.lis(sim, c, who),
            }
            .into(),
            MessageKind::StopBusListenerReply => StopBusListenerReply {
                serial,
                result: StopBusListenerResult::Ok,
            }
            .into(),
            MessageKind::EmitBusEvent => EmitBusEvent {
                cookie: (c.below(2) == 0).then(|| self.lis(sim, c, None)),
                event: match c.below(4) {
                    0 => BusEvent::ObjectCreated(self.any_oid(sim, c)),
                    1 => BusEvent::ObjectDestroyed(self.any_oid(sim, c)),
                    2 => BusEvent::ServiceCreated(self.any_sid(sim, c)),
                    _ => BusEvent::ServiceDestroyed(self.any_sid(sim, c)),
                },
            }
            .into(),
            MessageKind::BusListenerCurrentFinished => BusListenerCurrentFinished {
                cookie: self.lis(sim, c, None),
            }
            .into(),
            MessageKind::Connect2 => Connect2 {
                major_version: 1,
                minor_version: 20 - c.below(8),
                value: self.any_value(c),
            }
            .into(),
            MessageKind::ConnectReply2 => ConnectReply2 {
                result: ConnectResult::Ok(20),
                value: self.any_value(c),
            }
            .into(),
            MessageKind::AbortFunctionCall => AbortFunctionCall { serial }.into(),
            MessageKind::RegisterIntrospection => {
                let any = self.any_value(c);
                let value = match from {
                    // Nothing that could be somebody else's types.
                    None if sim.w.borrow().model.intro_exact => any,
                    Some(id) if c.below(2) != 0 => self.types_of(sim, c, id),
                    _ if any.deserialize::<HashSet<TypeId>>().is_ok() => val::raw_value(&[0]),
                    _ => any,
                };
                RegisterIntrospection { value }.into()
            }
            MessageKind::QueryIntrospection => QueryIntrospection {
                serial,
                type_id: self.type_id(sim, c, from.unwrap_or(0)),
            }
            .into(),
            MessageKind::QueryIntrospectionReply => QueryIntrospectionReply {
                serial: iq_serial,
                result: if c.below(3) == 2 {
                    QueryIntrospectionResult::Unavailable
                } else {
                    QueryIntrospectionResult::Ok(self.any_value(c))
                },
            }
            .into(),
            MessageKind::CreateService2 => {
                let value = if c.below(2) == 0 {
                    self.any_value(c)
                } else {
                    let info = ServiceInfo::new(c.below(4)).set_subscribe_all(c.below(2) == 0);
                    SerializedValue::serialize(info).unwrap()
                };
                CreateService2 {
                    serial,
                    object_cookie: ObjectCookie(u(self.obj(sim, c, who))),
                    uuid: self.svc_uuid(c),
                    value,
                }
                .into()
            }
            MessageKind::QueryServiceInfo => QueryServiceInfo {
                serial,
                cookie: self.svc(sim, c, None),
            }
            .into(),
            MessageKind::QueryServiceInfoReply => QueryServiceInfoReply {
                serial,
                result: QueryServiceInfoResult::InvalidService,
            }
            .into(),
            MessageKind::SubscribeService => SubscribeService {
                serial,
                service_cookie: self.svc(sim, c, None),
            }
            .into(),
            MessageKind::SubscribeServiceReply => SubscribeServiceReply {
                serial,
                result: SubscribeServiceResult::Ok,
            }
            .into(),
            MessageKind::UnsubscribeService => UnsubscribeService {
                service_cookie: self.svc(sim, c, None),
            }
            .into(),
            MessageKind::SubscribeAllEvents => SubscribeAllEvents {
                serial: (c.below(3) != 2).then_some(serial),
                service_cookie: self.svc(sim, c, None),
            }
            .into(),
            MessageKind::SubscribeAllEventsReply => SubscribeAllEventsReply {
                serial,
                result: SubscribeAllEventsResult::Ok,
            }
            .into(),
            MessageKind::UnsubscribeAllEvents => UnsubscribeAllEvents {
                serial: (c.below(3) != 2).then_some(serial),
                service_cookie: self.svc(sim, c, None),
            }
            .into(),
            MessageKind::UnsubscribeAllEventsReply => UnsubscribeAllEventsReply {
                serial,
                result: UnsubscribeAllEventsResult::Ok,
            }
            .into(),
            MessageKind::CallFunction2 => CallFunction2 {
                serial,
                service_cookie: self.svc(sim, c, who),
                function: c.below(4),
                version: (c.below(2) == 0).then_some(1),
                value: self.any_value(c),
            }
            .into(),
        }
    }

    // -- end of run ----------------------------------------------------------------------------

    pub fn finish(&mut self, sim: &mut Sim, c: &mut Choices) {
        if sim.failed() {
            return;
        }
        c.begin_span(crate::choice::FINAL, true);
        let mode = c.below(6);
        sim.end_limbo();
        sim.calm();
        sim.settle(c);
        sim.check_settled();
        if sim.failed() {
            return;
        }

        if !sim.w.borrow().model.terminated {
            self.probe(sim, c);
            if sim.failed() {
                return;
            }
        }

        // Connections stuck in the handshake because their peer says nothing.
        sim.drop_handshakes();
        sim.settle(c);

        match mode {
            0 | 1 | 2 => {
                if mode == 2 {
                    sim.req_idle();
                }
                let n = sim.w.borrow().links.len();
                for id in 0..n {
                    match if mode == 0 { 0 } else { c.below(4) } {
                        0 => sim.client_shutdown(id),
                        1 => sim.inject_fault(id, 0, 3),
                        2 if !sim.w.borrow().links[id].introspection => sim.kill_conn(id, true),
                        _ => sim.req_shutdown_conn(id),
                    }
                    if c.below(2) == 0 {
                        sim.settle(c);
                    }
                }
                sim.settle(c);
                sim.check_settled();
                if sim.failed() {
                    return;
                }
                if !sim.w.borrow().model.terminated {
                    sim.req_stats();
                    sim.req_snapshot();
                    sim.settle(c);
                    sim.check_settled();
                    if mode == 1 && !sim.failed() && c.below(4) == 0 {
                        self.drop_probe(sim, c);
                        if sim.failed() {
                            return;
                        }
                    }
                    sim.req_idle();
                }
            }
            3 | 4 => sim.req_shutdown(),
            _ => {
                sim.handle = None;
                let n = sim.w.borrow().links.len();
                for id in 0..n {
                    sim.client_shutdown(id);
                }
            }
        }
        if sim.failed() {
            return;
        }
        sim.settle(c);
        sim.check_settled();
        if sim.failed() {
            return;
        }
        sim.check_terminated();
    }

    /// Whether the broker notices all by itself that the task of a connection was dropped.
    /// Adds one to the capacity of a channel.
    fn capacity_probe(&mut self, sim: &mut Sim, c: &mut Choices, capacity: u32) {
        let mut link = Link::new();
        link.ver = 20;
        let value = SerializedValue::serialize(&ConnectData::new()).unwrap();
        let Some(id) = sim.connect(link) else {
            return;
        };
        let mut go = |sim: &mut Sim, msg: Message| {
            sim.send(id, msg);
            sim.settle(c);
            sim.check_settled();
        };
        go(
            sim,
            Connect2 {
                major_version: 1,
                minor_version: 20,
                value,
            }
            .into(),
        );
        let end = ChannelEndWithCapacity::Sender;
        go(sim, CreateChannel { serial: 0, end }.into());
        let Some(cookie) = sim.w.borrow().pools.chans.first().map(|p| p.0) else {
            return;
        };
        let cookie = ChannelCookie(u(cookie));
        let end = ChannelEndWithCapacity::Receiver(capacity);
        go(
            sim,
            ClaimChannelEnd {
                serial: 1,
                cookie,
                end,
            }
            .into(),
        );
        go(
            sim,
            AddChannelCapacity {
                cookie,
                capacity: 1,
            }
            .into(),
        );
    }

    fn drop_probe(&mut self, sim: &mut Sim, c: &mut Choices) {
        let mut link = Link::new();
        link.ver = 20;
        let value = SerializedValue::serialize(&ConnectData::new()).unwrap();
        let Some(id) = sim.connect(link) else {
            return;
        };
        sim.send(
            id,
            Connect2 {
                major_version: 1,
                minor_version: 20,
                value,
            }
            .into(),
        );
        sim.settle(c);
        sim.check_settled();
        if sim.failed() {
            return;
        }
        sim.w.borrow_mut().hit("drop_probes");
        sim.w.borrow_mut().drop_probe = true;
        sim.kill_conn(id, false);
        sim.settle(c);
        sim.check_settled();
        sim.req_stats();
        sim.settle(c);
        sim.check_settled();
        sim.w.borrow_mut().drop_probe = false;
    }

    fn probe(&mut self, sim: &mut Sim, c: &mut Choices) {
        let n = sim.w.borrow().links.len();
        for id in 0..n {
            let ok = {
                let w = sim.w.borrow();
                let l = &w.links[id];
                l.phase == Phase::Registered && !l.dropped && !l.sent_shutdown
            };
            if ok {
                sim.send(id, Sync { serial: 0xfffe }.into());
            }
        }
        let mut link = Link::new();
        link.ver = 20;
        let value = SerializedValue::serialize(&ConnectData::new()).unwrap();
        if let Some(id) = sim.connect(link) {
            sim.send(
                id,
                Connect2 {
                    major_version: 1,
                    minor_version: 20,
                    value,
                }
                .into(),
            );
            sim.send(id, Sync { serial: 1 }.into());
            sim.settle(c);
            sim.send(
                id,
                CreateObject {
                    serial: 2,
                    uuid: ObjectUuid(u(UUID_BASE + 999)),
                }
                .into(),
            );
            sim.settle(c);
            sim.check_settled();
            let ok = {
                let w = sim.w.borrow();
                w.links[id].phase == Phase::Registered && !w.links[id].dropped
            };
            if !ok && !sim.failed() {
                sim.fail(
                    "probe",
                    &WIRE_PROPS,
                    "a new well-behaved connection is not served".into(),
                );
            }
            let cookie = sim
                .w
                .borrow()
                .pools
                .objs
                .iter()
                .rev()
                .find(|o| o.2 == id)
                .map(|o| o.0);
            if let Some(k) = cookie {
                sim.send(
                    id,
                    DestroyObject {
                        serial: 3,
                        cookie: ObjectCookie(u(k)),
                    }
                    .into(),
                );
            }
            sim.w.borrow_mut().hit("probes");
        }
        sim.req_stats();
        sim.req_snapshot();
        sim.settle(c);
        sim.check_settled();
    }
}

fn garbage(c: &mut Choices) -> SerializedValue {
    match c.below(8) {
        0 => {
            // Something nested too deep, or just about not; at times by far, so that a recursion
            // without a limit runs out of stack.
            let n = match c.below(8) {
                0..=4 => 30 + c.below(6),
                5 => 200 + c.below(400),
                6 => 5_000 + c.below(10_000),
                _ => 100_000 + c.below(100_000),
            };
            let one: &[u8] = match c.below(5) {
                0 | 1 => &[1],
                // A list of one element in the newer encoding.
                2 => &[43, 1],
                // The older encoding of one.
                3 => &[17, 1],
                _ => &[40, 7],
            };
            let mut b = one.repeat(n as usize);
            b.push(0);
            if one[0] == 43 {
                // The ends of all lists.
                b.resize(b.len() + n as usize, 0);
            }
            val::raw_value(&b)
        }
        1 => val::raw_value(&[66]),
        2 => val::raw_value(&[0, 0]),
        3 => val::raw_value(&[13, 2, 0xff, 0xfe]),
        4 => val::raw_value(&[17, 255, 0xff, 0xff, 0xff, 0xff]),
        5 => {
            // A truncated valid value.
            let v = val::gen_value(c, true, 3);
            let n = v.len() as u32;
            let k = c.below(n.max(1)).max(1);
            val::raw_value(&v[..(k.min(n)) as usize])
        }
        6 => {
            // A valid value with one byte changed.
            let v = val::gen_value(c, true, 3);
            let mut b = v.to_vec();
            let i = c.below(b.len() as u32) as usize;
            b[i] ^= 1 << c.below(8);
            val::raw_value(&b)
        }
        _ => {
            let n = 1 + c.below(12) as usize;
            let b: Vec<u8> = (0..n).map(|_| c.below(70) as u8).collect();
            val::raw_value(&b)
        }
    }
}

/// The workload mix of each property's check.
pub fn profile(property: &str) -> Profile {
    //                      obj svc qry call rep abt sub emt chn itm bus syn int con end vio hos sta tun
    let (property, weights, versions, ops, conns, fault_pct, garbage): (&'static str, [u32; FAMILIES], _, _, _, _, _) =
        match property {
            "C02" => ("C02", [10, 14, 1, 40, 34, 12, 1, 1, 1, 1, 1, 1, 0, 3, 4, 1, 0, 2, 2], Versions::All, (30, 110), (2, 4), 0, false),
            "C03" => ("C03", [40, 34, 14, 4, 2, 1, 5, 1, 0, 0, 3, 1, 0, 4, 5, 0, 0, 2, 2], Versions::Mostly, (30, 120), (2, 4), 0, false),
            "C04" => ("C04", [7, 12, 1, 1, 1, 0, 44, 22, 0, 0, 1, 1, 0, 4, 5, 1, 0, 2, 2], Versions::Mostly, (30, 130), (2, 5), 0, false),
            "C05" => ("C05", [1, 1, 0, 0, 0, 0, 0, 0, 26, 52, 0, 1, 0, 4, 4, 0, 0, 2, 2], Versions::Mostly, (30, 140), (2, 4), 0, false),
            "C09" => ("C09", [14, 14, 2, 12, 6, 3, 12, 3, 12, 8, 8, 1, 6, 6, 12, 2, 0, 6, 4], Versions::Mostly, (20, 110), (2, 5), 0, false),
            "C10" => ("C10", [22, 16, 0, 0, 0, 0, 0, 0, 0, 0, 44, 1, 0, 3, 3, 0, 0, 2, 2], Versions::Mostly, (30, 120), (2, 4), 0, false),
            "C11" => ("C11", [10, 10, 2, 8, 5, 3, 8, 4, 10, 8, 8, 2, 6, 8, 4, 4, 30, 3, 3], Versions::All, (20, 120), (2, 5), 0, true),
            "C12" => ("C12", [8, 12, 3, 14, 10, 4, 10, 8, 6, 8, 1, 1, 1, 10, 2, 3, 0, 1, 1], Versions::All, (20, 100), (3, 5), 0, false),
            _ => ("C11", [5; FAMILIES], Versions::All, (20, 120), (2, 5), 0, true),
        };
    Profile {
        property,
        weights,
        versions,
        ops,
        conns,
        fault_pct,
        garbage,
    }
}

/// Whether the broker finds out that a connection's task was dropped only when it sends something
/// there (a known finding). It is asked once, outside of any run.
fn limbo() -> bool {
    static LIMBO: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *LIMBO.get_or_init(|| {
        std::thread::spawn(|| {
            crate::entropy::set_seed(Some(1));
            let mut c = Choices::generate(1);
            c.begin_span(crate::choice::CONFIG, true);
            let mut sim = Sim::new(false);
            let mut drv = Driver::new(&profile("C09"), &mut c);
            drv.drop_probe(&mut sim, &mut c);
            let v = sim.w.borrow().violation.as_ref().map(|v| v.class.clone());
            v.as_deref() == Some("drop-unnoticed")
        })
        .join()
        .unwrap_or(false)
    })
}

/// How much capacity a sender has left when the broker tells it of more. This is up to the broker.
/// It is asked once, outside of any run.
pub fn low() -> u32 {
    static LOW: std::sync::OnceLock<u32> = std::sync::OnceLock::new();
    *LOW.get_or_init(|| {
        std::thread::spawn(|| {
            // Whether a sender that has `capacity` left is told of one more at once.
            let told = |capacity: u32| {
                crate::entropy::set_seed(Some(1));
                let mut c = Choices::generate(1);
                c.begin_span(crate::choice::CONFIG, true);
                let mut sim = Sim::new(false);
                sim.w.borrow_mut().model.low = super::model::Low(u32::MAX);
                let mut drv = Driver::new(&profile("C05"), &mut c);
                drv.capacity_probe(&mut sim, &mut c, capacity);
                let ok = sim.w.borrow().violation.is_none();
                ok
            };
            if !told(0) {
                return 4;
            }
            let (mut low, mut high) = (0, u32::MAX);
            while high - low > 1 {
                let mid = low + (high - low) / 2;
                if told(mid) {
                    low = mid;
                } else {
                    high = mid;
                }
            }
            low
        })
        .join()
        .unwrap_or(4)
    })
}

/// The directions a transport fault affects.
fn dirs(c: &mut Choices) -> u8 {
    [3, 3, 2, 1][c.below(4) as usize]
}
