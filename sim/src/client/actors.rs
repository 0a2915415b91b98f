//! Application tasks. Every awaited operation is a job; every result is judged at once.

use super::variants::{self, Answer, Outcome, Reply, Rx, Tx};
use super::world::*;
use crate::choice::{self, Choices};
use crate::val::{self, V};
use aldrin::low_level::{
    Call, PendingReceiver, PendingSender, Proxy, Service, ServiceInfo, UnboundReceiver,
    UnboundSender, UnclaimedReceiver, UnclaimedSender,
};
use aldrin::{BusListener, Discoverer, Error, Handle, Lifetime, LifetimeScope, Object};
use aldrin_core::{
    tags, BusEvent, BusListenerScope, ChannelCookie, ObjectId, ObjectUuid, SerializedValue,
    SerializedValueSlice, ServiceId, ServiceUuid, TypeId,
};
use futures_core::future::FusedFuture;
use futures_core::stream::FusedStream;
use std::future::{poll_fn, Future};
use std::pin::pin;
use std::rc::Rc;
use std::task::Poll;
use uuid::Uuid;

/// Polls `fut` once and drops it if `cancel`, otherwise awaits it.
async fn maybe_cancel<T>(cancel: bool, fut: impl Future<Output = T>) -> Option<T> {
    if !cancel {
        return Some(fut.await);
    }
    let mut fut = pin!(fut);
    poll_fn(|cx| match fut.as_mut().poll(cx) {
        Poll::Ready(v) => Poll::Ready(Some(v)),
        Poll::Pending => Poll::Ready(None),
    })
    .await
}

/// Gives way to others.
async fn pause(n: u32) {
    let mut left = n;
    poll_fn(|cx| {
        if left == 0 {
            return Poll::Ready(());
        }
        left -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

fn tree(head: &[u32], pad: u32) -> V {
    let int = |x: u32| V::Int(7, x as i128);
    let mut v: Vec<V> = head.iter().copied().map(int).collect();
    if pad % 3 == 2 {
        // Something structured, derived from what it belongs to.
        let seed = head.iter().fold(pad as u64, |a, &x| (a << 20) ^ (a >> 7) ^ x as u64);
        let mut c = Choices::generate(seed);
        c.begin_span(choice::CONFIG, true);
        v.push(val::gen(&mut c, 3));
    }
    v.extend((0..pad).map(|i| int(i.wrapping_mul(2654435761) ^ head[0])));
    V::Vec(v)
}

/// A payload that tells what it belongs to, in a mix of both container encodings.
fn payload(head: &[u32], pad: u32) -> SerializedValue {
    let mut out = Vec::new();
    let mut n = head.iter().fold(pad, |a, x| a.wrapping_mul(31).wrapping_add(*x));
    let mixed = n % 3 == 0;
    val::encode(
        &tree(head, pad),
        &mut || {
            n = n.wrapping_mul(1664525).wrapping_add(1013904223);
            !mixed || n & 0x4000_0000 != 0
        },
        &mut out,
    );
    val::raw_value(&out)
}

/// Takes a payload apart again.
struct Arrived {
    head: Vec<u32>,
    tree: V,
}

impl Arrived {
    fn new(v: &SerializedValueSlice) -> Option<Self> {
        let tree = val::decode(v).ok()?.value;
        // Whatever arrives must be acceptable to the real decoder, too.
        v.deserialize_as_value().ok()?;
        let V::Vec(items) = &tree else {
            return None;
        };
        let head: Vec<u32> = items
            .iter()
            .take(2)
            .filter_map(|v| match v {
                V::Int(7, x) => Some(*x as u32),
                _ => None,
            })
            .collect();
        (head.len() == 2).then_some(Self { head, tree })
    }

    fn is(&self, head: &[u32], pad: u32) -> bool {
        self.tree == tree(head, pad)
    }
}

fn arrived(v: &SerializedValueSlice, head: &[u32], pad: u32) -> bool {
    Arrived::new(v).is_some_and(|a| a.is(head, pad))
}

fn unexpected<T>(w: &W, what: &str, r: &Result<T, Error>) {
    if let Err(e) = r {
        if *e != Error::Shutdown {
            w.borrow_mut().fail(
                "unexpected-result",
                &["C06"],
                format!("{what} failed with {e:?}"),
            );
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Objects

pub fn create_object(cx: &Cx, client: usize, handle: Handle, uuid: Uuid) {
    let job = cx.begin(client, Wait::Req("create_object"));
    let cx2 = cx.clone();
    cx.spawn(client, "create object", async move {
        let r = match cx2.alt(2) {
            0 => handle.create_object(ObjectUuid(uuid)).await,
            _ => Object::new(&handle, ObjectUuid(uuid)).await,
        };
        let s = job.end("create_object", &r);
        let lease = Lease::new(&cx2.w, client);
        let mut w = cx2.w.borrow_mut();
        match r {
            Ok(obj) => {
                let id = obj.id();
                if id.uuid.0 != uuid
                    || obj.lifetime_id().0 != id
                    || !w.bus.created_within(id.cookie.0, s.lo, s.hi)
                {
                    w.fail(
                        "create-object",
                        &["C06", "C03"],
                        format!("create_object returned {id:?}, which was not created meanwhile"),
                    );
                }
                let rec = w.objs.len();
                w.objs.push(ObjRec {
                    client,
                    id,
                    obj: Some(Rc::new(ObjBox {
                        w: cx2.w.clone(),
                        rec,
                        inner: ObjInner::Obj(obj),
                        lease,
                    })),
                    ending: false,
                });
                w.hit("objects created");
            }
            Err(e) => {
                if e == Error::DuplicateObject {
                    if !w.bus.obj_uuid_live_within(uuid, s.lo, s.hi) {
                        w.fail(
                            "duplicate-object",
                            &["C06", "C03"],
                            "create_object reported a duplicate that never existed".into(),
                        );
                    }
                    w.hit("duplicate objects");
                }
                drop(w);
                drop(lease);
                if e != Error::DuplicateObject {
                    unexpected(&cx2.w, "create_object", &Err::<(), _>(e));
                }
            }
        }
    });
}

pub fn create_scope(cx: &Cx, client: usize, handle: Handle) {
    let job = cx.begin(client, Wait::Req("create_lifetime_scope"));
    let cx2 = cx.clone();
    cx.spawn(client, "create scope", async move {
        let r = match cx2.alt(2) {
            0 => handle.create_lifetime_scope().await,
            _ => LifetimeScope::new(&handle).await,
        };
        let s = job.end("create_lifetime_scope", &r);
        unexpected(&cx2.w, "create_lifetime_scope", &r);
        if let Ok(scope) = r {
            let lease = Lease::new(&cx2.w, client);
            let mut w = cx2.w.borrow_mut();
            let id = scope.id().0;
            if !w.bus.created_within(id.cookie.0, s.lo, s.hi) {
                w.fail(
                    "create-scope",
                    &["C19", "C06"],
                    "create_lifetime_scope returned a scope that was not created meanwhile".into(),
                );
            }
            let rec = w.objs.len();
            w.objs.push(ObjRec {
                client,
                id,
                obj: Some(Rc::new(ObjBox {
                    w: cx2.w.clone(),
                    rec,
                    inner: ObjInner::Scope(scope),
                    lease,
                })),
                ending: false,
            });
            w.hit("lifetime scopes created");
        }
    });
}

/// Awaited destruction; dropping is done by the driver.
pub fn destroy_object(cx: &Cx, rec: usize, obj: Rc<ObjBox>, cancel: bool) {
    let (client, id) = {
        let mut w = cx.w.borrow_mut();
        w.objs[rec].ending = true;
        (w.objs[rec].client, w.objs[rec].id)
    };
    let job = cx.begin(client, Wait::Req("destroy object"));
    let cx2 = cx.clone();
    cx.spawn(client, "destroy object", async move {
        let r = maybe_cancel(cancel, async {
            match &obj.inner {
                ObjInner::Obj(o) => o.destroy().await,
                ObjInner::Scope(s) => s.end().await,
            }
        })
        .await;
        let Some(r) = r else {
            return;
        };
        let s = job.end("destroy object", &r);
        let mut w = cx2.w.borrow_mut();
        let c = id.cookie.0;
        match r {
            Ok(()) => {
                if !w.bus.destroyed_within(c, s.lo, s.hi) {
                    w.fail(
                        "destroy-object",
                        &["C06"],
                        "destroying an object succeeded without destroying it".into(),
                    );
                }
            }
            Err(Error::InvalidObject | Error::InvalidLifetime) => {
                if !w.bus.gone_within(c, s.lo, s.hi) {
                    w.fail(
                        "destroy-object",
                        &["C06"],
                        "destroying an object failed although it existed".into(),
                    );
                }
            }
            Err(Error::Shutdown) => {}
            Err(e) => w.fail(
                "unexpected-result",
                &["C06"],
                format!("destroying an object failed with {e:?}"),
            ),
        }
        drop(w);
        drop(obj);
    });
}

// ---------------------------------------------------------------------------------------------
// Services

pub fn create_service(
    cx: &Cx,
    rec: usize,
    obj: Rc<ObjBox>,
    uuid: Uuid,
    version: u32,
    type_id: Option<Uuid>,
) {
    let (client, oid) = {
        let w = cx.w.borrow();
        (w.objs[rec].client, w.objs[rec].id)
    };
    let job = cx.begin(client, Wait::Req("create_service"));
    let cx2 = cx.clone();
    cx.spawn(client, "service", async move {
        let ObjInner::Obj(o) = &obj.inner else {
            return;
        };
        let mut info = ServiceInfo::new(version);
        if let Some(t) = type_id {
            info = info.set_type_id(TypeId(t));
        }
        let r = match cx2.alt(2) {
            0 => o.create_service(ServiceUuid(uuid), info).await,
            _ => Service::new(o, ServiceUuid(uuid), info).await,
        };
        drop(obj);
        let s = job.end("create_service", &r);
        let mut w = cx2.w.borrow_mut();
        let oc = oid.cookie.0;
        let svc = match r {
            Ok(svc) => svc,
            Err(e) => {
                let ok = match e {
                    Error::DuplicateService => w.bus.svc_uuid_live_within(oc, uuid, s.lo, s.hi),
                    Error::InvalidObject => w.bus.gone_within(oc, s.lo, s.hi),
                    Error::Shutdown => true,
                    _ => false,
                };
                if !ok {
                    w.fail(
                        "create-service",
                        &["C06", "C03"],
                        format!("create_service failed with {e:?} without a reason"),
                    );
                }
                return;
            }
        };
        let id = svc.id();
        let same = svc.version() == version && svc.type_id().map(|t| t.0) == type_id;
        if !same || id.object_id != oid || id.uuid.0 != uuid || !w.bus.created_within(id.cookie.0, s.lo, s.hi)
        {
            w.fail(
                "create-service",
                &["C06", "C03"],
                format!("create_service returned {id:?}, which was not created meanwhile"),
            );
        }
        w.hit("services created");
        let sid = w.svcs.len();
        let inbox = Inbox::new();
        w.svcs.push(SvcRec {
            client,
            obj: rec,
            id,
            version,
            type_id,
            ending: false,
            destroyed: false,
            inbox: inbox.clone(),
            reading: true,
            ended: false,
            alive: true,
            emitted: 0,
            emissions: Vec::new(),
        });
        drop(w);
        service_actor(cx2, sid, svc, inbox).await;
    });
}

async fn service_actor(cx: Cx, sid: usize, mut svc: Service, inbox: Inbox<SvcCmd>) {
    let w2 = cx.w.clone();
    let inbox2 = inbox.clone();
    let _end = OnDrop(move || {
        inbox2.close();
        let mut w = w2.borrow_mut();
        w.svcs[sid].ending = true;
        w.svcs[sid].alive = false;
    });
    let client = cx.w.borrow().svcs[sid].client;
    enum N {
        Cmd(SvcCmd),
        Call(Option<Call>),
    }
    let mut quota = u32::MAX;
    loop {
        let n = poll_fn(|ctx| {
            if let Some(c) = inbox.pop(ctx) {
                return Poll::Ready(N::Cmd(c));
            }
            let go = {
                let w = cx.w.borrow();
                w.svcs[sid].reading && !w.svcs[sid].ended
            };
            if go {
                let how = cx.alt(3);
                return variants::poll_call(&mut svc, how, ctx).map(N::Call);
            }
            Poll::Pending
        })
        .await;
        match n {
            N::Cmd(SvcCmd::Read(n)) => {
                quota = n;
                cx.w.borrow_mut().svcs[sid].reading = n > 0;
            }
            N::Cmd(SvcCmd::Drop) => return,
            N::Cmd(SvcCmd::Emit { ev, n }) => {
                for _ in 0..n {
                    emit(&cx, sid, &svc, ev, client);
                }
            }
            N::Cmd(SvcCmd::Destroy { cancel }) => {
                cx.w.borrow_mut().svcs[sid].ending = true;
                let job = cx.begin(client, Wait::Req("destroy service"));
                let Some(r) = maybe_cancel(cancel, svc.destroy()).await else {
                    continue;
                };
                let s = job.end("destroy service", &r);
                let mut w = cx.w.borrow_mut();
                let c = w.svcs[sid].id.cookie.0;
                let ok = match r {
                    Ok(()) => {
                        w.svcs[sid].destroyed = true;
                        w.bus.destroyed_within(c, s.lo, s.hi)
                    }
                    Err(Error::InvalidService) => w.bus.gone_within(c, s.lo, s.hi),
                    Err(Error::Shutdown) => true,
                    Err(_) => false,
                };
                if !ok {
                    w.fail(
                        "destroy-service",
                        &["C06"],
                        format!("destroying a service returned {r:?} without a reason"),
                    );
                }
            }
            N::Call(Some(call)) => {
                handle_call(&cx, sid, call);
                quota = quota.saturating_sub(1);
                cx.w.borrow_mut().svcs[sid].reading = quota > 0;
            }
            N::Call(None) => {
                let mut w = cx.w.borrow_mut();
                w.svcs[sid].ended = true;
                if !w.svc_ending(sid) {
                    w.fail(
                        "calls-ended",
                        &["C06"],
                        "a service's calls ended although the service exists".into(),
                    );
                }
                w.hit("call streams ended");
                drop(w);
                let again = at_once(svc.next_call()).await;
                if !svc.is_terminated() || !matches!(again, Some(None)) {
                    let m = "a service's calls continue after their end";
                    cx.w.borrow_mut().fail("calls-ended", &["C06", "C15"], m.into());
                }
            }
        }
    }
}

fn emit(cx: &Cx, sid: usize, svc: &Service, ev: u32, client: usize) {
    let (seq, pad) = {
        let mut w = cx.w.borrow_mut();
        let now = w.now;
        let s = &mut w.svcs[sid];
        let seq = s.emitted;
        s.emitted += 1;
        s.emissions.push((ev, now));
        (seq, if seq % 7 == 3 { 200 } else { seq % 3 })
    };
    if cx.alt(20) == 19 {
        let bad = variants::unserializable();
        let r = match cx.alt(2) {
            0 => svc.emit(ev, &bad),
            _ => svc.emit_as::<tags::Value>(ev, &bad),
        };
        let mut w = cx.w.borrow_mut();
        w.hit("unserializable values used");
        if !variants::unserialized(&r) {
            w.fail(
                "unserializable",
                &["C04", "C06"],
                format!("emitting an unserializable value returned {r:?}"),
            );
        }
    }
    let r = svc.emit(ev, payload(&[sid as u32, seq], pad));
    let mut w = cx.w.borrow_mut();
    tr!(w, "   c{client} emits event {ev} seq {seq} on svc {sid}: {r:?}");
    w.hit("events emitted");
    match r {
        Ok(()) => {
            if w.clients[client].ended() {
                w.fail(
                    "op-after-end",
                    &["C15"],
                    "emit succeeded after the client had stopped".into(),
                );
            }
            if w.svc_ending(sid) {
                return;
            }
            for p in 0..w.proxies.len() {
                let pr = &w.proxies[p];
                if pr.svc == sid
                    && pr.alive
                    && !w.stopping(pr.client)
                    && pr
                        .subs
                        .iter()
                        .any(|s| s.solid && s.end.is_none() && s.ev.map_or(true, |e| e == ev))
                {
                    w.proxies[p].must.push_back(seq);
                    w.hit("events that must arrive");
                }
            }
        }
        Err(Error::Shutdown) if w.stopping(client) => {}
        Err(e) => w.fail("emit", &["C06"], format!("emit failed with {e:?}")),
    }
}

fn handle_call(cx: &Cx, sid: usize, call: Call) {
    let head = Arrived::new(call.args());
    let mut w = cx.w.borrow_mut();
    let bad = |w: &mut World, msg: String| w.fail("call-delivery", &["C02", "C06"], msg);
    let Some(head) = head else {
        bad(&mut w, "the arguments of a call arrived damaged".into());
        return;
    };
    let idx = head.head[0] as usize;
    if idx >= w.calls.len() {
        bad(&mut w, "a call arrived with unknown arguments".into());
        return;
    }
    tr!(w, "   svc {sid} got call {idx}");
    w.hit("calls delivered");
    let (caller, callee) = (w.calls[idx].caller, w.svcs[sid].client);
    let version = match w.calls[idx].version {
        Some(v) if w.clients[caller].ver >= 19 && w.clients[callee].ver >= 19 => Some(v),
        _ => None,
    };
    let c = &w.calls[idx];
    let err = if c.delivered {
        Some("was delivered twice")
    } else if !c.sent {
        Some("was delivered before it was made")
    } else if c.svc != sid || call.service() != w.svcs[sid].id {
        Some("was delivered to the wrong service")
    } else if call.id() != c.func {
        Some("was delivered with a different function id")
    } else if call.version() != version {
        Some("was delivered with a different version")
    } else if !head.is(&[idx as u32, c.func], c.pad) {
        Some("was delivered with different arguments")
    } else {
        None
    };
    if let Some(e) = err {
        bad(&mut w, format!("call {idx} {e}"));
        return;
    }
    w.calls[idx].delivered = true;
    let beh = w.calls[idx].beh;
    drop(w);
    if beh == Beh::InvalidArgs && cx.alt(3) == 1 {
        cx.w.borrow_mut().calls[idx].answered = Some(beh);
        let r = Answer::bad_args(call, cx.alt(2));
        judge_answer(cx, callee, r);
        return;
    }
    let promise = match Answer::new(call, cx.alt(8)) {
        Ok(p) => p,
        Err(e) => {
            cx.w.borrow_mut().fail("call-delivery", &["C02", "C06"], e);
            return;
        }
    };
    if beh == Beh::Hold {
        let inbox = Inbox::new();
        {
            let mut w = cx.w.borrow_mut();
            w.calls[idx].held = true;
            w.calls[idx].inbox = Some(inbox.clone());
        }
        let cx2 = cx.clone();
        cx.spawn(callee, "promise", promise_actor(cx2, idx, promise, inbox));
    } else {
        answer(cx, idx, promise, beh, callee);
    }
}

fn answer(cx: &Cx, idx: usize, promise: Answer, beh: Beh, callee: usize) {
    let bad = matches!(beh, Beh::Ok | Beh::Err) && cx.alt(16) == 15;
    let beh = match beh {
        Beh::Drop if promise.dropped_is_invalid_function() => Beh::InvalidFunction,
        _ if bad => Beh::Drop,
        beh => beh,
    };
    {
        let mut w = cx.w.borrow_mut();
        tr!(w, "   call {idx} answered {beh:?}");
        w.calls[idx].answered = Some(beh);
    }
    if bad {
        let r = promise.answer_bad(cx.alt(4));
        let mut w = cx.w.borrow_mut();
        w.hit("unserializable values used");
        if !variants::unserialized(&r) {
            w.fail(
                "unserializable",
                &["C02", "C06"],
                format!("answering with an unserializable value returned {r:?}"),
            );
        }
        return;
    }
    let (i, pad) = (idx as u32, idx as u32 % 5);
    let outcome = match beh {
        Beh::Ok => Outcome::Ok(payload(&[i, 1], pad)),
        Beh::Err => Outcome::Err(payload(&[i, 2], pad)),
        Beh::Done => Outcome::Done,
        Beh::Abort => Outcome::Abort,
        Beh::InvalidFunction => Outcome::InvalidFunction,
        Beh::InvalidArgs => Outcome::InvalidArgs,
        Beh::Drop | Beh::Hold => Outcome::Drop,
    };
    let r = promise.answer(outcome, cx.alt(3));
    judge_answer(cx, callee, r);
}

fn judge_answer(cx: &Cx, callee: usize, r: Result<(), Error>) {
    let mut w = cx.w.borrow_mut();
    match r {
        Ok(()) => {}
        Err(Error::Shutdown) if w.stopping(callee) => {}
        Err(e) => w.fail("answer", &["C06"], format!("answering a call failed with {e:?}")),
    }
}

async fn promise_actor(cx: Cx, idx: usize, mut promise: Answer, inbox: Inbox<Beh>) {
    let callee = {
        let w = cx.w.borrow();
        w.svcs[w.calls[idx].svc].client
    };
    let w2 = cx.w.clone();
    let inbox2 = inbox.clone();
    let on_drop = match promise.dropped_is_invalid_function() {
        true => Beh::InvalidFunction,
        false => Beh::Drop,
    };
    let _end = OnDrop(move || {
        inbox2.close();
        let mut w = w2.borrow_mut();
        w.calls[idx].held = false;
        if w.calls[idx].answered.is_none() {
            w.calls[idx].answered = Some(on_drop);
        }
    });
    loop {
        let n = poll_fn(|ctx| {
            if let Some(b) = inbox.pop(ctx) {
                return Poll::Ready(Some(b));
            }
            if cx.w.borrow().calls[idx].abort_seen {
                return Poll::Pending;
            }
            let how = cx.alt(3);
            if how == 2 && promise.is_aborted() {
                return Poll::Ready(None);
            }
            promise.poll_aborted(how, ctx).map(|()| None)
        })
        .await;
        match n {
            Some(beh) => {
                answer(&cx, idx, promise, beh, callee);
                return;
            }
            None => {
                let is = promise.is_aborted();
                let mut w = cx.w.borrow_mut();
                tr!(w, "   call {idx}: promise reports an abort");
                w.hit("aborts seen by callees");
                let c = &w.calls[idx];
                let ok = c.aborted.is_some() || w.stopping(c.caller) || w.stopping(callee);
                if !ok || !is {
                    w.fail(
                        "spurious-abort",
                        &["C02", "C06"],
                        format!("call {idx} was reported aborted although its caller waits"),
                    );
                }
                w.calls[idx].abort_seen = true;
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Proxies and calls

pub fn create_proxy(cx: &Cx, client: usize, handle: Handle, svc: Option<usize>, id: ServiceId) {
    let job = cx.begin(client, Wait::Req("create_proxy"));
    let cx2 = cx.clone();
    cx.spawn(client, "proxy", async move {
        let r = match cx2.alt(2) {
            0 => Proxy::new(&handle, id).await,
            _ => handle.create_proxy(id).await,
        };
        drop(handle);
        let s = job.end("create_proxy", &r);
        let mut w = cx2.w.borrow_mut();
        let proxy = match r {
            Ok(p) => p,
            Err(e) => {
                let ok = match e {
                    Error::InvalidService => w.bus.gone_within(id.cookie.0, s.lo, s.hi),
                    Error::Shutdown => true,
                    _ => false,
                };
                if !ok {
                    w.fail(
                        "create-proxy",
                        &["C06", "C03"],
                        format!("create_proxy failed with {e:?} without a reason"),
                    );
                }
                return;
            }
        };
        let Some(svc) = svc.filter(|_| w.bus.live_within(id.cookie.0, s.lo, s.hi)) else {
            w.fail(
                "create-proxy",
                &["C06", "C03"],
                "create_proxy succeeded for a service that did not exist".into(),
            );
            return;
        };
        let owner = w.svcs[svc].client;
        let ty = w.svcs[svc]
            .type_id
            .filter(|_| w.clients[owner].ver >= 17 && w.clients[client].ver >= 17);
        if proxy.id() != id
            || proxy.version() != w.svcs[svc].version
            || proxy.type_id().map(|t| t.0) != ty
        {
            let m = format!(
                "a proxy reports version {} and type {:?} instead of {} and {ty:?}",
                proxy.version(),
                proxy.type_id(),
                w.svcs[svc].version
            );
            w.fail("proxy-info", &["C03", "C06"], m);
        }
        let can = (w.clients[owner].ver >= 18, w.clients[client].ver >= 18);
        if proxy.can_subscribe_all() != can.0 && (can.1 || proxy.can_subscribe_all()) {
            let m = format!("a proxy reports {} for subscribing to all events", !can.0);
            w.fail("proxy-info", &["C04", "C06"], m);
        }
        w.hit("proxies created");
        let inbox = Inbox::new();
        let pid = w.proxies.len();
        w.proxies.push(ProxyRec {
            client,
            svc,
            inbox: inbox.clone(),
            reading: true,
            ended: false,
            alive: true,
            subs: Vec::new(),
            must: Default::default(),
            last_seq: None,
            state: Default::default(),
        });
        drop(w);
        proxy_actor(cx2, pid, proxy, inbox, client).await;
    });
}

async fn proxy_actor(cx: Cx, pid: usize, mut proxy: Proxy, inbox: Inbox<ProxyCmd>, client: usize) {
    let w2 = cx.w.clone();
    let inbox2 = inbox.clone();
    let _end = OnDrop(move || {
        inbox2.close();
        w2.borrow_mut().proxies[pid].alive = false;
    });
    enum N {
        Cmd(ProxyCmd),
        Event(Option<aldrin::low_level::Event>),
    }
    let mut quota = u32::MAX;
    loop {
        let n = poll_fn(|ctx| {
            if let Some(c) = inbox.pop(ctx) {
                return Poll::Ready(N::Cmd(c));
            }
            let go = {
                let w = cx.w.borrow();
                w.proxies[pid].reading && !w.proxies[pid].ended
            };
            if go {
                let how = cx.alt(3);
                return variants::poll_event(&mut proxy, how, ctx).map(N::Event);
            }
            Poll::Pending
        })
        .await;
        match n {
            N::Cmd(ProxyCmd::Read(n)) => {
                quota = n;
                cx.w.borrow_mut().proxies[pid].reading = n > 0;
            }
            N::Cmd(ProxyCmd::Drop) => return,
            N::Cmd(ProxyCmd::Sub { ev, cancel }) => {
                let before = cx.w.borrow().proxies[pid].state.get(&ev).copied();
                let k = {
                    let mut w = cx.w.borrow_mut();
                    let begin = w.now;
                    let p = &mut w.proxies[pid];
                    p.state.insert(ev, before.flatten().filter(|b| *b));
                    p.subs.push(SubSpan {
                        ev,
                        begin,
                        end: None,
                        ok: false,
                        solid: false,
                        loose: false,
                    });
                    p.subs.len() - 1
                };
                let job = cx.begin(client, Wait::Req("subscribe"));
                let r = maybe_cancel(cancel, async {
                    match ev {
                        Some(ev) => proxy.subscribe(ev).await,
                        None => proxy.subscribe_all().await,
                    }
                })
                .await;
                if let Some(r) = r {
                    // Refused without asking anybody.
                    let refused = r == Err(Error::NotSupported) && ev.is_none();
                    let s = if refused {
                        job.end_plain("subscribe_all refused")
                    } else {
                        job.end("subscribe", &r)
                    };
                    let mut w = cx.w.borrow_mut();
                    if refused {
                        w.proxies[pid].state.insert(ev, Some(before.flatten().unwrap_or(false)));
                    }
                    let svc = w.proxies[pid].svc;
                    let c = w.svcs[svc].id.cookie.0;
                    let ok = match r {
                        Ok(()) => {
                            w.proxies[pid].subs[k].ok = true;
                            w.proxies[pid].state.insert(ev, Some(true));
                            w.hit("subscriptions");
                            true
                        }
                        Err(Error::InvalidService) => w.bus.gone_within(c, s.lo, s.hi),
                        Err(Error::NotSupported) => {
                            let owner = w.svcs[svc].client;
                            refused && (w.clients[owner].ver < 18 || w.clients[client].ver < 18)
                        }
                        Err(Error::Shutdown) => true,
                        Err(_) => false,
                    };
                    if !ok {
                        w.fail(
                            "subscribe",
                            &["C06", "C04"],
                            format!("subscribing returned {r:?} without a reason"),
                        );
                    }
                }
            }
            N::Cmd(ProxyCmd::Unsub { ev, cancel }) => {
                let n = {
                    let mut w = cx.w.borrow_mut();
                    let p = &mut w.proxies[pid];
                    for s in &mut p.subs {
                        if ev.is_none() || s.ev == ev {
                            s.solid = false;
                            s.loose = true;
                        }
                    }
                    p.must.clear();
                    for (_, s) in p.state.iter_mut().filter(|(e, _)| ev.is_none() || **e == ev) {
                        *s = None;
                    }
                    p.subs.len()
                };
                let job = cx.begin(client, Wait::Req("unsubscribe"));
                let r = maybe_cancel(cancel, async {
                    match ev {
                        Some(ev) => proxy.unsubscribe(ev).await,
                        None => proxy.unsubscribe_all().await,
                    }
                })
                .await;
                if let Some(r) = r {
                    let refused = r == Err(Error::NotSupported) && ev.is_none();
                    let s = if refused {
                        job.end_plain("unsubscribe_all refused")
                    } else {
                        job.end("unsubscribe", &r)
                    };
                    let mut w = cx.w.borrow_mut();
                    let now = w.now;
                    let svc = w.proxies[pid].svc;
                    let c = w.svcs[svc].id.cookie.0;
                    let ok = match r {
                        Ok(()) => {
                            for s in &mut w.proxies[pid].subs[..n] {
                                if (ev.is_none() || s.ev == ev) && s.end.is_none() {
                                    s.end = Some(now);
                                }
                            }
                            let state = w.proxies[pid].state.iter_mut();
                            for (_, s) in state.filter(|(e, _)| ev.is_none() || **e == ev) {
                                *s = Some(false);
                            }
                            true
                        }
                        Err(Error::InvalidService) => w.bus.gone_within(c, s.lo, s.hi),
                        Err(Error::NotSupported) => refused,
                        Err(Error::Shutdown) => true,
                        Err(_) => false,
                    };
                    if !ok {
                        w.fail(
                            "unsubscribe",
                            &["C06", "C04"],
                            format!("unsubscribing returned {r:?} without a reason"),
                        );
                    }
                }
            }
            N::Cmd(ProxyCmd::Call { call }) => {
                let (func, pad, version) = {
                    let mut w = cx.w.borrow_mut();
                    let c = &mut w.calls[call];
                    c.sent = true;
                    (c.func, c.pad, c.version)
                };
                if cx.alt(20) == 19 {
                    let bad = variants::unserializable();
                    let r = at_once(proxy.call(func, &bad, version)).await;
                    let mut w = cx.w.borrow_mut();
                    w.hit("unserializable values used");
                    if !r.as_ref().is_some_and(variants::unserialized) {
                        w.fail(
                            "unserializable",
                            &["C02", "C06"],
                            format!("calling with an unserializable value returned {r:?}"),
                        );
                    }
                }
                let job = cx.begin(client, Wait::Reply(call));
                let reply = proxy.call(func, payload(&[call as u32, func], pad), version);
                cx.w.borrow_mut().hit("calls made");
                let reply = Reply::new(reply, cx.alt(4));
                cx.spawn(client, "reply", reply_job(cx.clone(), call, reply, job));
            }
            N::Event(Some(ev)) => {
                handle_event(&cx, pid, ev);
                quota = quota.saturating_sub(1);
                cx.w.borrow_mut().proxies[pid].reading = quota > 0;
            }
            N::Event(None) => {
                let mut w = cx.w.borrow_mut();
                w.proxies[pid].ended = true;
                let svc = w.proxies[pid].svc;
                if !w.svc_destroyed(svc) && !w.stopping(client) {
                    w.fail(
                        "events-ended",
                        &["C06", "C04"],
                        "a proxy's events ended although the service exists".into(),
                    );
                }
                w.hit("event streams ended");
                drop(w);
                let again = at_once(proxy.next_event()).await;
                if !proxy.events_finished() || !proxy.is_terminated() || !matches!(again, Some(None)) {
                    let m = "a proxy's events continue after their end";
                    cx.w.borrow_mut().fail("events-ended", &["C06", "C15"], m.into());
                }
            }
        }
    }
}

fn handle_event(cx: &Cx, pid: usize, ev: aldrin::low_level::Event) {
    let args = Arrived::new(ev.args());
    let mut w = cx.w.borrow_mut();
    let now = w.now;
    let p = &w.proxies[pid];
    let svc = p.svc;
    let fail = |w: &mut World, m: String| w.fail("event", &["C04", "C06"], m);
    let args = match args {
        Some(a) => a,
        None => {
            fail(&mut w, "an event arrived damaged".into());
            return;
        }
    };
    let (s, seq) = (args.head[0] as usize, args.head[1]);
    tr!(w, "   proxy {pid} got event {} seq {seq} of svc {s}", ev.id());
    w.hit("events received");
    if s != svc || ev.service() != w.svcs[svc].id {
        fail(&mut w, "an event arrived at a proxy of another service".into());
        return;
    }
    let Some(&(id, at)) = w.svcs[svc].emissions.get(seq as usize) else {
        fail(&mut w, "an event arrived that was not emitted".into());
        return;
    };
    let pad = if seq % 7 == 3 { 200 } else { seq % 3 };
    if id != ev.id() || !args.is(&[s as u32, seq], pad) {
        fail(&mut w, "an event arrived with a different id or payload".into());
        return;
    }
    let p = &w.proxies[pid];
    if p.last_seq.is_some_and(|l| l >= seq) {
        fail(&mut w, format!("event {seq} arrived twice or out of order"));
        return;
    }
    let allowed = p.subs.iter().any(|s| {
        s.begin <= now && s.end.map_or(true, |e| e > at) && s.ev.map_or(true, |e| e == id)
    });
    if !allowed {
        fail(
            &mut w,
            format!("event {seq} with id {id} arrived without a subscription"),
        );
        return;
    }
    if let Some(&m) = p.must.front() {
        if m < seq {
            fail(&mut w, format!("event {m} did not arrive before event {seq}"));
            return;
        }
    }
    let p = &mut w.proxies[pid];
    p.last_seq = Some(seq);
    if p.must.front() == Some(&seq) {
        p.must.pop_front();
    }
}

async fn reply_job(cx: Cx, idx: usize, reply: Reply, job: JobGuard) {
    let r = reply.get().await;
    let s = job.end("call", &r);
    let mut w = cx.w.borrow_mut();
    w.calls[idx].finished = true;
    w.hit("replies received");
    let c = &w.calls[idx];
    let answered = c.answered;
    let svc = w.svcs[c.svc].id.cookie.0;
    let (i, pad) = (idx as u32, idx as u32 % 5);
    let ok = match &r {
        Ok((id, args)) => {
            *id == c.func
                && match (answered, args) {
                    (Some(Beh::Ok), Ok(v)) => arrived(v, &[i, 1], pad),
                    (Some(Beh::Err), Err(v)) => arrived(v, &[i, 2], pad),
                    (Some(Beh::Done), Ok(v)) => variants::is_unit(v),
                    _ => false,
                }
        }
        // The client itself turns calls down once the service was dropped.
        Err(Error::InvalidService) => !w.svcs[c.svc].alive || w.bus.gone_within(svc, s.lo, s.hi),
        Err(Error::CallAborted) => matches!(answered, Some(Beh::Abort | Beh::Drop)),
        Err(Error::InvalidFunction(_)) => answered == Some(Beh::InvalidFunction),
        Err(Error::InvalidArguments(_)) => answered == Some(Beh::InvalidArgs),
        Err(Error::Shutdown) => true,
        Err(_) => false,
    };
    if !ok {
        w.fail(
            "call-result",
            &["C02", "C06"],
            format!("call {idx}, answered {answered:?}, returned {r:?}"),
        );
    }
}

// ---------------------------------------------------------------------------------------------
// Channels

enum S {
    Unclaimed(UnclaimedSender),
    Pending(PendingSender),
    Est(Tx),
}

enum R {
    Unclaimed(UnclaimedReceiver),
    Pending(PendingReceiver),
    Est(Rx),
}

pub fn create_channel(cx: &Cx, client: usize, handle: Handle, cap: Option<u32>) {
    let job = cx.begin(client, Wait::Req("create_channel"));
    let cx2 = cx.clone();
    cx.spawn(client, "create channel", async move {
        let b = handle.create_low_level_channel();
        let high = handle.create_channel::<SerializedValue>();
        let r = match (cap, cx2.alt(2)) {
            (None, 0) => b
                .claim_sender()
                .await
                .map(|(s, r)| (s.cookie(), S::Pending(s), R::Unclaimed(r))),
            (None, _) => high.claim_sender().await.map(|(s, r)| {
                let (s, r) = (s.into_lowlevel(), r.into_lowlevel());
                (r.cookie(), S::Pending(s), R::Unclaimed(r))
            }),
            (Some(cap), 0) => b
                .claim_receiver(cap)
                .await
                .map(|(s, r)| (r.cookie(), S::Unclaimed(s), R::Pending(r))),
            (Some(cap), _) => high.claim_receiver(cap).await.map(|(s, r)| {
                let (s, r) = (s.into_lowlevel(), r.into_lowlevel());
                (s.cookie(), S::Unclaimed(s), R::Pending(r))
            }),
        };
        drop(handle);
        let _ = job.end("create_channel", &r);
        unexpected(&cx2.w, "create_channel", &r);
        let Ok((cookie, s, r)) = r else {
            return;
        };
        let chan = {
            let mut w = cx2.w.borrow_mut();
            w.hit("channels created");
            let chan = w.chans.len();
            w.chans.push(ChanRec {
                id: cookie.0,
                ends: Default::default(),
                sent: 0,
                consumed: 0,
                pads: Vec::new(),
                cap,
            });
            let own = if cap.is_none() { 0 } else { 1 };
            w.chans[chan].ends[own].owner = Some(client);
            chan
        };
        start_sender(&cx2, chan, client, s, None);
        start_receiver(&cx2, chan, client, r, None);
    });
}

/// Binds an end of somebody's channel and claims it.
pub fn race_claim(cx: &Cx, chan: usize, end: usize, client: usize, handle: Handle, cap: u32) {
    let cookie = ChannelCookie(cx.w.borrow().chans[chan].id);
    if end == 0 {
        let s = UnboundSender::new(cookie).bind(handle);
        start_sender(cx, chan, client, S::Unclaimed(s), Some(ChanCmd::Claim(0)));
    } else {
        let r = UnboundReceiver::new(cookie).bind(handle);
        start_receiver(cx, chan, client, R::Unclaimed(r), Some(ChanCmd::Claim(cap)));
    }
}

fn hold(cx: &Cx, chan: usize, end: usize, client: usize) -> Inbox<ChanCmd> {
    let inbox = Inbox::new();
    let mut w = cx.w.borrow_mut();
    let e = &mut w.chans[chan].ends[end];
    e.holders.push(client);
    e.actors.push(inbox.clone());
    inbox
}

fn start_sender(cx: &Cx, chan: usize, client: usize, s: S, first: Option<ChanCmd>) {
    let inbox = hold(cx, chan, 0, client);
    if let Some(f) = first {
        inbox.push(f);
    }
    // The end is also given up if the task is never polled.
    let g = EndGuard {
        cx: cx.clone(),
        chan,
        end: 0,
        owned: matches!(s, S::Pending(_) | S::Est(_)),
        armed: true,
        inbox,
        client,
    };
    cx.spawn(client, "sender", sender_actor(g, s));
}

fn start_receiver(cx: &Cx, chan: usize, client: usize, r: R, first: Option<ChanCmd>) {
    let inbox = hold(cx, chan, 1, client);
    if let Some(f) = first {
        inbox.push(f);
    }
    // The end is also given up if the task is never polled.
    let g = EndGuard {
        cx: cx.clone(),
        chan,
        end: 1,
        owned: matches!(r, R::Pending(_) | R::Est(_)),
        armed: true,
        inbox,
        client,
    };
    cx.spawn(client, "receiver", receiver_actor(g, r));
}

/// Notes on drop that the end was given up.
struct EndGuard {
    cx: Cx,
    chan: usize,
    end: usize,
    /// Owned by this holder.
    owned: bool,
    /// Whether dropping does anything.
    armed: bool,
    inbox: Inbox<ChanCmd>,
    client: usize,
}

impl EndGuard {
    fn closing(&self) {
        let mut w = self.cx.w.borrow_mut();
        let e = &mut w.chans[self.chan].ends[self.end];
        e.close_tried = true;
        if self.owned {
            e.closed = true;
        } else {
            e.other_close.push(self.client);
        }
    }
}

impl Drop for EndGuard {
    fn drop(&mut self) {
        self.inbox.close();
        if self.armed {
            self.closing();
        }
        let mut w = self.cx.w.borrow_mut();
        let e = &mut w.chans[self.chan].ends[self.end];
        if self.owned {
            e.reading = false;
            e.watching = false;
        }
    }
}

fn begin_claim(cx: &Cx, chan: usize, end: usize, client: usize, cap: u32) -> usize {
    let mut w = cx.w.borrow_mut();
    let c = &mut w.chans[chan];
    c.ends[end].tries.push(ClaimTry {
        client,
        done: None,
        cap,
    });
    c.ends[end].tries.len() - 1
}

fn judge_claim(cx: &Cx, chan: usize, end: usize, client: usize, t: usize, r: Result<(), Error>) {
    let mut w = cx.w.borrow_mut();
    let other_closing = w.end_closing(chan, 1 - end);
    let e = &mut w.chans[chan].ends[end];
    // The broker may have accepted a claim whose client has shut down.
    e.tries[t].done = match r {
        Err(Error::Shutdown) => None,
        _ => Some(r.is_ok()),
    };
    match r {
        Ok(()) => {
            if e.owner.is_some() {
                w.fail(
                    "claimed-twice",
                    &["C05", "C06"],
                    "a channel end was claimed twice".into(),
                );
                return;
            }
            e.owner = Some(client);
            w.hit("channel ends claimed");
        }
        Err(Error::InvalidChannel) => {
            let others = e
                .tries
                .iter()
                .enumerate()
                .any(|(i, t2)| i != t && t2.done != Some(false));
            if !others && e.owner.is_none() && !e.close_tried && !other_closing {
                w.fail(
                    "claim",
                    &["C05", "C06"],
                    "claiming an unclaimed channel end failed".into(),
                );
            }
            w.hit("failed claims");
        }
        Err(Error::Shutdown) => {}
        Err(e) => w.fail("claim", &["C06"], format!("claiming failed with {e:?}")),
    }
}

fn judge_establish(cx: &Cx, chan: usize, end: usize, r: Result<(), Error>) {
    let mut w = cx.w.borrow_mut();
    let o = &w.chans[chan].ends[1 - end];
    let claimable = o.owner.is_some() || o.tries.iter().any(|t| t.done != Some(false));
    match r {
        Ok(()) if !claimable => w.fail(
            "establish",
            &["C05", "C06"],
            "a channel was established although nobody claimed its other end".into(),
        ),
        Ok(()) => w.hit("channels established"),
        Err(Error::InvalidChannel) => {
            if !w.end_closing(chan, 1 - end) {
                w.fail(
                    "establish",
                    &["C05", "C06"],
                    "establishing failed although the other end is not closed".into(),
                );
            }
        }
        Err(Error::Shutdown) => {}
        Err(e) => w.fail("establish", &["C06"], format!("establishing failed with {e:?}")),
    }
}

fn end_establish<T>(cx: &Cx, chan: usize, end: usize, job: JobGuard, r: &Result<T, Error>) {
    // The client cancels it when another of its handles has closed this end.
    if matches!(r, Err(Error::Shutdown)) && cx.w.borrow().end_closing(chan, end) {
        job.end_plain("establish");
    } else {
        job.end(["establish sender", "establish receiver"][end], r);
    }
}

fn judge_close(cx: &Cx, chan: usize, end: usize, r: Result<(), Error>) {
    let mut w = cx.w.borrow_mut();
    let e = &w.chans[chan].ends[end];
    // An unclaimed end may have been claimed or closed by others.
    let contested = e.holders.len() > 1
        || !e.tries.is_empty()
        || e.owner.is_none() && w.end_closing(chan, 1 - end);
    match r {
        Ok(()) | Err(Error::Shutdown) => {}
        Err(Error::InvalidChannel) if contested => {}
        Err(e) => w.fail(
            "close",
            &["C05", "C06"],
            format!("closing a channel end failed with {e:?}"),
        ),
    }
}

async fn sender_actor(mut g: EndGuard, s: S) {
    let (cx, chan, client) = (g.cx.clone(), g.chan, g.client);
    let inbox = g.inbox.clone();
    let mut s = s;
    let mut watch = false;
    enum N {
        Cmd(ChanCmd),
        Closed,
    }
    loop {
        let n = poll_fn(|ctx| {
            if let Some(c) = inbox.pop(ctx) {
                return Poll::Ready(N::Cmd(c));
            }
            match &mut s {
                S::Est(s) if watch => {
                    let how = cx.alt(2);
                    s.poll_receiver_closed(how, ctx).map(|()| N::Closed)
                }
                _ => Poll::Pending,
            }
        })
        .await;
        match n {
            N::Closed => {
                watch = false;
                let mut w = cx.w.borrow_mut();
                w.chans[chan].ends[0].watching = false;
                w.hit("receiver closures seen");
                if !w.end_closing(chan, 1) && !w.end_closing(chan, 0) && !w.stopping(client) {
                    w.fail(
                        "receiver-closed",
                        &["C05", "C06"],
                        "a receiver was reported closed although it is open".into(),
                    );
                }
            }
            N::Cmd(ChanCmd::Watch) => {
                if let S::Est(x) = s {
                    let x = x.flip();
                    let same = x.cookie().0 == cx.w.borrow().chans[chan].id;
                    if !same {
                        not_closed(&cx, "the cookie", x.cookie());
                    }
                    s = S::Est(x);
                    watch = true;
                    cx.w.borrow_mut().chans[chan].ends[0].watching = true;
                }
            }
            N::Cmd(ChanCmd::Drop) => return,
            N::Cmd(ChanCmd::Read(_)) => {}
            N::Cmd(ChanCmd::Unbind(to)) => {
                if let S::Unclaimed(u) = s {
                    g.armed = false;
                    let u = u.unbind();
                    let h = {
                        let w = cx.w.borrow();
                        w.clients[to].handle.clone()
                    };
                    if let Some(h) = h {
                        start_sender(&cx, chan, to, S::Unclaimed(u.bind(h)), None);
                    }
                    return;
                }
            }
            N::Cmd(ChanCmd::Claim(_)) => {
                if let S::Unclaimed(u) = s {
                    let t = begin_claim(&cx, chan, 0, client, 0);
                    let job = cx.begin(client, Wait::Req("claim sender"));
                    let r = variants::claim_sender(u, cx.alt(4)).await;
                    job.end("claim sender", &r);
                    judge_claim(&cx, chan, 0, client, t, r.as_ref().map(|_| ()).map_err(|e| *e));
                    match r {
                        Ok(x) => {
                            g.owned = true;
                            cx.w.borrow_mut().chans[chan].ends[0].established = true;
                            s = S::Est(x);
                        }
                        Err(_) => {
                            g.armed = false;
                            return;
                        }
                    }
                }
            }
            N::Cmd(ChanCmd::Establish) => {
                if let S::Pending(p) = s {
                    let job = cx.begin(client, Wait::Establish { chan, end: 0 });
                    let r = variants::establish_sender(p, cx.alt(4)).await;
                    end_establish(&cx, chan, 0, job, &r);
                    judge_establish(&cx, chan, 0, r.as_ref().map(|_| ()).map_err(|e| *e));
                    match r {
                        Ok(x) => {
                            cx.w.borrow_mut().chans[chan].ends[0].established = true;
                            s = S::Est(x);
                        }
                        Err(_) => return,
                    }
                }
            }
            N::Cmd(ChanCmd::Send { n, pad }) => {
                let S::Est(tx) = &mut s else {
                    continue;
                };
                for _ in 0..n {
                    let i = cx.w.borrow().chans[chan].sent;
                    let item = payload(&[i, chan as u32], pad);
                    {
                        let pads = &mut cx.w.borrow_mut().chans[chan].pads;
                        pads.truncate(i as usize);
                        pads.push(pad);
                    }
                    let job = cx.begin(client, Wait::Send(chan));
                    let how = cx.alt(8);
                    let r = if cx.alt(10) == 9 {
                        // Anything may happen between the two halves.
                        let r = tx.ready().await;
                        job.end("send_ready", &r);
                        match r {
                            Ok(()) => {
                                pause(cx.alt(40)).await;
                                if cx.alt(2) == 1 {
                                    send_bad(&cx, tx, how);
                                }
                                let job = cx.begin(client, Wait::Req("start_send"));
                                let r = tx.start(item, how);
                                job.end("start_send", &r);
                                r
                            }
                            Err(e) => Err(e),
                        }
                    } else {
                        if cx.alt(20) == 19 && matches!(at_once(tx.ready()).await, Some(Ok(()))) {
                            send_bad(&cx, tx, how);
                        }
                        let r = tx.send(item, how).await;
                        job.end("send_item", &r);
                        r
                    };
                    let mut w = cx.w.borrow_mut();
                    match r {
                        Ok(()) => {
                            w.hit("items sent");
                            let c = &mut w.chans[chan];
                            c.sent += 1;
                            let (sent, consumed, cap) = (c.sent, c.consumed, c.caps().1);
                            if sent - consumed > cap {
                                w.fail(
                                    "capacity",
                                    &["C05"],
                                    format!("{sent} items were sent and {consumed} consumed with a capacity of {cap}"),
                                );
                            }
                        }
                        Err(Error::InvalidChannel) => {
                            if !w.end_closing(chan, 1) && !w.end_closing(chan, 0) {
                                w.fail(
                                    "send",
                                    &["C05", "C06"],
                                    "sending failed although the receiver is open".into(),
                                );
                            }
                            break;
                        }
                        Err(Error::Shutdown) => break,
                        Err(e) => {
                            w.fail("send", &["C06"], format!("sending failed with {e:?}"));
                            break;
                        }
                    }
                }
            }
            N::Cmd(ChanCmd::Close { cancel }) => {
                g.closing();
                let mut cancel = cancel;
                loop {
                    let how = cx.alt(3);
                    let job = cx.begin(client, Wait::Req("close sender"));
                    let r = maybe_cancel(cancel, async {
                        match &mut s {
                            S::Unclaimed(x) if how == 0 => x.close().await,
                            S::Unclaimed(x) => poll_fn(|cx| x.poll_close(cx)).await,
                            S::Pending(x) if how == 0 => x.close().await,
                            S::Pending(x) => poll_fn(|cx| x.poll_close(cx)).await,
                            S::Est(x) => x.close(how).await,
                        }
                    })
                    .await;
                    let finished = r.is_some();
                    if let Some(r) = r {
                        job.end("close sender", &r);
                        judge_close(&cx, chan, 0, r);
                    } else {
                        drop(job);
                    }
                    if cx.alt(3) != 1 {
                        return;
                    }
                    if let S::Est(x) = &mut s {
                        after_close_sender(&cx, chan, x).await;
                    }
                    if finished {
                        break;
                    }
                    cancel = cx.alt(4) == 1;
                }
                let r = at_once(async {
                    match &mut s {
                        S::Unclaimed(x) => x.close().await,
                        S::Pending(x) => x.close().await,
                        S::Est(x) => x.close(0).await,
                    }
                })
                .await;
                if r != Some(Ok(())) {
                    not_closed(&cx, "closing again", r);
                }
                return;
            }
        }
    }
}

/// Nothing is sent and no capacity is used.
fn send_bad(cx: &Cx, tx: &mut Tx, how: u32) {
    let r = tx.start_bad(how);
    let mut w = cx.w.borrow_mut();
    w.hit("unserializable values used");
    if !variants::unserialized(&r) && r != Err(Error::InvalidChannel) {
        w.fail(
            "unserializable",
            &["C05", "C06"],
            format!("sending an unserializable value returned {r:?}"),
        );
    }
}

/// An item that the receiver could not make sense of.
fn judge_refused(cx: &Cx, chan: usize) {
    let mut w = cx.w.borrow_mut();
    w.hit("items refused");
    let c = &mut w.chans[chan];
    let surplus = c.consumed >= c.sent + 1;
    c.consumed += 1;
    if surplus {
        let m = "an item arrived that was not sent";
        w.fail("items", &["C05", "C06"], m.into());
    }
}

fn judge_item(cx: &Cx, chan: usize, item: &SerializedValue) {
    let v = Arrived::new(item);
    let mut w = cx.w.borrow_mut();
    let k = w.chans[chan].consumed;
    w.hit("items received");
    let pad = w.chans[chan].pads.get(k as usize);
    let ok = v.as_ref().zip(pad).is_some_and(|(v, &p)| v.is(&[k, chan as u32], p));
    if !ok || k >= w.chans[chan].sent + 1 {
        let head = v.map(|v| v.head);
        w.fail(
            "items",
            &["C05", "C06"],
            format!("item {k} of a channel was expected, {head:?} arrived"),
        );
    }
    w.chans[chan].consumed += 1;
}

/// Polls once; what is asked for must not have to wait.
async fn at_once<T>(fut: impl Future<Output = T>) -> Option<T> {
    maybe_cancel(true, fut).await
}

fn not_closed(cx: &Cx, what: &str, r: impl std::fmt::Debug) {
    cx.w.borrow_mut().fail(
        "after-close",
        &["C05", "C06"],
        format!("{what} after closing a channel end returned {r:?}"),
    );
}

/// A closed sender stays closed.
async fn after_close_sender(cx: &Cx, chan: usize, tx: &mut Tx) {
    let i = cx.w.borrow().chans[chan].sent;
    let (how, how2) = (cx.alt(8), cx.alt(2));
    let r = at_once(tx.send(payload(&[i, chan as u32], 0), how)).await;
    if r != Some(Err(Error::InvalidChannel)) {
        not_closed(cx, "sending", r);
    }
    let r = at_once(poll_fn(|ctx| tx.poll_receiver_closed(how2, ctx))).await;
    if r.is_none() {
        not_closed(cx, "waiting for the receiver's closure", r);
    }
    cx.w.borrow_mut().hit("closed senders used");
}

/// A closed receiver returns what it has, then ends.
async fn after_close_receiver(cx: &Cx, chan: usize, rx: &mut Rx) {
    loop {
        let how = cx.alt(6);
        match at_once(poll_fn(|ctx| rx.poll_next(how, ctx))).await {
            Some(Ok(Some(item))) => judge_item(cx, chan, &item),
            Some(Ok(None)) if rx.is_terminated() => break,
            r => {
                not_closed(cx, "receiving", r.map(|r| r.map(|_| ())));
                break;
            }
        }
    }
    cx.w.borrow_mut().hit("closed receivers drained");
}

async fn receiver_actor(mut g: EndGuard, r: R) {
    let (cx, chan, client) = (g.cx.clone(), g.chan, g.client);
    let inbox = g.inbox.clone();
    let mut r = r;
    let mut want = true;
    enum N {
        Cmd(ChanCmd),
        Item(Result<Option<SerializedValue>, Error>),
        Refused,
    }
    loop {
        let n = poll_fn(|ctx| {
            if let Some(c) = inbox.pop(ctx) {
                return Poll::Ready(N::Cmd(c));
            }
            let go = {
                let w = cx.w.borrow();
                let e = &w.chans[chan].ends[1];
                e.reading && !e.ended
            };
            match &mut r {
                R::Est(r) if go && cx.alt(16) == 15 => {
                    r.poll_refuse(cx.alt(2), ctx).map(|x| match x {
                        Ok(true) => N::Refused,
                        Ok(false) => N::Item(Ok(None)),
                        Err(e) => N::Item(Err(e)),
                    })
                }
                R::Est(r) if go => {
                    let how = cx.alt(6);
                    r.poll_next(how, ctx).map(N::Item)
                }
                _ => Poll::Pending,
            }
        })
        .await;
        match n {
            N::Item(Err(e)) => cx.w.borrow_mut().fail(
                "items",
                &["C05", "C06"],
                format!("receiving an item failed with {e:?}"),
            ),
            N::Item(Ok(Some(item))) => judge_item(&cx, chan, &item),
            N::Refused => judge_refused(&cx, chan),
            N::Item(Ok(None)) => {
                let terminated = matches!(&r, R::Est(r) if r.is_terminated());
                let mut w = cx.w.borrow_mut();
                w.chans[chan].ends[1].ended = true;
                w.hit("item streams ended");
                if !terminated {
                    w.fail(
                        "items-ended",
                        &["C05", "C06"],
                        "a receiver that returned None is not terminated".into(),
                    );
                }
                let own = w.stopping(client) || w.end_closing(chan, 1);
                let c = &w.chans[chan];
                let (sent, consumed) = (c.sent, c.consumed);
                let s = &c.ends[0];
                let graceful = s.closed
                    && s.other_close.is_empty()
                    && s.owner.is_some_and(|o| !w.stopping(o));
                if !own && !w.end_closing(chan, 0) {
                    w.fail(
                        "items-ended",
                        &["C05", "C06"],
                        "a receiver ended although its sender is open".into(),
                    );
                } else if !own && graceful && sent != consumed {
                    w.fail(
                        "items-lost",
                        &["C05", "C06"],
                        format!("a receiver ended after {consumed} of {sent} items"),
                    );
                }
            }
            N::Cmd(ChanCmd::Drop) => return,
            N::Cmd(ChanCmd::Read(b)) => {
                want = b;
                if let R::Est(x) = r {
                    let x = x.flip();
                    let same = x.cookie().0 == cx.w.borrow().chans[chan].id;
                    if !same {
                        not_closed(&cx, "the cookie", x.cookie());
                    }
                    r = R::Est(x);
                    cx.w.borrow_mut().chans[chan].ends[1].reading = b;
                }
            }
            N::Cmd(ChanCmd::Watch | ChanCmd::Send { .. }) => {}
            N::Cmd(ChanCmd::Unbind(to)) => {
                if let R::Unclaimed(u) = r {
                    g.armed = false;
                    let u = u.unbind();
                    let h = {
                        let w = cx.w.borrow();
                        w.clients[to].handle.clone()
                    };
                    if let Some(h) = h {
                        start_receiver(&cx, chan, to, R::Unclaimed(u.bind(h)), None);
                    }
                    return;
                }
            }
            N::Cmd(ChanCmd::Claim(cap)) => {
                if let R::Unclaimed(u) = r {
                    let t = begin_claim(&cx, chan, 1, client, cap);
                    let job = cx.begin(client, Wait::Req("claim receiver"));
                    let res = variants::claim_receiver(u, cap, cx.alt(4)).await;
                    job.end("claim receiver", &res);
                    judge_claim(&cx, chan, 1, client, t, res.as_ref().map(|_| ()).map_err(|e| *e));
                    match res {
                        Ok(x) => {
                            g.owned = true;
                            let mut w = cx.w.borrow_mut();
                            w.chans[chan].ends[1].established = true;
                            w.chans[chan].ends[1].reading = want;
                            drop(w);
                            r = R::Est(x);
                        }
                        Err(_) => {
                            g.armed = false;
                            return;
                        }
                    }
                }
            }
            N::Cmd(ChanCmd::Establish) => {
                if let R::Pending(p) = r {
                    let job = cx.begin(client, Wait::Establish { chan, end: 1 });
                    let res = variants::establish_receiver(p, cx.alt(4)).await;
                    end_establish(&cx, chan, 1, job, &res);
                    judge_establish(&cx, chan, 1, res.as_ref().map(|_| ()).map_err(|e| *e));
                    match res {
                        Ok(x) => {
                            let mut w = cx.w.borrow_mut();
                            w.chans[chan].ends[1].established = true;
                            w.chans[chan].ends[1].reading = want;
                            drop(w);
                            r = R::Est(x);
                        }
                        Err(_) => return,
                    }
                }
            }
            N::Cmd(ChanCmd::Close { cancel }) => {
                g.closing();
                let mut cancel = cancel;
                loop {
                    let how = cx.alt(3);
                    let job = cx.begin(client, Wait::Req("close receiver"));
                    let res = maybe_cancel(cancel, async {
                        match &mut r {
                            R::Unclaimed(x) if how == 0 => x.close().await,
                            R::Unclaimed(x) => poll_fn(|cx| x.poll_close(cx)).await,
                            R::Pending(x) if how == 0 => x.close().await,
                            R::Pending(x) => poll_fn(|cx| x.poll_close(cx)).await,
                            R::Est(x) => x.close(how).await,
                        }
                    })
                    .await;
                    let finished = res.is_some();
                    if let Some(res) = res {
                        job.end("close receiver", &res);
                        judge_close(&cx, chan, 1, res);
                    } else {
                        drop(job);
                    }
                    if cx.alt(3) != 1 {
                        return;
                    }
                    if let R::Est(x) = &mut r {
                        after_close_receiver(&cx, chan, x).await;
                    }
                    if finished {
                        break;
                    }
                    cancel = cx.alt(4) == 1;
                }
                let res = at_once(async {
                    match &mut r {
                        R::Unclaimed(x) => x.close().await,
                        R::Pending(x) => x.close().await,
                        R::Est(x) => x.close(0).await,
                    }
                })
                .await;
                if res != Some(Ok(())) {
                    not_closed(&cx, "closing again", res);
                }
                return;
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Bus listeners

pub fn create_listener(cx: &Cx, client: usize, handle: Handle) {
    let job = cx.begin(client, Wait::Req("create_bus_listener"));
    let cx2 = cx.clone();
    cx.spawn(client, "listener", async move {
        let r = match cx2.alt(2) {
            0 => BusListener::new(&handle).await,
            _ => handle.create_bus_listener().await,
        };
        drop(handle);
        job.end("create_bus_listener", &r);
        unexpected(&cx2.w, "create_bus_listener", &r);
        if let Ok(l) = r {
            let inbox = Inbox::new();
            let id = {
                let mut w = cx2.w.borrow_mut();
                w.hit("bus listeners created");
                w.listeners.push(LisRec {
                    client,
                    inbox: inbox.clone(),
                    filters: Vec::new(),
                    started: false,
                    destroyed: false,
                    unknown: false,
                    cur: None,
                    reading: true,
                    ended: false,
                    alive: true,
                });
                w.listeners.len() - 1
            };
            listener_actor(cx2, id, client, l, inbox).await;
        }
    });
}

fn listener_event(cx: &Cx, id: usize, ev: Option<BusEvent>) {
    let mut w = cx.w.borrow_mut();
    let l = &mut w.listeners[id];
    match ev {
        Some(ev) => match &mut l.cur {
            Some(s) => {
                s.events.push(ev);
                s.drained = false;
                w.hit("bus events received");
            }
            None if l.unknown => {}
            None => w.fail(
                "listener-event",
                &["C10", "C06"],
                "a bus listener that was never started produced an event".into(),
            ),
        },
        None => {
            l.ended = true;
            if let Some(s) = &mut l.cur {
                s.drained = true;
            }
        }
    }
}

async fn listener_actor(
    cx: Cx,
    id: usize,
    client: usize,
    mut l: BusListener,
    inbox: Inbox<LisCmd>,
) {
    let w2 = cx.w.clone();
    let inbox2 = inbox.clone();
    let _end = OnDrop(move || {
        inbox2.close();
        w2.borrow_mut().listeners[id].alive = false;
    });
    enum N {
        Cmd(LisCmd),
        Ev(Option<BusEvent>),
    }
    let mut quota = u32::MAX;
    loop {
        let n = poll_fn(|ctx| {
            if let Some(c) = inbox.pop(ctx) {
                return Poll::Ready(N::Cmd(c));
            }
            let go = {
                let w = cx.w.borrow();
                w.listeners[id].reading && !w.listeners[id].ended
            };
            if go {
                let how = cx.alt(3);
                return variants::poll_listener(&mut l, how, ctx).map(N::Ev);
            }
            Poll::Pending
        })
        .await;
        match n {
            N::Ev(ev) => {
                if ev.is_none() && !(l.is_finished() && l.is_terminated()) {
                    cx.w.borrow_mut().fail(
                        "listener-finished",
                        &["C10", "C06"],
                        "a bus listener returned None without being finished".into(),
                    );
                }
                listener_event(&cx, id, ev);
                let odd = {
                    let w = cx.w.borrow();
                    let r = &w.listeners[id];
                    match (&r.cur, ev) {
                        // Events are only returned while their scope is active.
                        (Some(c), Some(_)) => l.scope() != Some(c.scope),
                        (None, Some(_)) => l.scope().is_none(),
                        _ => false,
                    }
                };
                if odd {
                    cx.w.borrow_mut().fail(
                        "listener-scope",
                        &["C10"],
                        "a bus listener returned an event while it reports another scope".into(),
                    );
                }
                if ev.is_some() {
                    quota = quota.saturating_sub(1);
                    cx.w.borrow_mut().listeners[id].reading = quota > 0;
                }
            }
            N::Cmd(LisCmd::Drop) => return,
            N::Cmd(LisCmd::Read(n)) => {
                quota = n;
                cx.w.borrow_mut().listeners[id].reading = n > 0;
            }
            N::Cmd(LisCmd::Add(f)) => {
                let r = l.add_filter(f);
                filter_changed(&cx, id, r, &l, |v| {
                    if !v.contains(&f) {
                        v.push(f)
                    }
                })
            }
            N::Cmd(LisCmd::Remove(f)) => {
                let r = l.remove_filter(f);
                filter_changed(&cx, id, r, &l, |v| v.retain(|g| *g != f))
            }
            N::Cmd(LisCmd::Clear) => {
                let r = l.clear_filters();
                filter_changed(&cx, id, r, &l, |v| v.clear())
            }
            N::Cmd(LisCmd::Start { scope, cancel }) => {
                let drain = {
                    let w = cx.w.borrow();
                    let r = &w.listeners[id];
                    !r.unknown && !r.started && !r.destroyed && r.cur.is_some()
                };
                if drain {
                    let job = cx.begin(client, Wait::Drain);
                    loop {
                        let ev = l.next_event().await;
                        let end = ev.is_none();
                        listener_event(&cx, id, ev);
                        if end {
                            break;
                        }
                    }
                    job.end_plain("drain listener");
                    let mut w = cx.w.borrow_mut();
                    super::checks::listener_session(&mut w, id, true);
                    w.listeners[id].cur = None;
                }
                let job = cx.begin(client, Wait::Req("start listener"));
                let r = maybe_cancel(cancel, l.start(scope)).await;
                let mut w = cx.w.borrow_mut();
                w.listeners[id].ended = false;
                let Some(r) = r else {
                    w.listeners[id].unknown = true;
                    w.listeners[id].cur = None;
                    w.hit("cancelled listener starts");
                    drop(w);
                    continue;
                };
                drop(w);
                let s = job.end("start listener", &r);
                let mut w = cx.w.borrow_mut();
                let rec = &mut w.listeners[id];
                let ok = match r {
                    Ok(()) => {
                        let ok = rec.unknown || (!rec.started && !rec.destroyed);
                        rec.started = true;
                        let filters = rec.filters.clone();
                        if !rec.unknown {
                            rec.cur = Some(LisSession {
                                filters,
                                scope,
                                lo: s.lo,
                                hi: s.hi,
                                stop: None,
                                events: Vec::new(),
                                dirty: false,
                                drained: false,
                            });
                        }
                        ok
                    }
                    Err(Error::BusListenerAlreadyStarted) => rec.started || rec.unknown,
                    Err(Error::InvalidBusListener) => rec.destroyed || rec.unknown,
                    Err(Error::Shutdown) => true,
                    Err(_) => false,
                };
                if !ok {
                    w.fail(
                        "start-listener",
                        &["C10", "C06"],
                        format!("starting a bus listener returned {r:?}"),
                    );
                }
                w.hit("bus listener starts");
            }
            N::Cmd(LisCmd::Stop { cancel }) => {
                let job = cx.begin(client, Wait::Req("stop listener"));
                let r = maybe_cancel(cancel, l.stop()).await;
                let mut w = cx.w.borrow_mut();
                w.listeners[id].ended = false;
                let Some(r) = r else {
                    w.listeners[id].unknown = true;
                    w.listeners[id].cur = None;
                    drop(w);
                    continue;
                };
                drop(w);
                let s = job.end("stop listener", &r);
                let mut w = cx.w.borrow_mut();
                let rec = &mut w.listeners[id];
                let ok = match r {
                    Ok(()) => {
                        let ok = rec.started || rec.unknown;
                        rec.started = false;
                        if let Some(c) = &mut rec.cur {
                            c.stop = Some((s.lo, s.hi));
                        }
                        ok
                    }
                    Err(Error::BusListenerNotStarted) => !rec.started || rec.unknown,
                    Err(Error::InvalidBusListener) => rec.destroyed || rec.unknown,
                    Err(Error::Shutdown) => true,
                    Err(_) => false,
                };
                if !ok {
                    w.fail(
                        "stop-listener",
                        &["C10", "C06"],
                        format!("stopping a bus listener returned {r:?}"),
                    );
                }
            }
            N::Cmd(LisCmd::Destroy { cancel }) => {
                let job = cx.begin(client, Wait::Req("destroy listener"));
                let r = maybe_cancel(cancel, l.destroy()).await;
                let mut w = cx.w.borrow_mut();
                if let Some(c) = &mut w.listeners[id].cur {
                    c.dirty = true;
                }
                w.listeners[id].unknown |= r.is_none();
                drop(w);
                let Some(r) = r else {
                    continue;
                };
                job.end("destroy listener", &r);
                let mut w = cx.w.borrow_mut();
                let rec = &mut w.listeners[id];
                let ok = match r {
                    Ok(()) => {
                        let ok = !rec.destroyed;
                        rec.destroyed = true;
                        rec.ended = false;
                        ok
                    }
                    Err(Error::InvalidBusListener) => rec.destroyed || rec.unknown,
                    Err(Error::Shutdown) => true,
                    Err(_) => false,
                };
                if !ok {
                    w.fail(
                        "destroy-listener",
                        &["C10", "C06"],
                        format!("destroying a bus listener returned {r:?}"),
                    );
                }
            }
        }
    }
}

fn filter_changed(
    cx: &Cx,
    id: usize,
    r: Result<(), Error>,
    lis: &BusListener,
    f: impl FnOnce(&mut Vec<aldrin_core::BusListenerFilter>),
) {
    let mut w = cx.w.borrow_mut();
    let client = w.listeners[id].client;
    let l = &mut w.listeners[id];
    let before = l.filters.len();
    f(&mut l.filters);
    let changed = before != l.filters.len();
    let n = l.filters.len();
    let same = lis.num_filters() == n
        && lis.filters().count() == n
        && lis.has_any_filters() == (n > 0)
        && lis.has_no_filters() == (n == 0)
        && l.filters.iter().all(|f| lis.has_filter(*f))
        && lis.filters().all(|f| l.filters.contains(&f));
    if !same {
        w.fail(
            "filter-view",
            &["C10"],
            "a bus listener's filters are not those it was given".into(),
        );
    }
    match r {
        Ok(()) => {
            // A change without effect needs no client.
            if changed && w.clients[client].ended() {
                w.fail(
                    "op-after-end",
                    &["C15"],
                    "changing a filter succeeded after the client had stopped".into(),
                );
            }
            let l = &mut w.listeners[id];
            if l.started || changed {
                if let Some(c) = &mut l.cur {
                    if c.stop.is_none() {
                        c.dirty = true;
                    }
                }
            }
        }
        Err(Error::Shutdown) if w.stopping(client) => {}
        Err(e) => w.fail(
            "filter",
            &["C06", "C10"],
            format!("changing a filter failed with {e:?}"),
        ),
    }
}

// ---------------------------------------------------------------------------------------------
// Discoverers, lifetimes, lookups

fn services(v: &[Uuid]) -> Vec<ServiceUuid> {
    v.iter().map(|u| ServiceUuid(*u)).collect()
}

fn starts(cx: &Cx, client: usize) -> u64 {
    cx.w.borrow().clients[client].tap.borrow().starts
}

/// A discoverer that was built or restarted is at work: the broker said so.
fn started(cx: &Cx, client: usize, before: u64) {
    if starts(cx, client) == before {
        cx.w.borrow_mut().fail(
            "discoverer-not-started",
            &["C19", "C15"],
            "a discoverer was started successfully, but the broker never confirmed it".into(),
        );
    }
}

pub fn create_discoverer(
    cx: &Cx,
    client: usize,
    handle: Handle,
    entries: Vec<EntrySpec>,
    current: u32,
) {
    let job = cx.begin(client, Wait::Req("build discoverer"));
    let before = starts(cx, client);
    let cx2 = cx.clone();
    cx.spawn(client, "discoverer", async move {
        let r = {
            let mut b = handle.create_discoverer::<u32>();
            for e in &entries {
                b = match (e.obj, e.svcs.is_empty(), e.key % 2) {
                    (Some(o), true, 0) => b.bare_object(e.key, ObjectUuid(o)),
                    (Some(o), _, 0) => {
                        b.object_with_services(e.key, ObjectUuid(o), services(&e.svcs))
                    }
                    (None, _, 0) => b.any_object_with_services(e.key, services(&e.svcs)),
                    _ => b.add(e.key, e.obj.map(ObjectUuid), services(&e.svcs)),
                };
            }
            match current {
                0 => b.build().await,
                1 => b.build_current_only().await,
                _ => b.build_current_only_and_wait().await,
            }
        };
        drop(handle);
        let s = job.end("build discoverer", &r);
        unexpected(&cx2.w, "building a discoverer", &r);
        if r.is_ok() && !entries.is_empty() {
            started(&cx2, client, before);
        }
        if let Ok(d) = r {
            let inbox = Inbox::new();
            let id = {
                let mut w = cx2.w.borrow_mut();
                w.hit("discoverers created");
                w.discs.push(DiscRec {
                    client,
                    inbox: inbox.clone(),
                    entries,
                    current_only: current != 0,
                    lo: s.lo,
                    hi: s.hi,
                    events: Vec::new(),
                    silent: current == 2,
                    reading: true,
                    ended: false,
                    alive: true,
                    broken: false,
                    view: None,
                    view_error: None,
                });
                w.discs.len() - 1
            };
            discoverer_actor(cx2, id, client, d, inbox).await;
        }
    });
}

fn view(d: &Discoverer<u32>, entries: &[EntrySpec]) -> Result<Vec<(u32, Match)>, String> {
    let mut out = Vec::new();
    let mut n = 0;
    for e in entries {
        let mut mine = Vec::new();
        for it in d.entry_iter(e.key) {
            let o = it.object_id();
            let ids = if e.svcs.is_empty() {
                Vec::new()
            } else {
                it.service_ids(services(&e.svcs))
            };
            if it.key() != e.key {
                return Err("an entry's iterator returned another key".into());
            }
            if d.object_id(e.key, o.uuid) != Some(o) || !d.contains(e.key, o.uuid) {
                return Err("object_id and iter disagree".into());
            }
            if d.service_ids(e.key, o.uuid, services(&e.svcs)) != Some(ids.clone()) {
                return Err("service_ids and iter disagree".into());
            }
            for (u, id) in e.svcs.iter().zip(&ids) {
                if d.service_id(e.key, o.uuid, ServiceUuid(*u)) != Some(*id) {
                    return Err("service_id and iter disagree".into());
                }
            }
            let n: [ServiceId; 1] = match e.svcs.first() {
                Some(u) => it.service_ids_n(&[ServiceUuid(*u)]),
                None => [ServiceId::NIL],
            };
            if ids.first().is_some_and(|id| *id != n[0] || it.service_id(id.uuid) != n[0]) {
                return Err("service_ids and service_ids_n disagree".into());
            }
            if !e.svcs.is_empty()
                && d.service_ids_n(e.key, o.uuid, &[n[0].uuid]) != Some(n)
            {
                return Err("service_ids_n and iter disagree".into());
            }
            mine.push((e.key, (o, ids)));
        }
        n += mine.len();
        if d.contains_any(e.key) != !mine.is_empty() {
            return Err("contains_any and iter disagree".into());
        }
        for k in 0..4 {
            let u = ObjectUuid(obj_uuid(k));
            let has = mine.iter().any(|m| m.1 .0.uuid == u);
            let can_ask = e.obj.is_none_or(|o| o == u.0);
            if d.contains(e.key, u) != has || can_ask && d.object_id(e.key, u).is_some() != has {
                return Err("contains and iter disagree".into());
            }
        }
        out.extend(mine);
    }
    if d.entries().len() != entries.len()
        || !d.entries().all(|e| entries.iter().any(|x| x.key == e.key()))
    {
        return Err("entries doesn't return the entries".into());
    }
    let mut it = d.iter();
    let (lo, hi) = it.size_hint();
    if lo > n || hi.is_some_and(|hi| hi < n) {
        return Err("size_hint is wrong".into());
    }
    if it.by_ref().count() != n || it.next().is_some() {
        return Err("iter and entry_iter disagree".into());
    }
    Ok(out)
}

async fn discoverer_actor(
    cx: Cx,
    id: usize,
    client: usize,
    mut d: Discoverer<u32>,
    inbox: Inbox<DiscCmd>,
) {
    let w2 = cx.w.clone();
    let inbox2 = inbox.clone();
    let _end = OnDrop(move || {
        inbox2.close();
        w2.borrow_mut().discs[id].alive = false;
    });
    enum N {
        Cmd(DiscCmd),
        Ev(Option<aldrin::DiscovererEvent<u32>>),
    }
    let mut quota = u32::MAX;
    loop {
        let n = poll_fn(|ctx| {
            if let Some(c) = inbox.pop(ctx) {
                return Poll::Ready(N::Cmd(c));
            }
            let go = {
                let w = cx.w.borrow();
                w.discs[id].reading && !w.discs[id].ended
            };
            if go {
                let how = cx.alt(3);
                return variants::poll_discoverer(&mut d, how, ctx).map(N::Ev);
            }
            Poll::Pending
        })
        .await;
        match n {
            N::Cmd(DiscCmd::Drop) => return,
            N::Cmd(DiscCmd::Read(n)) => {
                quota = n;
                cx.w.borrow_mut().discs[id].reading = n > 0;
            }
            N::Cmd(DiscCmd::View) => {
                let entries = cx.w.borrow().discs[id].entries.clone();
                let v = view(&d, &entries);
                let mut w = cx.w.borrow_mut();
                match v {
                    Ok(v) => w.discs[id].view = Some(v),
                    Err(e) => w.discs[id].view_error = Some(e),
                }
            }
            N::Cmd(DiscCmd::Restart { current, cancel }) => {
                let job = cx.begin(client, Wait::Req("restart discoverer"));
                let before = starts(&cx, client);
                {
                    // The events of a session that is cut short are a prefix.
                    let mut w = cx.w.borrow_mut();
                    super::checks::discoverer_session(&mut w, id, false);
                }
                let r = maybe_cancel(cancel, async {
                    match current {
                        0 => d.restart().await,
                        1 => d.restart_current_only().await,
                        _ => d.restart_current_only_and_wait().await,
                    }
                })
                .await;
                let Some(r) = r else {
                    let mut w = cx.w.borrow_mut();
                    w.discs[id].broken = true;
                    w.discs[id].ended = false;
                    w.hit("cancelled discoverer restarts");
                    drop(w);
                    continue;
                };
                let s = job.end("restart discoverer", &r);
                // A restart that is dropped half-way leaves the listener stopped or started.
                let broken = cx.w.borrow().discs[id].broken;
                let tolerated = matches!(
                    r,
                    Err(Error::BusListenerNotStarted | Error::BusListenerAlreadyStarted)
                );
                if !broken || !tolerated {
                    unexpected(&cx.w, "restarting a discoverer", &r);
                }
                if r.is_ok() {
                    started(&cx, client, before);
                }
                let mut w = cx.w.borrow_mut();
                w.hit("discoverer restarts");
                let rec = &mut w.discs[id];
                // A restart after a cancelled one starts over.
                rec.broken |= r.is_err();
                rec.ended = false;
                rec.events.clear();
                rec.current_only = current != 0;
                rec.silent = current == 2;
                rec.lo = s.lo;
                rec.hi = s.hi;
            }
            N::Ev(Some(ev)) => {
                let (key, created, o) = (ev.key(), ev.is_created(), ev.object_id());
                let have = d.object_id(key, o.uuid);
                let svcs = cx.w.borrow().discs[id]
                    .entries
                    .iter()
                    .find(|e| e.key == key)
                    .map(|e| e.svcs.clone());
                let ids = match &svcs {
                    Some(v) if created && have == Some(o) => ev.service_ids(&d, services(v)),
                    _ => Vec::new(),
                };
                let known = ids
                    .iter()
                    .all(|i| i.object_id == o && cx.w.borrow().bus.live_within(i.cookie.0, 0, usize::MAX));
                if !known || svcs.is_none() {
                    cx.w.borrow_mut().fail(
                        "discoverer-state",
                        &["C19"],
                        "a discoverer's event has an unknown key or services".into(),
                    );
                }
                let mut w = cx.w.borrow_mut();
                tr!(w, "   discoverer {id}: key {key} created {created} {}", o.cookie);
                w.hit("discoverer events");
                if w.discs[id].silent && !w.discs[id].broken {
                    w.fail(
                        "discoverer-events",
                        &["C19"],
                        "a discoverer that had waited until it finished returned an event".into(),
                    );
                }
                if ev.is_destroyed() == created
                    || (have != created.then_some(o)) && !w.discs[id].broken
                {
                    w.fail(
                        "discoverer-state",
                        &["C19"],
                        format!("a discoverer's state contradicts the event it just returned (created {created}, has {have:?})"),
                    );
                }
                w.discs[id].events.push((key, created, o));
                quota = quota.saturating_sub(1);
                w.discs[id].reading = quota > 0;
            }
            N::Ev(None) => {
                let finished = d.is_finished() && d.is_terminated();
                let mut w = cx.w.borrow_mut();
                if !finished {
                    w.fail(
                        "discoverer-ended",
                        &["C19", "C06"],
                        "a discoverer returned None without being finished".into(),
                    );
                }
                w.discs[id].ended = true;
                let rec = &w.discs[id];
                if !rec.current_only
                    && !rec.broken
                    && !rec.entries.is_empty()
                    && !w.stopping(client)
                {
                    w.fail(
                        "discoverer-ended",
                        &["C19", "C06"],
                        "a discoverer ended although it is not restricted to current objects".into(),
                    );
                }
            }
        }
    }
}

pub fn create_lifetime(cx: &Cx, client: usize, handle: Handle, id: ObjectId) {
    let job = cx.begin(client, Wait::Req("create_lifetime"));
    let cx2 = cx.clone();
    cx.spawn(client, "lifetime", async move {
        let r = variants::lifetime(&handle, id, cx2.alt(4)).await;
        drop(handle);
        let s = job.end("create_lifetime", &r);
        unexpected(&cx2.w, "create_lifetime", &r);
        let Ok(lt) = r else {
            return;
        };
        let idx = {
            let mut w = cx2.w.borrow_mut();
            w.hit("lifetimes bound");
            w.lifes.push(LifeRec {
                client,
                id,
                lo: s.lo,
            });
            w.lifes.len() - 1
        };
        await_lifetime(cx2, client, idx, lt, id).await;
    });
}

async fn await_lifetime(cx: Cx, client: usize, idx: usize, mut lt: Lifetime, id: ObjectId) {
    let job = cx.begin(client, Wait::Lifetime(idx));
    let early = lt.has_ended() || lt.is_terminated() || lt.client().is_none();
    variants::ended(&mut lt, cx.alt(3)).await;
    let s = job.end_plain("lifetime");
    let again = at_once(variants::ended(&mut lt, cx.alt(3))).await;
    let mut w = cx.w.borrow_mut();
    w.hit("lifetimes ended");
    if w.bus.live(id.cookie.0, s.hi) && !w.stopping(client) {
        w.fail(
            "lifetime-early",
            &["C19"],
            "a lifetime ended although its scope is alive".into(),
        );
    }
    let late = lt.has_ended() && lt.is_terminated() && lt.client().is_none();
    if early || !late || again.is_none() || lt.id().0 != id {
        w.fail(
            "lifetime-state",
            &["C19"],
            "a lifetime that has ended doesn't report it, or reported it before it was asked to wait".into(),
        );
    }
}

pub fn find(cx: &Cx, client: usize, handle: Handle, obj: Option<Uuid>, svcs: Vec<Uuid>, wait: bool) {
    let job = cx.begin(
        client,
        if wait {
            Wait::WaitObject(obj, svcs.clone())
        } else {
            Wait::Req("find_object")
        },
    );
    let cx2 = cx.clone();
    cx.spawn(client, "find", async move {
        let o = obj.map(ObjectUuid);
        let how = cx2.alt(3);
        let r = match wait {
            false => variants::find(&handle, o, &services(&svcs), how).await,
            true => variants::wait_for(&handle, o, &services(&svcs), how).await.map(Some),
        };
        let s = job.end("find_object", &r);
        unexpected(&cx2.w, "find_object", &r);
        let mut w = cx2.w.borrow_mut();
        match r {
            Ok(Some((o, ids))) => {
                w.hit("objects found");
                let ok = (s.lo..=s.hi)
                    .any(|i| w.bus.matches(obj, &svcs, i).contains(&(o, ids.clone())));
                if !ok {
                    w.fail(
                        "find-result",
                        &["C19", "C06"],
                        format!("find or wait returned {o:?}, which did not exist like this"),
                    );
                }
            }
            Ok(None) => {
                w.hit("objects not found");
                // The stream of events ends early when the client stops.
                let ok = w.stopping(client)
                    || (s.lo..=s.hi).any(|i| w.bus.matches(obj, &svcs, i).is_empty());
                if !ok {
                    w.fail(
                        "find-result",
                        &["C19", "C06"],
                        "find_object found nothing although a match existed throughout".into(),
                    );
                }
            }
            Err(_) => {}
        }
    });
}

// ---------------------------------------------------------------------------------------------
// Other requests

pub fn simple(cx: &Cx, client: usize, handle: Handle, kind: u32) {
    let job = cx.begin(client, Wait::Req("request"));
    let cx2 = cx.clone();
    cx.spawn(client, "request", async move {
        match kind {
            0 => {
                let r = handle.sync_client().await;
                job.end("sync_client", &r);
                unexpected(&cx2.w, "sync_client", &r);
            }
            1 => {
                let r = handle.sync_broker().await;
                job.end("sync_broker", &r);
                unexpected(&cx2.w, "sync_broker", &r);
            }
            2 => {
                let r = handle.version().await;
                job.end("version", &r);
                unexpected(&cx2.w, "version", &r);
                let mut w = cx2.w.borrow_mut();
                let ver = w.clients[client].ver;
                if r.is_ok_and(|v| v.minor() != ver) {
                    w.fail(
                        "version",
                        &["C06", "C12"],
                        format!("the client reports version {r:?} instead of 1.{ver}"),
                    );
                }
            }
            3 => {
                let r = handle
                    .register_introspection::<Introspected>()
                    .and_then(|()| handle.register_introspection::<Vec<u32>>())
                    .and_then(|()| handle.submit_introspection());
                job.end("register_introspection", &r);
                unexpected(&cx2.w, "register_introspection", &r);
                cx2.w.borrow_mut().registered = true;
            }
            _ => {
                let ty = if kind == 4 {
                    TypeId::compute::<Introspected>()
                } else {
                    TypeId(Uuid::from_u128(kind as u128))
                };
                let r = handle.query_introspection(ty).await;
                job.end("query_introspection", &r);
                let mut w = cx2.w.borrow_mut();
                if let Ok(Some(i)) = r {
                    w.hit("introspections received");
                    if i.type_id() != ty || kind != 4 || !w.registered {
                        w.fail(
                            "introspection",
                            &["C06", "C11"],
                            "query_introspection returned something nobody registered".into(),
                        );
                    }
                }
            }
        }
    });
}

pub fn scope_of(i: u32) -> BusListenerScope {
    match i {
        0 => BusListenerScope::Current,
        1 => BusListenerScope::New,
        _ => BusListenerScope::All,
    }
}

pub struct Introspected;

impl aldrin_core::introspection::Introspectable for Introspected {
    fn layout() -> aldrin_core::introspection::ir::LayoutIr {
        aldrin_core::introspection::ir::StructIr::builder("sim", "Introspected")
            .finish()
            .into()
    }

    fn lexical_id() -> aldrin_core::introspection::LexicalId {
        aldrin_core::introspection::LexicalId::custom("sim", "Introspected")
    }

    fn add_references(references: &mut aldrin_core::introspection::References) {
        references.add::<Vec<u32>>();
    }
}
