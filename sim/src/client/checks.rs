//! Judgements over the recorded history: sessions of bus listeners and discoverers, and everything
//! that must hold when nothing can move any more.

use super::world::*;
use aldrin_core::{BusEvent, BusListenerScope, ObjectId};
use super::tap::Subscribed;
use std::collections::{BTreeSet, HashSet};
use uuid::Uuid;

fn same_set<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len()
        && a.iter().all(|x| b.contains(x))
        && b.iter().all(|x| a.contains(x))
}

fn subset<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    a.iter().enumerate().all(|(i, x)| b.contains(x) && !a[..i].contains(x))
}

/// Whether the events of a listener's session agree with the bus history.
fn session_ok(bus: &Bus, s: &LisSession, complete: bool) -> bool {
    let m = |ev: BusEvent| s.filters.iter().any(|f| filter_matches(f, ev));
    let hi = s.hi.min(bus.now());
    'p: for p in s.lo..=hi {
        let mut rest = &s.events[..];
        if s.scope != BusListenerScope::New {
            let mut cur: Vec<BusEvent> = Vec::new();
            cur.extend(bus.live_objs(p).into_iter().map(BusEvent::ObjectCreated));
            cur.extend(bus.live_svcs(p).into_iter().map(BusEvent::ServiceCreated));
            cur.retain(|e| m(*e));
            if rest.len() < cur.len() {
                if complete || !subset(rest, &cur) {
                    continue 'p;
                }
                return true;
            }
            if !same_set(&rest[..cur.len()], &cur) {
                continue 'p;
            }
            rest = &rest[cur.len()..];
        }
        if s.scope == BusListenerScope::Current {
            if rest.is_empty() {
                return true;
            }
            continue 'p;
        }
        let (qlo, qhi) = match s.stop {
            Some((a, b)) => (a.max(p), b.min(bus.now())),
            None => (bus.now(), bus.now()),
        };
        for q in qlo.max(p)..=qhi.max(p) {
            let new: Vec<_> = bus.log[p..q].iter().copied().filter(|e| m(*e)).collect();
            let ok = if complete {
                new == rest
            } else {
                new.len() >= rest.len() && new[..rest.len()] == *rest
            };
            if ok {
                return true;
            }
        }
    }
    false
}

/// Judges the current session of a listener.
pub fn listener_session(w: &mut World, id: usize, complete: bool) {
    let l = &w.listeners[id];
    let Some(s) = &l.cur else {
        return;
    };
    if s.dirty || l.unknown {
        return;
    }
    let complete = complete && !w.stopping(l.client) && !l.destroyed;
    if !session_ok(&w.bus, s, complete) {
        let msg = format!(
            "a bus listener with scope {:?} and filters {:?} reported {:?}, which is not what happened (started between {} and {}, {})",
            s.scope,
            s.filters,
            s.events,
            s.lo,
            s.hi,
            if complete { "complete" } else { "so far" }
        );
        w.fail("listener-events", &["C10", "C06"], msg);
    } else {
        w.hit("listener sessions judged");
    }
}

fn entry_matches(bus: &Bus, entries: &[EntrySpec], i: usize) -> Vec<(u32, ObjectId)> {
    let mut out = Vec::new();
    for e in entries {
        out.extend(bus.matches(e.obj, &e.svcs, i).into_iter().map(|m| (e.key, m.0)));
    }
    out
}

fn full_view(bus: &Bus, entries: &[EntrySpec], i: usize) -> Vec<(u32, Match)> {
    let mut out = Vec::new();
    for e in entries {
        out.extend(bus.matches(e.obj, &e.svcs, i).into_iter().map(|m| (e.key, m)));
    }
    out
}

/// Positions `p` at which the discoverer may have been started, given its events.
fn discoverer_starts(bus: &Bus, d: &DiscRec, complete: bool) -> Vec<usize> {
    let mut out = Vec::new();
    let hi = d.hi.min(bus.now());
    // The events that each bus event causes.
    let mut groups: Vec<(usize, Vec<(u32, bool, ObjectId)>)> = Vec::new();
    let per_entry = |i| -> Vec<Vec<(u32, ObjectId)>> {
        d.entries
            .iter()
            .map(|e| entry_matches(bus, std::slice::from_ref(e), i))
            .collect()
    };
    let mut before = per_entry(d.lo);
    for j in d.lo..bus.now() {
        let after = per_entry(j + 1);
        let mut group = Vec::new();
        for (before, after) in before.iter().zip(&after) {
            // One bus event changes little; only what lies between the first and the last
            // difference can have changed.
            let same = before.iter().zip(after).take_while(|(a, b)| a == b).count();
            let (before, after) = (&before[same..], &after[same..]);
            let same = before
                .iter()
                .rev()
                .zip(after.iter().rev())
                .take_while(|(a, b)| a == b)
                .count();
            let (before, after) =
                (&before[..before.len() - same], &after[..after.len() - same]);
            for b in before {
                if !after.contains(b) {
                    group.push((b.0, false, b.1));
                }
            }
            for a in after {
                if !before.contains(a) {
                    group.push((a.0, true, a.1));
                }
            }
        }
        before = after;
        if !group.is_empty() {
            groups.push((j, group));
        }
    }
    'p: for p in d.lo..=hi {
        let mut rest = &d.events[..];
        let cur: Vec<_> = entry_matches(bus, &d.entries, p)
            .into_iter()
            .map(|(k, o)| (k, true, o))
            .collect();
        if d.silent && rest.is_empty() {
            out.push(p);
            continue;
        }
        if rest.len() < cur.len() {
            if !complete && subset(rest, &cur) {
                out.push(p);
            }
            continue;
        }
        if !same_set(&rest[..cur.len()], &cur) {
            continue;
        }
        rest = &rest[cur.len()..];
        if d.current_only {
            if rest.is_empty() {
                out.push(p);
            }
            continue;
        }
        for (j, group) in &groups {
            if *j < p {
                continue;
            }
            if rest.len() < group.len() {
                if complete || !subset(rest, group) {
                    continue 'p;
                }
                out.push(p);
                continue 'p;
            }
            if !same_set(&rest[..group.len()], group) {
                continue 'p;
            }
            rest = &rest[group.len()..];
        }
        if rest.is_empty() {
            out.push(p);
        }
    }
    out
}

pub fn discoverer_session(w: &mut World, id: usize, complete: bool) {
    let d = &w.discs[id];
    if d.broken {
        return;
    }
    let complete = complete && !w.stopping(d.client);
    let starts = discoverer_starts(&w.bus, d, complete);
    if starts.is_empty() {
        let msg = format!(
            "a discoverer with entries {:?} reported {:?}, which is not what happened ({})",
            d.entries,
            d.events,
            if complete { "complete" } else { "so far" }
        );
        w.fail("discoverer-events", &["C19"], msg);
        return;
    }
    w.hit("discoverer sessions judged");
    if let Some(e) = w.discs[id].view_error.take() {
        w.fail("discoverer-view", &["C19"], e);
        return;
    }
    let d = &mut w.discs[id];
    let Some(view) = d.view.take() else {
        return;
    };
    if !complete {
        return;
    }
    let d = &w.discs[id];
    let ok = if d.current_only {
        starts
            .iter()
            .any(|p| same_set(&full_view(&w.bus, &d.entries, *p), &view))
    } else {
        same_set(&full_view(&w.bus, &d.entries, w.bus.now()), &view)
    };
    if !ok {
        let msg = format!(
            "a discoverer with entries {:?} knows {view:?}, which is not what exists",
            d.entries
        );
        w.fail("discoverer-view", &["C19"], msg);
    } else {
        w.hit("discoverer views judged");
    }
}

/// Nothing can move any more.
pub fn quiescent(w: &mut World) {
    w.hit("settlements");
    clients(w);
    if w.violation.is_some() {
        return;
    }
    jobs(w);
    if w.violation.is_some() {
        return;
    }
    streams(w);
    if w.violation.is_some() {
        return;
    }
    bus_state(w);
    if w.violation.is_some() {
        return;
    }
    subscriptions(w);
    if w.violation.is_some() {
        return;
    }
    listeners(w);
    if w.violation.is_some() {
        return;
    }
    // From now on settled subscriptions must deliver.
    for p in 0..w.proxies.len() {
        let (svc, client) = (w.proxies[p].svc, w.proxies[p].client);
        if w.svc_ending(svc) || w.stopping(client) {
            w.proxies[p].must.clear();
            continue;
        }
        for s in &mut w.proxies[p].subs {
            s.solid = s.ok && s.end.is_none() && !s.loose;
        }
    }
}

fn clients(w: &mut World) {
    for i in 0..w.clients.len() {
        let c = &w.clients[i];
        if c.stopping && !c.ended() {
            w.fail(
                "client-runs-on",
                &["C15", "C06"],
                format!("client {i} was told to stop or lost its transport, and still runs"),
            );
            return;
        }
        if c.ended() && c.conn_res.is_none() {
            w.fail(
                "connection-runs-on",
                &["C15", "C09"],
                format!("client {i} has stopped and its connection still runs"),
            );
            return;
        }
        if !c.ended() && !c.connected {
            w.fail(
                "connect",
                &["C06", "C12"],
                format!("client {i} is stuck connecting"),
            );
            return;
        }
    }
}

fn recv_idle(w: &World, chan: usize) -> bool {
    let e = &w.chans[chan].ends[1];
    e.established && e.reading && !e.ended
}

fn jobs(w: &mut World) {
    for j in 0..w.jobs.len() {
        if w.jobs[j].st != JobSt::Open {
            continue;
        }
        let (client, wait) = (w.jobs[j].client, w.jobs[j].wait.clone());
        if w.clients[client].ended() {
            w.fail(
                "hang-after-stop",
                &["C15"],
                format!("{wait:?} of client {client} is still pending after the client stopped"),
            );
            return;
        }
        let (allowed, props): (bool, &[&'static str]) = match &wait {
            Wait::Req(_) | Wait::Drain => (false, &["C06"]),
            Wait::Reply(i) => {
                let c = &w.calls[*i];
                let s = &w.svcs[c.svc];
                let ok = !w.svc_destroyed(c.svc)
                    && if c.delivered {
                        c.answered.is_none() && c.held
                    } else {
                        s.alive && !s.reading
                    };
                (ok, &["C06", "C02"])
            }
            Wait::Establish { chan, end } => {
                let o = &w.chans[*chan].ends[1 - end];
                let sure = o.closed
                    || o.owner.is_some()
                    || o.other_close.iter().any(|c| !w.stopping(*c));
                (!sure, &["C06", "C05"])
            }
            Wait::Send(chan) => {
                let c = &w.chans[*chan];
                let full = c.sent - c.consumed >= c.caps().0.min(5);
                let ok = full && !w.end_surely_closed(*chan, 1) && !(recv_idle(w, *chan));
                (ok, &["C06", "C05"])
            }
            Wait::WaitObject(o, s) => {
                (w.bus.matches(*o, s, w.bus.now()).is_empty(), &["C06", "C19"])
            }
            Wait::Lifetime(l) => (
                w.bus.live(w.lifes[*l].id.cookie.0, w.bus.now()),
                &["C06", "C19"],
            ),
        };
        if !allowed {
            w.fail(
                "stuck",
                props,
                format!("{wait:?} of client {client} never completes"),
            );
            return;
        }
        w.hit("waits that may go on");
    }
}

fn streams(w: &mut World) {
    let c15: &[&'static str] = &["C15"];
    for s in 0..w.svcs.len() {
        let r = &w.svcs[s];
        if r.alive && r.reading && !r.ended {
            if w.clients[r.client].ended() {
                w.fail("hang-after-stop", c15, format!("next_call of service {s} hangs after its client stopped"));
                return;
            }
            if r.destroyed {
                w.fail("stuck", &["C06"], format!("next_call of service {s} hangs after the service was destroyed"));
                return;
            }
        }
    }
    for p in 0..w.proxies.len() {
        let r = &w.proxies[p];
        if !r.alive || !r.reading || r.ended {
            continue;
        }
        let (svc, client) = (r.svc, r.client);
        if w.clients[client].ended() {
            w.fail("hang-after-stop", c15, format!("next_event of proxy {p} hangs after its client stopped"));
            return;
        }
        if w.stopping(w.svcs[svc].client) {
            w.proxies[p].must.clear();
        }
        if let Some(m) = w.proxies[p].must.front() {
            let msg = format!("event {m} of service {svc} never arrives at proxy {p}, which subscribed to it");
            w.fail("event-missing", &["C06", "C04"], msg);
            return;
        }
        if w.svc_destroyed(svc) && w.clients[client].ver >= 18 {
            w.fail(
                "stuck",
                &["C06", "C04"],
                format!("proxy {p} doesn't notice that its service was destroyed"),
            );
            return;
        }
    }
    for c in 0..w.chans.len() {
        if recv_idle(w, c) {
            let r = &w.chans[c].ends[1];
            let owner = r.owner;
            if owner.is_some_and(|o| w.clients[o].ended()) {
                w.fail("hang-after-stop", c15, format!("next_item of channel {c} hangs after its client stopped"));
                return;
            }
            if w.end_surely_closed(c, 0) {
                w.fail("stuck", &["C06", "C05"], format!("the receiver of channel {c} doesn't notice that the sender is closed"));
                return;
            }
            let ch = &w.chans[c];
            if ch.sent != ch.consumed {
                let msg = format!("the receiver of channel {c} got {} of {} items", ch.consumed, ch.sent);
                w.fail("items-lost", &["C06", "C05"], msg);
                return;
            }
        }
        let s = &w.chans[c].ends[0];
        if s.watching {
            if s.owner.is_some_and(|o| w.clients[o].ended()) {
                w.fail("hang-after-stop", c15, format!("receiver_closed of channel {c} hangs after its client stopped"));
                return;
            }
            if w.end_surely_closed(c, 1) {
                w.fail("stuck", &["C06", "C05"], format!("the sender of channel {c} doesn't notice that the receiver is closed"));
                return;
            }
        }
    }
    for l in 0..w.listeners.len() {
        let r = &w.listeners[l];
        if !r.alive {
            continue;
        }
        let reading = r.reading;
        if reading && !r.ended {
            if w.clients[r.client].ended() {
                w.fail("hang-after-stop", c15, format!("next_event of bus listener {l} hangs after its client stopped"));
                return;
            }
            let done = r.destroyed
                || !r.unknown
                    && match &r.cur {
                        None => true,
                        Some(c) => {
                            !r.started || c.scope == BusListenerScope::Current
                        }
                    };
            if done {
                w.fail("stuck", &["C06", "C10"], format!("bus listener {l} doesn't finish"));
                return;
            }
        }
        listener_session(w, l, reading);
        if w.violation.is_some() {
            return;
        }
    }
    for d in 0..w.discs.len() {
        let r = &w.discs[d];
        if !r.alive {
            continue;
        }
        let reading = r.reading;
        if reading && !r.ended {
            if w.clients[r.client].ended() {
                w.fail("hang-after-stop", c15, format!("next_event of discoverer {d} hangs after its client stopped"));
                return;
            }
            if r.current_only && !r.broken {
                w.fail("stuck", &["C06", "C19"], format!("discoverer {d} doesn't finish"));
                return;
            }
        }
        discoverer_session(w, d, reading);
        if w.violation.is_some() {
            return;
        }
    }
    for c in 0..w.calls.len() {
        let r = &w.calls[c];
        if !r.held || r.abort_seen || w.svc_ending(r.svc) {
            continue;
        }
        let callee = w.svcs[r.svc].client;
        let (a, b) = (w.clients[r.caller].ver, w.clients[callee].ver);
        let aborted = r.aborted.is_some() && a >= 16 || w.clients[r.caller].ended();
        if aborted && b >= 16 {
            w.fail(
                "abort-unnoticed",
                &["C06", "C02"],
                format!("the callee isn't told that call {c} was aborted"),
            );
            return;
        }
    }
}

/// Only bus listeners that somebody holds exist.
fn listeners(w: &mut World) {
    for c in 0..w.clients.len() {
        if !w.clients[c].usable() || w.stopping(c) {
            continue;
        }
        let (mut min, mut max) = (0, 0);
        for l in w.listeners.iter().filter(|l| l.alive && l.client == c && !l.destroyed) {
            min += !l.unknown as usize;
            max += 1;
        }
        for d in w.discs.iter().filter(|d| d.alive && d.client == c) {
            min += !d.broken as usize;
            max += 1;
        }
        for j in w.jobs.iter().filter(|j| j.st == JobSt::Open && j.client == c) {
            let one = matches!(j.wait, Wait::WaitObject(..) | Wait::Lifetime(_)) as usize;
            min += one;
            max += one;
        }
        let have = w.clients[c].tap.borrow().listeners.len();
        if have < min || have > max {
            let m = format!("client {c} has {have} bus listeners, its applications {min} to {max}");
            w.fail("listener-left", &["C10", "C06"], m);
            return;
        }
    }
}

/// A client is subscribed to what its proxies are subscribed to.
fn subscriptions(w: &mut World) {
    let mut bad = None;
    let mut judged = 0;
    for (c, cl) in w.clients.iter().enumerate() {
        if !cl.usable() || w.stopping(c) {
            continue;
        }
        let tap = cl.tap.borrow();
        for s in 0..w.svcs.len() {
            if w.svc_ending(s) || w.stopping(w.svcs[s].client) {
                continue;
            }
            let none = Subscribed::default();
            let is = tap.subs.get(&w.svcs[s].id.cookie).unwrap_or(&none);
            let proxies: Vec<_> =
                w.proxies.iter().filter(|p| p.alive && p.client == c && p.svc == s).collect();
            let mut keys: BTreeSet<Option<u32>> = is.events.iter().map(|e| Some(*e)).collect();
            keys.insert(None);
            keys.extend(proxies.iter().flat_map(|p| p.state.keys().copied()));
            for k in keys {
                let states: Vec<_> = proxies.iter().map(|p| p.state.get(&k).copied()).collect();
                if states.contains(&Some(None)) {
                    continue;
                }
                let want = states.contains(&Some(Some(true)));
                let have = k.map_or(is.all, |e| is.events.contains(&e));
                judged += 1;
                if want != have {
                    let k = k.map_or("all events".to_string(), |e| format!("event {e}"));
                    let (a, b) = if have { ("", "no") } else { ("not ", "a") };
                    bad = Some((
                        if have { "subscription-left" } else { "subscription-missing" },
                        format!("client {c} is {a}subscribed to {k} of service {s} with {b} proxy that asks for it"),
                    ));
                }
            }
            if cl.ver >= 18 && is.service == proxies.is_empty() {
                let m = format!(
                    "client {c} has {} proxies of service {s}; subscribed to it: {}",
                    proxies.len(),
                    is.service
                );
                bad = Some(("service-subscription", m));
            }
        }
    }
    if judged > 0 {
        w.hit("subscriptions compared with proxies");
    }
    if let Some((class, m)) = bad {
        w.fail(class, &["C04", "C06"], m);
    }
}

fn bus_state(w: &mut World) {
    if w.bus_lost {
        return;
    }
    let now = w.bus.now();
    let objs: HashSet<Uuid> = w.bus.live_objs(now).iter().map(|o| o.cookie.0).collect();
    let svcs: HashSet<Uuid> = w.bus.live_svcs(now).iter().map(|s| s.cookie.0).collect();
    let mut want_objs = HashSet::new();
    let mut want_svcs = HashSet::new();
    for o in &w.objs {
        if !o.ending && !w.stopping(o.client) {
            want_objs.insert(o.id.cookie.0);
        }
    }
    for s in 0..w.svcs.len() {
        let r = &w.svcs[s];
        if !r.ending && want_objs.contains(&w.objs[r.obj].id.cookie.0) {
            want_svcs.insert(r.id.cookie.0);
        }
    }
    if objs != want_objs {
        let (a, b) = (objs.difference(&want_objs).count(), want_objs.difference(&objs).count());
        w.fail(
            "objects",
            &["C06", "C09", "C15"],
            format!("{a} objects exist that should be gone, and {b} are gone that should exist"),
        );
    } else if svcs != want_svcs {
        let (a, b) = (svcs.difference(&want_svcs).count(), want_svcs.difference(&svcs).count());
        w.fail(
            "services",
            &["C06", "C09", "C15"],
            format!("{a} services exist that should be gone, and {b} are gone that should exist"),
        );
    }
}
