//! Framing harnesses (C14).
//!
//! `packet` feeds frames to the real `Packetizer` in arbitrary pieces through both input
//! interfaces. `stream` connects two real `TokioTransport`s (bare or inside the other transport
//! adapters) through a simulated duplex byte pipe with short reads and writes, pending I/O, limited
//! capacity, end-of-stream and I/O errors at any point.

use crate::choice::{self, Act, Choices, Policy};
use crate::entropy::splitmix;
use crate::exec::{guarded, Exec, Polled};
use crate::run::{Outcome, Violation};
use aldrin_core::message::*;
use aldrin_core::tokio::{TokioTransport, TokioTransportError};
use aldrin_core::transport::{AsyncTransport, AsyncTransportExt};
use aldrin_core::{ChannelCookie, ObjectUuid, ServiceCookie};
use bytes::BytesMut;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::{poll_fn, Future};
use std::io::{Error as IoError, ErrorKind};
use std::pin::{pin, Pin};
use std::rc::Rc;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use uuid::Uuid;

fn violation(class: &str, msg: String) -> Option<Violation> {
    Some(Violation {
        class: class.into(),
        props: vec!["C14"],
        msg,
    })
}

fn fill(out: &mut Vec<u8>, n: usize, seed: u64) {
    let mut s = seed;
    let end = out.len() + n;
    while out.len() < end {
        let w = splitmix(&mut s).to_le_bytes();
        let k = (end - out.len()).min(8);
        out.extend_from_slice(&w[..k]);
    }
}

/// Size of a frame, around the steps at which buffers are grown.
fn frame_size(c: &mut Choices, class: u32) -> usize {
    const K: u32 = 1024;
    let n = match class {
        0 => 5 + c.below(60),
        1 => 5,
        2 => 5 + c.below(4 * K),
        3 => 8 * K - 8 + c.below(17),
        4 => 64 * K - 40 + c.below(81),
        5 => 64 * K + c.below(200 * K),
        6 => 128 * K - 40 + c.below(81),
        _ => 4096 * K - 70_000 + c.below(140_000),
    };
    n as usize
}

pub fn run_packet(_property: &str, c: &mut Choices, trace: bool) -> Outcome {
    let mut out = Outcome::default();
    let log = |out: &mut Outcome, f: &dyn Fn() -> String| {
        if trace {
            out.trace.push(f());
        }
    };

    c.begin_span(choice::CONFIG, true);
    let n = 1 + c.below(12) as usize;
    let big = c.chance(1, 4);
    let huge = c.chance(1, 200);
    let hold = c.below(3);
    let mut stream = Vec::new();
    let mut ends = Vec::new();
    for i in 0..n {
        let class = if huge && i < 2 {
            7
        } else if big {
            c.weighted(&[4, 2, 3, 2, 4, 2, 2])
        } else {
            c.weighted(&[8, 3, 1]) as usize
        };
        let size = frame_size(c, class as u32);
        stream.extend_from_slice(&(size as u32).to_le_bytes());
        fill(&mut stream, size - 4, i as u64 ^ 0xf00d);
        ends.push(stream.len());
    }
    let start = |k: usize| if k == 0 { 0 } else { ends[k - 1] };
    log(&mut out, &|| format!("frame ends {ends:?}"));

    let mut p = Packetizer::new();
    let mut fed = 0;
    let mut next = 0;
    let mut held: Vec<(usize, BytesMut)> = Vec::new();
    let n_ops = 4 + c.below(90);
    let mut done = 0;
    let mut rng = ((c.u32() as u64) << 32) | 1;

    let poll = |p: &mut Packetizer,
                    fed: usize,
                    next: &mut usize,
                    held: &mut Vec<(usize, BytesMut)>|
     -> Result<bool, Violation> {
        let got = guarded(|| p.next_message())
            .map_err(|e| violation("panic", format!("next_message panicked: {e}")).unwrap())?;
        let want = *next < ends.len() && fed >= ends[*next];
        match got {
            None if want => Err(violation(
                "frame-missing",
                format!("frame {} is complete, but was not returned", *next),
            )
            .unwrap()),
            None => Ok(false),
            Some(f) if !want => Err(violation(
                "frame-early",
                format!("got {} bytes, but frame {} is incomplete", f.len(), *next),
            )
            .unwrap()),
            Some(mut f) => {
                if f[..] != stream[start(*next)..ends[*next]] {
                    return Err(violation(
                        "frame-content",
                        format!("frame {} differs from what was fed", *next),
                    )
                    .unwrap());
                }
                match hold {
                    0 => {}
                    1 => held.push((*next, f)),
                    _ => {
                        // What is done with a returned frame is the owner's business.
                        f.reserve(3);
                        for b in f.iter_mut() {
                            *b = !*b;
                        }
                    }
                }
                *next += 1;
                Ok(true)
            }
        }
    };

    'ops: loop {
        let more = c.begin_span(choice::OP, done < n_ops && fed < stream.len());
        let (iface, size, repeat, polls) = if more {
            done += 1;
            (
                c.below(3),
                c.below(8),
                if c.chance(1, 6) { 1 + c.below(40) } else { 1 },
                c.below(4),
            )
        } else {
            c.begin_span(choice::FINAL, true);
            (c.below(2), 5, u32::MAX, 2)
        };
        let big_by = c.below(70_000) as usize;
        for _ in 0..repeat {
            if fed >= stream.len() && (next == ends.len() || !more) {
                break;
            }
            let left = stream.len() - fed;
            let to_end = ends.get(next).map_or(0, |&e| e.saturating_sub(fed));
            let k = match size {
                0 => 1,
                1 => 2 + (splitmix(&mut rng) as usize) % 15,
                2 => to_end,
                3 => to_end.saturating_sub(1 + (splitmix(&mut rng) as usize) % 3),
                4 => to_end + (splitmix(&mut rng) as usize) % 9,
                5 => left,
                6 => 0,
                _ => 1 + big_by,
            }
            .min(left);
            if iface == 0 {
                p.extend_from_slice(&stream[fed..fed + k]);
                fed += k;
                log(&mut out, &|| format!("extend {k} -> {fed}"));
            } else {
                let res = guarded(|| {
                    let slice = p.spare_capacity_mut();
                    let n = slice.len();
                    // Interface 2 fills whatever is offered.
                    let k = if iface == 2 { left.min(n) } else { k.min(n) };
                    for (d, s) in slice.iter_mut().zip(&stream[fed..fed + k]) {
                        d.write(*s);
                    }
                    // SAFETY: The first `k` bytes have been written above.
                    unsafe { p.bytes_written(k) };
                    (n, k)
                });
                match res {
                    Ok((0, _)) => {
                        out.violation = violation("no-spare", "no spare capacity offered".into());
                        break 'ops;
                    }
                    Ok((n, k)) => {
                        fed += k;
                        log(&mut out, &|| format!("write {k} of {n} -> {fed}"));
                    }
                    Err(e) => {
                        out.violation =
                            violation("panic", format!("spare_capacity_mut panicked: {e}"));
                        break 'ops;
                    }
                }
            }
            out.steps += 1;
            c.sched_hash = (c.sched_hash ^ ((fed as u64) << 2 | iface as u64))
                .wrapping_mul(0x0100_0000_01b3);
            let mut budget = match polls {
                0 => 0,
                1 => 1,
                _ => u32::MAX,
            };
            while budget > 0 {
                match poll(&mut p, fed, &mut next, &mut held) {
                    Ok(true) => budget -= 1,
                    Ok(false) => {
                        if polls == 3 {
                            if let Err(v) = poll(&mut p, fed, &mut next, &mut held) {
                                out.violation = Some(v);
                                break 'ops;
                            }
                        }
                        break;
                    }
                    Err(v) => {
                        out.violation = Some(v);
                        break 'ops;
                    }
                }
            }
            log(&mut out, &|| format!("{next} frames out"));
            out.states.insert(
                ((next as u64) << 40)
                    ^ ((ends.get(next).map_or(0, |&e| e.saturating_sub(fed)) as u64) << 8)
                    ^ held.len() as u64,
            );
        }
        if !more {
            break;
        }
    }

    if out.violation.is_none() {
        // Everything was fed and drained.
        loop {
            match poll(&mut p, fed, &mut next, &mut held) {
                Ok(true) => {}
                Ok(false) => break,
                Err(v) => {
                    out.violation = Some(v);
                    break;
                }
            }
        }
        for (k, f) in &held {
            if f[..] != stream[start(*k)..ends[*k]] {
                out.violation = violation(
                    "frame-changed",
                    format!("frame {k} changed after it was returned"),
                );
            }
        }
    }
    *out.cover.entry("frames").or_insert(0) += next as u64;
    *out.cover.entry("bytes").or_insert(0) += fed as u64;
    *out.cover.entry("frames_over_64k").or_insert(0) += (0..next)
        .filter(|&k| ends[k] - start(k) > 64 * 1024)
        .count() as u64;
    *out.cover.entry("frames_over_4m").or_insert(0) += (0..next)
        .filter(|&k| ends[k] - start(k) > 4 << 20)
        .count() as u64;
    out.nontrivial = next > 1 && done > 2;
    out.sched_hash = c.sched_hash;
    out
}

/// One direction of the simulated byte pipe.
#[derive(Default)]
struct Dir {
    /// Accepted from the writer, but not yet on the wire.
    staged: VecDeque<u8>,
    wire: VecDeque<u8>,
    cap: usize,
    /// Whether accepted bytes go to the wire without a flush.
    auto: bool,
    written: usize,
    read: usize,
    /// The stream ends after this many bytes.
    eof_at: Option<usize>,
    eof: bool,
    reader_gone: bool,
    rd: Option<Waker>,
    wr: Option<Waker>,
}

impl Dir {
    fn push_through(&mut self) {
        let n = self.staged.len();
        if n > 0 {
            self.wire.extend(self.staged.drain(..));
            if let Some(w) = self.rd.take() {
                w.wake();
            }
        }
    }
}

/// What the I/O object of one endpoint does and has done.
struct Gate {
    rng: u64,
    read_mode: u32,
    write_mode: u32,
    pend: u32,
    blocked: Vec<(u8, Waker)>,
    passed: [bool; 3],
    /// `(kind, number of operations before it)`.
    fault: Option<(u32, u32)>,
    hit: Option<u32>,
    eof_seen: u32,
    broken: bool,
    short_reads: u64,
    short_writes: u64,
    pendings: u64,
}

const READ: usize = 0;
const WRITE: usize = 1;
const FLUSH: usize = 2;

const F_READ: u32 = 0;
const F_WRITE: u32 = 1;
const F_ZERO: u32 = 2;
const F_FLUSH: u32 = 3;

impl Gate {
    fn roll(&mut self, n: u64) -> u64 {
        (splitmix(&mut self.rng) >> 16) % n
    }

    fn limit(&mut self, mode: u32) -> usize {
        match mode {
            0 => usize::MAX,
            1 => 1,
            2 => 1 + self.roll(8) as usize,
            3 => 1 + self.roll(600) as usize,
            4 => {
                if self.roll(8) == 0 {
                    usize::MAX
                } else {
                    1 + self.roll(4) as usize
                }
            }
            _ => 1 + self.roll(40_000) as usize,
        }
    }

    /// Whether the operation is held up.
    fn hold(&mut self, op: usize, cx: &Context) -> bool {
        if std::mem::take(&mut self.passed[op]) || self.roll(8) >= self.pend as u64 {
            self.blocked.retain(|b| b.0 as usize != op);
            return false;
        }
        self.blocked.retain(|b| b.0 as usize != op);
        self.blocked.push((op as u8, cx.waker().clone()));
        self.pendings += 1;
        true
    }

    fn faulty(&mut self, kind: u32) -> bool {
        if self.hit == Some(kind) {
            return true;
        }
        match &mut self.fault {
            Some((k, 0)) if *k == kind => {
                self.hit = Some(kind);
                true
            }
            Some((k, n)) if *k == kind => {
                *n -= 1;
                false
            }
            _ => false,
        }
    }
}

#[derive(Clone)]
struct Shared {
    dirs: [Arc<Mutex<Dir>>; 2],
    gates: [Arc<Mutex<Gate>>; 2],
}

impl Shared {
    fn dir(&self, d: usize) -> MutexGuard<'_, Dir> {
        self.dirs[d].lock().unwrap()
    }

    fn gate(&self, e: usize) -> MutexGuard<'_, Gate> {
        self.gates[e].lock().unwrap()
    }
}

/// The I/O object of endpoint `me`: writes direction `me`, reads direction `1 - me`.
struct Io {
    sh: Shared,
    me: usize,
}

impl AsyncRead for Io {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context,
        buf: &mut ReadBuf,
    ) -> Poll<std::io::Result<()>> {
        let mut g = self.sh.gate(self.me);
        let mut d = self.sh.dir(1 - self.me);
        if g.faulty(F_READ) {
            return Poll::Ready(Err(IoError::other("injected read error")));
        }
        if g.hold(READ, cx) {
            return Poll::Pending;
        }
        let mut avail = d.wire.len();
        let mut over = d.eof && d.staged.is_empty();
        if let Some(at) = d.eof_at {
            avail = avail.min(at - d.read);
            over |= d.read >= at;
        }
        if avail == 0 {
            if over {
                g.eof_seen += 1;
                if g.eof_seen > 100 {
                    // Somebody does not take the end of the stream for what it is.
                    return Poll::Pending;
                }
                return Poll::Ready(Ok(()));
            }
            d.rd = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mode = g.read_mode;
        let n = avail.min(buf.remaining()).min(g.limit(mode));
        if n < avail {
            g.short_reads += 1;
        }
        for b in d.wire.drain(..n) {
            buf.put_slice(&[b]);
        }
        d.read += n;
        if let Some(w) = d.wr.take() {
            w.wake();
        }
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for Io {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let mut g = self.sh.gate(self.me);
        let mut d = self.sh.dir(self.me);
        if g.faulty(F_WRITE) {
            return Poll::Ready(Err(IoError::other("injected write error")));
        }
        if g.faulty(F_ZERO) {
            g.eof_seen += 1;
            if g.eof_seen > 100 {
                return Poll::Pending;
            }
            return Poll::Ready(Ok(0));
        }
        if d.reader_gone {
            g.broken = true;
            return Poll::Ready(Err(ErrorKind::BrokenPipe.into()));
        }
        if g.hold(WRITE, cx) {
            return Poll::Pending;
        }
        let free = d.cap - (d.wire.len() + d.staged.len()).min(d.cap);
        if free == 0 {
            d.push_through();
            d.wr = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mode = g.write_mode;
        let n = buf.len().min(free).min(g.limit(mode));
        if n < buf.len() {
            g.short_writes += 1;
        }
        d.staged.extend(&buf[..n]);
        d.written += n;
        if d.auto {
            d.push_through();
        }
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context) -> Poll<std::io::Result<()>> {
        let mut g = self.sh.gate(self.me);
        let mut d = self.sh.dir(self.me);
        if g.faulty(F_FLUSH) {
            return Poll::Ready(Err(IoError::other("injected flush error")));
        }
        if g.hold(FLUSH, cx) {
            return Poll::Pending;
        }
        d.push_through();
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context) -> Poll<std::io::Result<()>> {
        self.poll_flush(cx)
    }
}

impl Drop for Io {
    fn drop(&mut self) {
        let mut d = self.sh.dir(self.me);
        d.eof = true;
        // Bytes that were never flushed are lost.
        d.staged.clear();
        if let Some(w) = d.rd.take() {
            w.wake();
        }
        drop(d);
        let mut d = self.sh.dir(1 - self.me);
        d.reader_gone = true;
        if let Some(w) = d.wr.take() {
            w.wake();
        }
    }
}

type Stack = Pin<Box<dyn AsyncTransport<Error = TokioTransportError>>>;

fn stack(kind: u32, io: Io) -> Stack {
    let t = TokioTransport::new(io);
    match kind {
        0 => Box::pin(t),
        1 => Box::pin(t.buffered()),
        2 => Box::pin(t.map_err(|e| e)),
        3 => Box::pin(t.boxed().buffered()),
        4 => t.buffered().boxed(),
        5 => Box::pin(Box::new(t)),
        6 => Box::pin(t.map_err(|e| e).buffered().boxed()),
        _ => Box::pin(t.buffered().buffered()),
    }
}

#[derive(Debug, Clone)]
enum Item {
    Send(Message),
    SendFlush(Message),
    Flush,
    /// A flush that is given up if it is still pending after so many polls.
    TryFlush(u32),
}

fn size_message(c: &mut Choices, class: u32, i: u64) -> Message {
    let payload = |c: &mut Choices| {
        let n = frame_size(c, class).max(30) - 30;
        let mut v = Vec::new();
        fill(&mut v, n.max(1), i);
        crate::val::raw_value(&v)
    };
    match c.below(9) {
        0 => Shutdown.into(),
        1 => Sync { serial: c.u32() }.into(),
        2 => SyncReply { serial: c.u32() }.into(),
        3 => CreateObject {
            serial: c.u32(),
            uuid: ObjectUuid(Uuid::from_u128(i as u128 * 0x1_0000_0001)),
        }
        .into(),
        4 | 5 => SendItem {
            cookie: ChannelCookie(Uuid::from_u128(i as u128)),
            value: payload(c),
        }
        .into(),
        6 => EmitEvent {
            service_cookie: ServiceCookie(Uuid::from_u128(i as u128)),
            event: c.u32(),
            value: payload(c),
        }
        .into(),
        7 => CallFunctionReply {
            serial: c.u32(),
            result: CallFunctionResult::Ok(payload(c)),
        }
        .into(),
        _ => CallFunction2 {
            serial: c.u32(),
            service_cookie: ServiceCookie(Uuid::from_u128(i as u128)),
            function: i as u32,
            version: Some(c.below(5)),
            value: payload(c),
        }
        .into(),
    }
}

/// What an endpoint's application saw.
#[derive(Default)]
struct Seen {
    sent: [usize; 2],
    sent_bytes: [usize; 2],
    recvd: [usize; 2],
    flushes: u64,
    given_up: u64,
    done: [bool; 2],
    error: [Option<&'static str>; 2],
    violation: Option<Violation>,
    log: Vec<String>,
}

struct Plan {
    items: [Vec<Item>; 2],
    /// Messages of each direction with the number of bytes up to their end.
    msgs: [Vec<(Message, usize)>; 2],
}

struct App {
    me: usize,
    sh: Shared,
    plan: Rc<Plan>,
    seen: Rc<RefCell<Seen>>,
    trace: bool,
    read_to_end: bool,
}

impl App {
    fn log(&self, f: impl FnOnce() -> String) {
        if self.trace {
            self.seen.borrow_mut().log.push(f());
        }
    }

    fn fail(&self, class: &str, msg: String) {
        let mut s = self.seen.borrow_mut();
        if s.violation.is_none() {
            s.violation = violation(class, msg);
        }
    }

    fn sent(&self) {
        let mut s = self.seen.borrow_mut();
        let k = s.sent[self.me];
        s.sent[self.me] += 1;
        s.sent_bytes[self.me] = self.plan.msgs[self.me][k].1;
        drop(s);
        self.log(|| format!("endpoint {} sent message {k}", self.me));
    }

    fn flushed(&self) {
        self.seen.borrow_mut().flushes += 1;
        let want = self.seen.borrow().sent_bytes[self.me];
        let d = self.sh.dir(self.me);
        let (written, staged) = (d.written, d.staged.len());
        drop(d);
        self.log(|| format!("endpoint {} flushed, {written} bytes written", self.me));
        if written < want {
            self.fail(
                "flush-early",
                format!("endpoint {}: flush returned after {written} of {want} bytes were written", self.me),
            );
        } else if staged > 0 {
            self.fail(
                "flush-early",
                format!("endpoint {}: flush returned, but the I/O object was not flushed", self.me),
            );
        }
    }

    fn given_up(&self) {
        self.seen.borrow_mut().given_up += 1;
        self.log(|| format!("endpoint {} gave up flushing", self.me));
    }

    fn received(&self, msg: Message) {
        let from = 1 - self.me;
        let k = self.seen.borrow().recvd[from];
        self.seen.borrow_mut().recvd[from] += 1;
        self.log(|| format!("endpoint {} received message {k}", self.me));
        if k >= self.seen.borrow().sent[from] {
            self.fail(
                "extra-message",
                format!("endpoint {} received a message that was not sent", self.me),
            );
        } else if self.plan.msgs[from][k].0 != msg {
            self.fail(
                "wrong-message",
                format!("endpoint {}: message {k} differs from what was sent", self.me),
            );
        }
    }

    fn recv_error(&self, e: TokioTransportError) {
        let from = 1 - self.me;
        self.log(|| format!("endpoint {}: receive failed: {e:?}", self.me));
        let g = self.sh.gate(self.me);
        let (hit, eof) = (g.hit, g.eof_seen);
        drop(g);
        self.seen.borrow_mut().error[self.me] = Some("receive");
        if hit == Some(F_READ) {
            return;
        }
        if eof == 0 || hit == Some(F_ZERO) {
            self.fail(
                "bogus-error",
                format!("endpoint {}: receive failed without cause: {e:?}", self.me),
            );
            return;
        }
        let read = self.sh.dir(from).read;
        let complete = self.plan.msgs[from].iter().filter(|m| m.1 <= read).count();
        let got = self.seen.borrow().recvd[from];
        if got != complete {
            self.fail(
                "lost-at-eof",
                format!("endpoint {}: end of stream after {got} of {complete} messages", self.me),
            );
        }
    }

    fn send_error(&self, e: TokioTransportError) {
        self.log(|| format!("endpoint {}: sending failed: {e:?}", self.me));
        self.seen.borrow_mut().error[self.me] = Some("send");
        let g = self.sh.gate(self.me);
        if !(g.broken || matches!(g.hit, Some(F_WRITE | F_ZERO | F_FLUSH))) {
            drop(g);
            self.fail(
                "bogus-error",
                format!("endpoint {}: sending failed without cause: {e:?}", self.me),
            );
        }
    }

    fn want(&self) -> usize {
        self.plan.msgs[1 - self.me].len()
    }

    /// Sends and receives concurrently.
    async fn duplex(self, mut t: Stack, yields: u64, recv_first: bool) {
        let mut next = 0;
        let mut rng = yields;
        let items = self.plan.items[self.me].clone();
        let mut in_send_flush = false;
        let mut tried = 0;
        poll_fn(|cx| loop {
            if yields > 0 && splitmix(&mut rng) % 4 == 0 {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            let mut progress = false;
            let done = self.seen.borrow().recvd[1 - self.me] >= self.want();
            let recv = |t: &mut Stack, cx: &mut Context| {
                if done && !(self.read_to_end && next >= items.len()) {
                    return Ok(false);
                }
                match t.receive_poll_unpin(cx) {
                    Poll::Ready(Ok(m)) => {
                        self.received(m);
                        Ok(true)
                    }
                    Poll::Ready(Err(e)) => {
                        self.recv_error(e);
                        Err(())
                    }
                    Poll::Pending => Ok(false),
                }
            };
            if recv_first {
                match recv(&mut t, cx) {
                    Ok(p) => progress |= p,
                    Err(()) => return Poll::Ready(()),
                }
            }
            if let Some(item) = items.get(next) {
                match item {
                    Item::Send(m) | Item::SendFlush(m) if !in_send_flush => {
                        match t.send_poll_ready_unpin(cx) {
                            Poll::Ready(Ok(())) => {
                                if let Err(e) = t.send_start_unpin(m.clone()) {
                                    self.send_error(e);
                                    return Poll::Ready(());
                                }
                                self.sent();
                                if matches!(item, Item::SendFlush(_)) {
                                    in_send_flush = true;
                                } else {
                                    next += 1;
                                }
                                progress = true;
                            }
                            Poll::Ready(Err(e)) => {
                                self.send_error(e);
                                return Poll::Ready(());
                            }
                            Poll::Pending => {}
                        }
                    }
                    _ => match t.send_poll_flush_unpin(cx) {
                        Poll::Ready(Ok(())) => {
                            self.flushed();
                            in_send_flush = false;
                            tried = 0;
                            next += 1;
                            progress = true;
                        }
                        Poll::Ready(Err(e)) => {
                            self.send_error(e);
                            return Poll::Ready(());
                        }
                        Poll::Pending => {
                            tried += 1;
                            if matches!(item, Item::TryFlush(n) if *n < tried) {
                                self.given_up();
                                tried = 0;
                                next += 1;
                                progress = true;
                            }
                        }
                    },
                }
            } else if done && !self.read_to_end {
                return Poll::Ready(());
            }
            if !recv_first {
                let done = self.seen.borrow().recvd[1 - self.me] >= self.want();
                if !done || (self.read_to_end && next >= items.len()) {
                    match t.receive_poll_unpin(cx) {
                        Poll::Ready(Ok(m)) => {
                            self.received(m);
                            progress = true;
                        }
                        Poll::Ready(Err(e)) => {
                            self.recv_error(e);
                            return Poll::Ready(());
                        }
                        Poll::Pending => {}
                    }
                }
            }
            if !progress {
                return Poll::Pending;
            }
        })
        .await;
        self.seen.borrow_mut().done[self.me] = true;
        drop(t);
    }

    /// Sends everything, then receives everything, with the futures of `AsyncTransportExt`.
    async fn sequential(self, mut t: Stack) {
        'run: {
            for item in &self.plan.items[self.me] {
                let res = match item {
                    Item::Send(m) => {
                        let r = t.send(m.clone()).await;
                        if r.is_ok() {
                            self.sent();
                        }
                        r
                    }
                    Item::SendFlush(m) => {
                        // The message may be seen by the peer before the call returns.
                        self.sent();
                        let r = t.send_and_flush(m.clone()).await;
                        if r.is_ok() {
                            self.flushed();
                        }
                        r
                    }
                    Item::TryFlush(n) => {
                        let mut flush = pin!(t.flush());
                        let mut left = *n;
                        let r = poll_fn(|cx| match flush.as_mut().poll(cx) {
                            Poll::Pending if left == 0 => Poll::Ready(None),
                            Poll::Pending => {
                                left -= 1;
                                Poll::Pending
                            }
                            Poll::Ready(r) => Poll::Ready(Some(r)),
                        })
                        .await;
                        match r {
                            Some(Ok(())) => self.flushed(),
                            Some(Err(_)) => {}
                            None => self.given_up(),
                        }
                        r.unwrap_or(Ok(()))
                    }
                    Item::Flush => {
                        let r = t.flush().await;
                        if r.is_ok() {
                            self.flushed();
                        }
                        r
                    }
                };
                if let Err(e) = res {
                    self.send_error(e);
                    break 'run;
                }
            }
            loop {
                let done = self.seen.borrow().recvd[1 - self.me] >= self.want();
                if done && !self.read_to_end {
                    break 'run;
                }
                match t.receive().await {
                    Ok(m) => self.received(m),
                    Err(e) => {
                        self.recv_error(e);
                        break 'run;
                    }
                }
            }
        }
        self.seen.borrow_mut().done[self.me] = true;
        drop(t);
    }
}

/// Far beyond what any run needs.
const MAX_STEPS: u64 = 3_000_000;

pub fn run_stream(_property: &str, c: &mut Choices, trace: bool) -> Outcome {
    let mut out = Outcome::default();
    c.begin_span(choice::CONFIG, true);
    let policy = match c.below(5) {
        0 | 1 => Policy::Uniform,
        2 => Policy::MostlyFifo,
        3 => Policy::EnvFirst,
        _ => Policy::Priorities,
    };
    c.set_policy(policy);
    let mk_dir = |c: &mut Choices| {
        Arc::new(Mutex::new(Dir {
            cap: match c.below(5) {
                0 => 1 << 30,
                1 => 1 + c.below(8) as usize,
                2 => 1 + c.below(600) as usize,
                3 => 1 + c.below(20_000) as usize,
                _ => 60_000 + c.below(20_000) as usize,
            },
            auto: c.chance(1, 2),
            ..Dir::default()
        }))
    };
    let dirs = [mk_dir(c), mk_dir(c)];
    let mk_gate = |c: &mut Choices| {
        Arc::new(Mutex::new(Gate {
            rng: ((c.u32() as u64) << 32) | 7,
            read_mode: c.below(6),
            write_mode: c.below(6),
            pend: c.below(7),
            blocked: Vec::new(),
            passed: [false; 3],
            fault: None,
            hit: None,
            eof_seen: 0,
            broken: false,
            short_reads: 0,
            short_writes: 0,
            pendings: 0,
        }))
    };
    let gates = [mk_gate(c), mk_gate(c)];
    let sh = Shared { dirs, gates };
    let stacks = [c.below(8), c.below(8)];
    // One direction only, one after the other, or both at the same time.
    let mode = c.below(3);
    let yields = if c.chance(1, 2) { 1 + c.u32() as u64 } else { 0 };
    let recv_first = c.chance(1, 2);
    let read_to_end = c.below(3);
    let slow = (0..2).any(|e| {
        let g = sh.gate(e);
        let small = |m| matches!(m, 1 | 2 | 4);
        small(g.read_mode) || small(g.write_mode) || sh.dir(e).cap <= 600
    });
    let big = !slow && c.chance(1, 3);
    let fault = c.chance(1, 3);
    let f_end = c.below(2) as usize;
    let f_kind = c.below(5);
    let f_at = c.below(40);
    let f_pos = c.u32();

    let mut plan = Plan {
        items: Default::default(),
        msgs: Default::default(),
    };
    let n_ops = 1 + c.below(30);
    let mut k = 0;
    while c.begin_span(choice::OP, k < n_ops) {
        k += 1;
        let e = if mode == 2 { c.below(2) as usize } else { 0 };
        let class = if big {
            c.weighted(&[8, 2, 6, 3, 1, 1])
        } else if slow {
            c.weighted(&[20, 4, 1])
        } else {
            c.weighted(&[8, 2, 3, 1])
        };
        let what = c.below(11);
        let msg = size_message(c, class as u32, k as u64);
        let len = match msg.clone().serialize_message() {
            Ok(b) => b.len(),
            Err(_) => continue,
        };
        let at = plan.msgs[e].last().map_or(0, |m| m.1) + len;
        plan.msgs[e].push((msg.clone(), at));
        match what {
            0..=4 => plan.items[e].push(Item::Send(msg)),
            5 => plan.items[e].push(Item::SendFlush(msg)),
            6 => {
                plan.items[e].push(Item::Send(msg));
                plan.items[e].push(Item::Flush);
            }
            7 => {
                plan.items[e].push(Item::Send(msg));
                plan.items[e].push(Item::Flush);
                plan.items[e].push(Item::Flush);
            }
            _ => {
                plan.items[e].push(Item::Send(msg));
                plan.items[e].push(Item::TryFlush(c.below(3)));
            }
        }
    }
    for e in 0..2 {
        plan.items[e].push(Item::Flush);
    }
    if fault {
        if f_kind < 4 {
            sh.gate(f_end).fault = Some((f_kind, f_at));
        } else {
            let total = plan.msgs[f_end].last().map_or(0, |m| m.1);
            sh.dir(f_end).eof_at = Some(f_pos as usize % (total + 1));
        }
    }

    let seen = Rc::new(RefCell::new(Seen::default()));
    let plan = Rc::new(plan);
    let mut exec = Exec::new();
    for e in 0..2 {
        let app = App {
            me: e,
            sh: sh.clone(),
            plan: plan.clone(),
            seen: seen.clone(),
            trace,
            read_to_end: read_to_end == 1 + e as u32,
        };
        let t = stack(stacks[e], Io { sh: sh.clone(), me: e });
        // A sequential sender needs a peer that reads.
        if mode == 2 || yields & 1 == 1 {
            exec.spawn(format!("endpoint {e}"), app.duplex(t, yields, recv_first));
        } else {
            exec.spawn(format!("endpoint {e}"), app.sequential(t));
        }
    }

    loop {
        let mut acts: Vec<Act> = exec
            .ready()
            .into_iter()
            .map(|id| Act {
                key: id as u32,
                env: false,
            })
            .collect();
        let tasks = acts.len();
        for e in 0..2 {
            for b in &sh.gate(e).blocked {
                acts.push(Act {
                    key: 16 + e as u32 * 4 + b.0 as u32,
                    env: true,
                });
            }
        }
        if acts.is_empty() || seen.borrow().violation.is_some() {
            break;
        }
        let i = c.schedule(&acts);
        out.steps += 1;
        if out.steps > MAX_STEPS {
            out.violation = violation("livelock", format!("no end after {MAX_STEPS} steps"));
            break;
        }
        if i < tasks {
            if let Polled::Panicked(e) = exec.poll(acts[i].key as usize) {
                out.violation = violation("panic", format!("transport panicked: {e}"));
                break;
            }
        } else {
            let e = ((acts[i].key - 16) / 4) as usize;
            let op = ((acts[i].key - 16) % 4) as u8;
            let mut g = sh.gate(e);
            let at = g.blocked.iter().position(|b| b.0 == op).unwrap();
            let (_, w) = g.blocked.remove(at);
            g.passed[op as usize] = true;
            drop(g);
            w.wake();
        }
        let s = seen.borrow();
        let (w0, st0) = {
            let d = sh.dir(0);
            (d.wire.len().min(255) as u64, d.staged.len().min(255) as u64)
        };
        out.states.insert(
            (s.sent[0] as u64)
                | (s.recvd[0] as u64) << 8
                | (s.sent[1] as u64) << 16
                | (s.recvd[1] as u64) << 24
                | w0 << 32
                | (sh.dir(1).wire.len().min(255) as u64) << 40
                | st0 << 48,
        );
    }

    let mut s = seen.borrow_mut();
    out.trace = std::mem::take(&mut s.log);
    if out.violation.is_none() {
        out.violation = s.violation.take();
    }
    let hits: Vec<_> = (0..2).map(|e| sh.gate(e).hit).collect();
    let faulted = hits.iter().any(|h| h.is_some()) || sh.dir(f_end).eof_at.is_some();
    if out.violation.is_none() {
        for e in 0..2 {
            if !s.done[e] {
                out.violation = violation(
                    "stall",
                    format!(
                        "endpoint {e} waits forever: sent {:?}, received {:?}, unread {}/{}",
                        s.sent,
                        s.recvd,
                        sh.dir(0).wire.len(),
                        sh.dir(1).wire.len()
                    ),
                );
            } else if !faulted {
                if s.recvd[e] != plan.msgs[e].len() {
                    out.violation = violation(
                        "lost",
                        format!("{} of {} messages arrived", s.recvd[e], plan.msgs[e].len()),
                    );
                }
                if s.error[e].is_some() && read_to_end != 1 + e as u32 {
                    out.violation = violation(
                        "bogus-error",
                        format!("endpoint {e} failed although nothing went wrong"),
                    );
                }
            }
        }
    }
    for e in 0..2 {
        let g = sh.gate(e);
        *out.cover.entry("fault_short_reads").or_insert(0) += g.short_reads;
        *out.cover.entry("fault_short_writes").or_insert(0) += g.short_writes;
        *out.cover.entry("fault_pending_io").or_insert(0) += g.pendings;
        match g.hit {
            Some(F_READ) => *out.cover.entry("fault_read_error").or_insert(0) += 1,
            Some(F_WRITE) => *out.cover.entry("fault_write_error").or_insert(0) += 1,
            Some(F_ZERO) => *out.cover.entry("fault_zero_write").or_insert(0) += 1,
            Some(F_FLUSH) => *out.cover.entry("fault_flush_error").or_insert(0) += 1,
            _ => {}
        }
        if g.hit.is_none() && g.eof_seen > 0 {
            *out.cover.entry("fault_end_of_stream").or_insert(0) += 1;
        }
        if sh.dir(e).eof_at.is_some() {
            *out.cover.entry("fault_truncated_stream").or_insert(0) += 1;
        }
    }
    *out.cover.entry("messages").or_insert(0) += (s.recvd[0] + s.recvd[1]) as u64;
    *out.cover.entry("flushes").or_insert(0) += s.flushes;
    *out.cover.entry("flushes_given_up").or_insert(0) += s.given_up;
    let steps = out.steps;
    *out.cover.entry("runs_over_100k_steps").or_insert(0) += (steps > 100_000) as u64;
    *out.cover.entry("runs_over_400k_steps").or_insert(0) += (steps > 400_000) as u64;
    out.nontrivial = s.recvd[0] + s.recvd[1] > 1;
    out.sched_hash = c.sched_hash;
    out
}
