//! The same thing through different parts of the public API. Which one is taken doesn't matter for
//! what has to happen.

use crate::val;
use aldrin::low_level::{
    Call, PendingReceiver, PendingReply, PendingSender, Promise, Proxy, Receiver, Sender, Service,
    UnclaimedReceiver, UnclaimedSender,
};
use aldrin::{
    BusListener, Discoverer, DiscovererEvent, Error, Handle, Lifetime, LifetimeId, UnknownCall,
};
use aldrin_core::{
    tags, BusEvent, ChannelCookie, Deserialize, DeserializeError, Deserializer, ObjectId,
    ObjectUuid, SerializedValue, ServiceId, ServiceUuid, Value,
};
use futures_core::stream::{FusedStream, Stream};
use futures_util::Sink;
use std::future::{poll_fn, Future};
use std::pin::{pin, Pin};
use std::task::{Context, Poll};

type Sv = SerializedValue;

/// A value that can't be serialized, but only fails after most of it was.
pub fn unserializable() -> Value {
    let deep = (0..40).fold(Value::None, |v, _| Value::Some(Box::new(v)));
    Value::Vec(vec![Value::U32(1), deep])
}

pub fn unserialized<T>(r: &Result<T, Error>) -> bool {
    matches!(r, Err(Error::Serialize(_)))
}

/// Something no value can be deserialized to.
pub struct Refuse;

impl Deserialize<tags::Value> for Refuse {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        d.skip()?;
        Err(DeserializeError::InvalidSerialization)
    }
}

/// Polls a future that is created anew each time.
fn once<T>(cx: &mut Context, fut: impl Future<Output = T>) -> Poll<T> {
    pin!(fut).poll(cx)
}

// ---------------------------------------------------------------------------------------------
// Channels

pub enum Tx {
    Low(Sender),
    High(aldrin::Sender<Sv>),
}

impl Tx {
    pub fn flip(self) -> Self {
        match self {
            Self::Low(s) => Self::High(s.cast()),
            Self::High(s) => Self::Low(s.cast::<u8>().into_lowlevel()),
        }
    }

    pub fn cookie(&self) -> ChannelCookie {
        match self {
            Self::Low(s) => s.cookie(),
            Self::High(s) => s.cookie(),
        }
    }

    pub fn poll_receiver_closed(&mut self, how: u32, cx: &mut Context) -> Poll<()> {
        match (self, how % 2) {
            (Self::Low(s), 0) => s.poll_receiver_closed(cx),
            (Self::Low(s), _) => once(cx, s.receiver_closed()),
            (Self::High(s), 0) => s.poll_receiver_closed(cx),
            (Self::High(s), _) => once(cx, s.receiver_closed()),
        }
    }

    pub async fn send(&mut self, item: Sv, how: u32) -> Result<(), Error> {
        match self {
            Self::Low(s) => match how % 8 {
                0 => s.send_item(item).await,
                1 => {
                    s.send_ready().await?;
                    s.start_send_item(&item)
                }
                2 => s.send_serialized(item).await,
                3 => {
                    poll_fn(|cx| s.poll_send_ready(cx)).await?;
                    s.start_send_serialized(item)
                }
                4 => s.send_item_as::<tags::Value>(item).await,
                5 => {
                    // Being ready must last.
                    s.send_ready().await?;
                    s.send_ready().await?;
                    s.start_send_item_as::<tags::Value>(&item)
                }
                _ => sink(s, item).await,
            },
            Self::High(s) => match how % 8 {
                0 => s.send_item(item).await,
                1 => {
                    s.send_ready().await?;
                    s.start_send_item(&item)
                }
                2 => s.send_item_val(item).await,
                3 => {
                    poll_fn(|cx| s.poll_send_ready(cx)).await?;
                    s.start_send_item_val(item)
                }
                4 => s.send_item(&item).await,
                _ => sink(s, item).await,
            },
        }
    }

    /// The first half of sending.
    pub async fn ready(&mut self) -> Result<(), Error> {
        match self {
            Self::Low(s) => s.send_ready().await,
            Self::High(s) => s.send_ready().await,
        }
    }

    /// The second half of sending.
    pub fn start(&mut self, item: Sv, how: u32) -> Result<(), Error> {
        match (self, how % 4) {
            (Self::Low(s), 0) => s.start_send_item(&item),
            (Self::Low(s), 1) => s.start_send_serialized(item),
            (Self::Low(s), 2) => s.start_send_item_as::<tags::Value>(item),
            (Self::Low(s), _) => Pin::new(s).start_send(item),
            (Self::High(s), 0) => s.start_send_item(&item),
            (Self::High(s), 1) => s.start_send_item_val(item),
            (Self::High(s), _) => Sink::<Sv>::start_send(Pin::new(s), item),
        }
    }

    /// The second half of sending, with something that can't be sent.
    pub fn start_bad(&mut self, how: u32) -> Result<(), Error> {
        let bad = unserializable();
        match (self, how % 2) {
            (Self::Low(s), 0) => s.start_send_item(&bad),
            (Self::Low(s), _) => s.start_send_item_as::<tags::Value>(bad),
            (Self::High(s), 0) => s.start_send_item(bad),
            (Self::High(s), _) => Sink::<Value>::start_send(Pin::new(s), bad),
        }
    }

    pub async fn close(&mut self, how: u32) -> Result<(), Error> {
        match (self, how % 3) {
            (Self::Low(s), 0) => s.close().await,
            (Self::Low(s), 1) => poll_fn(|cx| s.poll_close(cx)).await,
            (Self::Low(s), _) => poll_fn(|cx| Sink::poll_close(Pin::new(&mut *s), cx)).await,
            (Self::High(s), 0) => s.close().await,
            (Self::High(s), 1) => poll_fn(|cx| s.poll_close(cx)).await,
            (Self::High(s), _) => {
                poll_fn(|cx| Sink::<Sv>::poll_close(Pin::new(&mut *s), cx)).await
            }
        }
    }
}

async fn sink<S: Sink<Sv, Error = Error> + Unpin>(s: &mut S, item: Sv) -> Result<(), Error> {
    let mut s = Pin::new(s);
    poll_fn(|cx| s.as_mut().poll_ready(cx)).await?;
    s.as_mut().start_send(item)?;
    poll_fn(|cx| s.as_mut().poll_flush(cx)).await
}

pub enum Rx {
    Low(Receiver),
    High(aldrin::Receiver<Sv>),
}

impl Rx {
    pub fn flip(self) -> Self {
        match self {
            Self::Low(r) => Self::High(r.cast()),
            Self::High(r) => Self::Low(r.cast::<u8>().into_lowlevel()),
        }
    }

    pub fn cookie(&self) -> ChannelCookie {
        match self {
            Self::Low(s) => s.cookie(),
            Self::High(s) => s.cookie(),
        }
    }

    pub fn poll_next(&mut self, how: u32, cx: &mut Context) -> Poll<Result<Option<Sv>, Error>> {
        match self {
            Self::Low(r) => match how % 6 {
                0 => r.poll_next_serialized(cx).map(Ok),
                1 => r.poll_next_item(cx),
                2 => Pin::new(r).poll_next(cx).map(Ok),
                3 => r.poll_next_item_as::<tags::Value, _>(cx),
                4 => once(cx, r.next_serialized()).map(Ok),
                _ => match r.is_terminated() {
                    true => once(cx, r.next_item()),
                    false => once(cx, r.next_item_as::<tags::Value, _>()),
                },
            },
            Self::High(r) => match how % 6 {
                0 => r.poll_next_item(cx),
                1 => Pin::new(r).poll_next(cx).map(Option::transpose),
                2 => r.poll_next_item_as::<Sv>(cx),
                3 => once(cx, r.next_item()),
                _ => once(cx, r.next_item_as::<Sv>()),
            },
        }
    }

    /// Takes an item out, but fails to make sense of it.
    pub fn poll_refuse(&mut self, how: u32, cx: &mut Context) -> Poll<Result<bool, Error>> {
        let r = match (self, how % 2) {
            (Self::Low(r), 0) => r.poll_next_item_as::<tags::Value, Refuse>(cx),
            (Self::Low(r), _) => once(cx, r.next_item_as::<tags::Value, Refuse>()),
            (Self::High(r), 0) => r.poll_next_item_as::<Refuse>(cx),
            (Self::High(r), _) => once(cx, r.next_item_as::<Refuse>()),
        };
        match r {
            Poll::Ready(Err(Error::InvalidItem(_))) => Poll::Ready(Ok(true)),
            Poll::Ready(Ok(None)) => Poll::Ready(Ok(false)),
            Poll::Ready(Ok(Some(Refuse))) => Poll::Ready(Err(Error::NotSupported)),
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }

    /// What [`poll_next`](Self::poll_next) returned last has to agree with this.
    pub fn is_terminated(&self) -> bool {
        match self {
            Self::Low(r) => r.is_terminated(),
            Self::High(r) => r.is_terminated(),
        }
    }

    pub async fn close(&mut self, how: u32) -> Result<(), Error> {
        match (self, how % 2) {
            (Self::Low(r), 0) => r.close().await,
            (Self::Low(r), _) => poll_fn(|cx| r.poll_close(cx)).await,
            (Self::High(r), 0) => r.close().await,
            (Self::High(r), _) => poll_fn(|cx| r.poll_close(cx)).await,
        }
    }
}

pub async fn claim_sender(u: UnclaimedSender, how: u32) -> Result<Tx, Error> {
    match how % 4 {
        0 => u.claim().await.map(Tx::Low),
        1 => u.cast::<Sv>().claim().await.map(Tx::High),
        2 => {
            let h = u.client().clone();
            u.unbind().claim(h).await.map(Tx::Low)
        }
        _ => {
            let h = u.client().clone();
            let u = u.cast::<u8>().unbind();
            u.cast::<Sv>().claim(h).await.map(Tx::High)
        }
    }
}

pub async fn claim_receiver(u: UnclaimedReceiver, cap: u32, how: u32) -> Result<Rx, Error> {
    match how % 4 {
        0 => u.claim(cap).await.map(Rx::Low),
        1 => u.cast::<Sv>().claim(cap).await.map(Rx::High),
        2 => {
            let h = u.client().clone();
            u.unbind().claim(h, cap).await.map(Rx::Low)
        }
        _ => {
            let h = u.client().clone();
            let u = u.cast::<u8>().unbind();
            u.cast::<Sv>().claim(h, cap).await.map(Rx::High)
        }
    }
}

pub async fn establish_sender(mut p: PendingSender, how: u32) -> Result<Tx, Error> {
    match how % 4 {
        0 => p.establish().await.map(Tx::Low),
        1 => {
            p.wait_established().await;
            p.establish().await.map(Tx::Low)
        }
        2 => p.cast::<Sv>().establish().await.map(Tx::High),
        _ => {
            let mut p = p.cast::<Sv>();
            poll_fn(|cx| p.poll_wait_established(cx)).await;
            let mut p = p.into_lowlevel().cast::<Sv>();
            p.wait_established().await;
            p.establish().await.map(Tx::High)
        }
    }
}

pub async fn establish_receiver(mut p: PendingReceiver, how: u32) -> Result<Rx, Error> {
    match how % 4 {
        0 => p.establish().await.map(Rx::Low),
        1 => {
            p.wait_established().await;
            p.establish().await.map(Rx::Low)
        }
        2 => p.cast::<Sv>().establish().await.map(Rx::High),
        _ => {
            let mut p = p.cast::<Sv>();
            poll_fn(|cx| p.poll_wait_established(cx)).await;
            let mut p = p.into_lowlevel().cast::<Sv>();
            p.wait_established().await;
            p.establish().await.map(Rx::High)
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Calls

pub fn poll_call(svc: &mut Service, how: u32, cx: &mut Context) -> Poll<Option<Call>> {
    match how % 3 {
        0 => svc.poll_next_call(cx),
        1 => Pin::new(svc).poll_next(cx),
        _ => once(cx, svc.next_call()),
    }
}

pub fn poll_event(
    proxy: &mut Proxy,
    how: u32,
    cx: &mut Context,
) -> Poll<Option<aldrin::low_level::Event>> {
    match how % 3 {
        0 => proxy.poll_next_event(cx),
        1 => Pin::new(proxy).poll_next(cx),
        _ => once(cx, proxy.next_event()),
    }
}

/// A call that was received, in one of the forms it can be answered in.
pub enum Answer {
    Promise(Promise),
    Call(Call),
    Unknown(UnknownCall),
    HighCall(aldrin::Call<Sv, Sv, Sv>),
    HighPromise(aldrin::Promise<Sv, Sv>),
}

#[derive(Clone)]
pub enum Outcome {
    Ok(Sv),
    Err(Sv),
    Done,
    Abort,
    InvalidFunction,
    InvalidArgs,
    Drop,
}

impl Answer {
    pub fn new(mut call: Call, how: u32) -> Result<Self, String> {
        let before = call.args().to_owned();
        let id = (call.id(), call.version(), call.service());
        let (this, args) = match how % 8 {
            0 => {
                let args = call.take_args();
                (Self::Promise(call.into_promise()), args)
            }
            1 => {
                let (args, p) = call.into_args_and_promise();
                (Self::Promise(p), args)
            }
            2 => {
                let args = call.take_args();
                (Self::Call(call), args)
            }
            3 => {
                let args = call.args().to_owned();
                (Self::Unknown(call.into_unknown_call()), args)
            }
            4 => {
                let u = call.into_unknown_call();
                let args = u.args().to_owned();
                (Self::Call(u.into_low_level()), args)
            }
            5 => {
                let mut u = call.into_unknown_call();
                match id.0 % 2 {
                    0 => {
                        let (args, p) = u.into_args_and_promise();
                        (Self::HighPromise(p.cast()), args)
                    }
                    _ => {
                        let args = u.take_args();
                        (Self::Promise(u.into_promise()), args)
                    }
                }
            }
            n => {
                let r = if n == 6 {
                    call.deserialize_and_cast::<Sv, Sv, Sv>()
                } else {
                    call.into_unknown_call().deserialize_and_cast::<Sv, u8, u8>().map(|c| c.cast())
                };
                let c = r.map_err(|e| format!("casting a call failed with {e:?}"))?;
                let args = c.args().clone();
                match id.0 % 2 {
                    0 => (Self::HighCall(c), args),
                    _ => {
                        let (args, p) = c.into_args_and_promise();
                        (Self::HighPromise(p), args)
                    }
                }
            }
        };
        let after = match &this {
            Self::Promise(p) => (p.id(), p.version(), p.service()),
            Self::Call(c) => (c.id(), c.version(), c.service()),
            Self::Unknown(c) => (c.id(), c.version(), c.service()),
            Self::HighCall(c) => (c.id(), c.version(), c.service()),
            Self::HighPromise(p) => (p.id(), p.version(), p.service()),
        };
        if after != id || args != before {
            return Err(format!("a call changed from {id:?} to {after:?}"));
        }
        Ok(this)
    }

    /// Answers with invalid arguments because they can't be deserialized.
    pub fn bad_args(call: Call, how: u32) -> Result<(), Error> {
        let r = if how % 2 == 0 {
            call.deserialize_and_cast::<u8, Sv, Sv>().map(|_| ())
        } else {
            call.into_unknown_call().deserialize_and_cast::<String, Sv, Sv>().map(|_| ())
        };
        match r {
            Err(Error::InvalidArguments(_)) => Ok(()),
            r => r.and(Err(Error::NotSupported)),
        }
    }

    /// What the caller gets if this is dropped without being answered.
    pub fn dropped_is_invalid_function(&self) -> bool {
        matches!(self, Self::Unknown(_))
    }

    pub fn poll_aborted(&mut self, how: u32, cx: &mut Context) -> Poll<()> {
        match (self, how % 2) {
            (Self::Promise(p), 0) => p.poll_aborted(cx),
            (Self::Promise(p), _) => once(cx, p.aborted()),
            (Self::Call(p), 0) => p.poll_aborted(cx),
            (Self::Call(p), _) => once(cx, p.aborted()),
            (Self::Unknown(p), 0) => p.poll_aborted(cx),
            (Self::Unknown(p), _) => once(cx, p.aborted()),
            (Self::HighCall(p), 0) => p.poll_aborted(cx),
            (Self::HighCall(p), _) => once(cx, p.aborted()),
            (Self::HighPromise(p), 0) => p.poll_aborted(cx),
            (Self::HighPromise(p), _) => once(cx, p.aborted()),
        }
    }

    pub fn is_aborted(&mut self) -> bool {
        match self {
            Self::Promise(p) => p.is_aborted(),
            Self::Call(p) => p.is_aborted(),
            Self::Unknown(p) => p.is_aborted(),
            Self::HighCall(p) => p.is_aborted(),
            Self::HighPromise(p) => p.is_aborted(),
        }
    }

    /// Answers with something that can't be serialized.
    pub fn answer_bad(self, how: u32) -> Result<(), Error> {
        let bad = unserializable();
        macro_rules! low {
            ($p:expr) => {
                match how % 4 {
                    0 => $p.ok(&bad),
                    1 => $p.set(Ok::<_, Sv>(bad)),
                    2 => $p.err_as::<tags::Value>(&bad),
                    _ => $p.set(Err::<Sv, _>(bad)),
                }
            };
        }
        match self {
            Self::Promise(p) => low!(p),
            Self::Call(p) => low!(p),
            Self::Unknown(p) => low!(p),
            Self::HighCall(p) if how % 2 == 0 => p.ok(bad),
            Self::HighCall(p) => p.err(bad),
            Self::HighPromise(p) if how % 2 == 0 => p.ok(bad),
            Self::HighPromise(p) => p.err(bad),
        }
    }

    pub fn answer(self, o: Outcome, how: u32) -> Result<(), Error> {
        macro_rules! low {
            ($p:expr) => {
                match (o, how % 3) {
                    (Outcome::Ok(v), 0) => $p.ok(v),
                    (Outcome::Ok(v), 1) => $p.set(Ok::<_, Sv>(v)),
                    (Outcome::Ok(v), _) => $p.ok_as::<tags::Value>(&v),
                    (Outcome::Err(v), 0) => $p.err(v),
                    (Outcome::Err(v), 1) => $p.set(Err::<Sv, _>(v)),
                    (Outcome::Err(v), _) => $p.err_as::<tags::Value>(&v),
                    (Outcome::Done, 0) => $p.done(),
                    (Outcome::Done, _) => $p.ok(()),
                    (Outcome::Abort, _) => $p.abort(),
                    (Outcome::InvalidFunction, _) => $p.invalid_function(),
                    (Outcome::InvalidArgs, _) => $p.invalid_args(),
                    (Outcome::Drop, _) => Ok(()),
                }
            };
        }
        match self {
            Self::Promise(p) => low!(p),
            Self::Call(p) => low!(p),
            Self::Unknown(p) => low!(p),
            Self::HighCall(p) => match (o, how % 3) {
                (Outcome::Ok(v), 0) => p.ok(v),
                (Outcome::Ok(v), 1) => p.set(Ok::<_, Sv>(v)),
                (Outcome::Ok(v), _) => p.ok_val(v),
                (Outcome::Err(v), 0) => p.err(v),
                (Outcome::Err(v), 1) => p.set_val(Err(v)),
                (Outcome::Err(v), _) => p.err_val(v),
                (Outcome::Done, 0) => p.cast::<(), Sv>().done(),
                (Outcome::Done, _) => p.cast::<(), Sv>().ok_val(()),
                (Outcome::Abort, _) => p.abort(),
                (Outcome::InvalidFunction, _) => p.invalid_function(),
                (Outcome::InvalidArgs, _) => p.invalid_args(),
                (Outcome::Drop, _) => Ok(()),
            },
            Self::HighPromise(p) => match (o, how % 3) {
                (Outcome::Ok(v), 0) => p.ok(v),
                (Outcome::Ok(v), 1) => p.set_val(Ok(v)),
                (Outcome::Ok(v), _) => p.ok_val(v),
                (Outcome::Err(v), 0) => p.err(v),
                (Outcome::Err(v), 1) => p.set(Err::<Sv, _>(v)),
                (Outcome::Err(v), _) => p.err_val(v),
                (Outcome::Done, 0) => p.cast::<(), Sv>().done(),
                (Outcome::Done, _) => p.into_low_level().done(),
                (Outcome::Abort, _) => p.abort(),
                (Outcome::InvalidFunction, _) => p.invalid_function(),
                (Outcome::InvalidArgs, _) => p.invalid_args(),
                (Outcome::Drop, _) => Ok(()),
            },
        }
    }
}

/// A reply that is awaited; aborted in one of two ways if dropped before.
pub struct Reply {
    inner: Option<PendingReply>,
    how: u32,
}

impl Reply {
    pub fn new(inner: PendingReply, how: u32) -> Self {
        Self {
            inner: Some(inner),
            how,
        }
    }

    /// The function id and the result.
    pub async fn get(mut self) -> Result<(u32, Result<Sv, Sv>), Error> {
        match self.how % 4 {
            0 | 1 => {
                let r = poll_fn(|cx| Pin::new(self.inner.as_mut().expect("reply")).poll(cx)).await;
                self.inner = None;
                r.map(|r| (r.id(), r.into_args()))
            }
            2 => {
                let r = self.inner.take().expect("reply").cast::<Sv, Sv>().await?;
                let id = r.id();
                Ok((id, r.into_args()))
            }
            _ => {
                let mut p = self.inner.take().expect("reply").cast::<u8, u8>().cast::<Sv, Sv>();
                let r = poll_fn(|cx| p.poll_reply_as::<Sv, Sv>(cx)).await?;
                let id = r.id();
                Ok((id, r.into_args()))
            }
        }
    }
}

impl Drop for Reply {
    fn drop(&mut self) {
        if let Some(r) = self.inner.take() {
            if self.how % 2 == 0 {
                r.abort();
            }
        }
    }
}

pub fn is_unit(v: &Sv) -> bool {
    val::decode(v).is_ok_and(|d| d.value == val::V::None)
}

// ---------------------------------------------------------------------------------------------
// Bus listeners, discoverers, lifetimes, lookups

pub fn poll_listener(l: &mut BusListener, how: u32, cx: &mut Context) -> Poll<Option<BusEvent>> {
    match how % 3 {
        0 => l.poll_next_event(cx),
        1 => Pin::new(l).poll_next(cx),
        _ => once(cx, l.next_event()),
    }
}

pub fn poll_discoverer(
    d: &mut Discoverer<u32>,
    how: u32,
    cx: &mut Context,
) -> Poll<Option<DiscovererEvent<u32>>> {
    match how % 3 {
        0 => d.poll_next_event(cx),
        1 => Pin::new(d).poll_next(cx),
        _ => once(cx, d.next_event()),
    }
}

pub async fn lifetime(handle: &Handle, id: ObjectId, how: u32) -> Result<Lifetime, Error> {
    // Usually, one gets to know it from somebody else.
    let sent = |id: LifetimeId| {
        let v = SerializedValue::serialize(id).expect("serialize");
        v.deserialize::<LifetimeId>().expect("deserialize")
    };
    match how % 4 {
        0 => handle.create_lifetime(LifetimeId(id)).await,
        1 => LifetimeId::from(id).bind(handle).await,
        2 => sent(LifetimeId(id)).bind(handle).await,
        _ => Lifetime::new(handle, LifetimeId(id)).await,
    }
}

pub async fn ended(lt: &mut Lifetime, how: u32) {
    match how % 3 {
        0 => lt.ended().await,
        1 => lt.await,
        _ => poll_fn(|cx| lt.poll_ended(cx)).await,
    }
}

type Found = (ObjectId, Vec<ServiceId>);

fn fixed<const N: usize>((o, s): (ObjectId, [ServiceId; N])) -> Found {
    (o, s.to_vec())
}

/// The array if there are exactly that many.
fn array<const N: usize>(v: &[ServiceUuid]) -> Option<[ServiceUuid; N]> {
    v.try_into().ok()
}

pub async fn find(
    h: &Handle,
    obj: Option<ObjectUuid>,
    svcs: &[ServiceUuid],
    how: u32,
) -> Result<Option<Found>, Error> {
    let all = || svcs.iter().copied();
    let (one, two) = (array::<1>(svcs), array::<2>(svcs));
    match (how % 3, obj, one, two) {
        (0, ..) => h.find_object(obj, all()).await,
        (1, Some(o), ..) if svcs.is_empty() => {
            Ok(h.find_bare_object(o).await?.map(|o| (o, Vec::new())))
        }
        (1, Some(o), ..) => h.find_object_with_services(o, all()).await,
        (1, None, ..) => h.find_any_object_with_services(all()).await,
        (_, Some(o), Some(s), _) => {
            Ok(h.find_object_with_services_n(o, &s).await?.map(fixed))
        }
        (_, None, Some(s), _) => Ok(h.find_any_object_with_services_n(&s).await?.map(fixed)),
        (_, _, _, Some(s)) => Ok(h.find_object_n(obj, &s).await?.map(fixed)),
        _ => h.find_object(obj, all()).await,
    }
}

pub async fn wait_for(
    h: &Handle,
    obj: Option<ObjectUuid>,
    svcs: &[ServiceUuid],
    how: u32,
) -> Result<Found, Error> {
    let all = || svcs.iter().copied();
    let (one, two) = (array::<1>(svcs), array::<2>(svcs));
    match (how % 3, obj, one, two) {
        (0, ..) => h.wait_for_object(obj, all()).await,
        (1, Some(o), ..) if svcs.is_empty() => Ok((h.wait_for_bare_object(o).await?, Vec::new())),
        (1, Some(o), ..) => h.wait_for_object_with_services(o, all()).await,
        (1, None, ..) => h.wait_for_any_object_with_services(all()).await,
        (_, Some(o), Some(s), _) => Ok(fixed(h.wait_for_object_with_services_n(o, &s).await?)),
        (_, None, Some(s), _) => Ok(fixed(h.wait_for_any_object_with_services_n(&s).await?)),
        (_, _, _, Some(s)) => Ok(fixed(h.wait_for_object_n(obj, &s).await?)),
        _ => h.wait_for_object(obj, all()).await,
    }
}
