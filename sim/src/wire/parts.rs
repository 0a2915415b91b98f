//! Splits a message into a comparable skeleton, the identifiers chosen by the broker, and the
//! payload.

use aldrin_core::message::*;
use aldrin_core::{
    BusEvent, BusListenerCookie, ChannelCookie, ObjectCookie, ObjectId, SerializedValue,
    ServiceCookie, ServiceId,
};
use uuid::Uuid;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum IdKind {
    Obj,
    Svc,
    Chan,
    Listener,
    /// Serial the broker chose for a forwarded call.
    Callee,
    /// Serial the broker chose for an introspection query.
    Query,
}

#[derive(Debug, Clone)]
pub struct Parts {
    pub skel: Message,
    pub ids: Vec<(IdKind, u128)>,
    pub value: Option<SerializedValue>,
}

fn nil() -> Uuid {
    Uuid::nil()
}

fn o(c: &mut ObjectCookie, ids: &mut Vec<(IdKind, u128)>) {
    ids.push((IdKind::Obj, c.0.as_u128()));
    c.0 = nil();
}

fn s(c: &mut ServiceCookie, ids: &mut Vec<(IdKind, u128)>) {
    ids.push((IdKind::Svc, c.0.as_u128()));
    c.0 = nil();
}

fn ch(c: &mut ChannelCookie, ids: &mut Vec<(IdKind, u128)>) {
    ids.push((IdKind::Chan, c.0.as_u128()));
    c.0 = nil();
}

fn bl(c: &mut BusListenerCookie, ids: &mut Vec<(IdKind, u128)>) {
    ids.push((IdKind::Listener, c.0.as_u128()));
    c.0 = nil();
}

fn callee(serial: &mut u32, ids: &mut Vec<(IdKind, u128)>) {
    ids.push((IdKind::Callee, *serial as u128));
    *serial = 0;
}

fn oid(id: &mut ObjectId, ids: &mut Vec<(IdKind, u128)>) {
    o(&mut id.cookie, ids);
}

fn sid(id: &mut ServiceId, ids: &mut Vec<(IdKind, u128)>) {
    oid(&mut id.object_id, ids);
    s(&mut id.cookie, ids);
}

/// Dissects a message sent by the broker.
pub fn dissect(mut msg: Message) -> Parts {
    let mut ids = Vec::new();
    let i = &mut ids;

    match &mut msg {
        Message::CreateObjectReply(m) => {
            if let CreateObjectResult::Ok(c) = &mut m.result {
                o(c, i);
            }
        }
        Message::CreateServiceReply(m) => {
            if let CreateServiceResult::Ok(c) = &mut m.result {
                s(c, i);
            }
        }
        Message::CallFunction(m) => {
            callee(&mut m.serial, i);
            s(&mut m.service_cookie, i);
        }
        Message::CallFunction2(m) => {
            callee(&mut m.serial, i);
            s(&mut m.service_cookie, i);
        }
        Message::AbortFunctionCall(m) => callee(&mut m.serial, i),
        Message::QueryIntrospection(m) => {
            i.push((IdKind::Query, m.serial as u128));
            m.serial = 0;
        }
        Message::SubscribeEvent(m) => s(&mut m.service_cookie, i),
        Message::UnsubscribeEvent(m) => s(&mut m.service_cookie, i),
        Message::EmitEvent(m) => s(&mut m.service_cookie, i),
        Message::ServiceDestroyed(m) => s(&mut m.service_cookie, i),
        Message::SubscribeAllEvents(m) => s(&mut m.service_cookie, i),
        Message::UnsubscribeAllEvents(m) => s(&mut m.service_cookie, i),
        Message::CreateChannelReply(m) => ch(&mut m.cookie, i),
        Message::ChannelEndClosed(m) => ch(&mut m.cookie, i),
        Message::ChannelEndClaimed(m) => ch(&mut m.cookie, i),
        Message::ItemReceived(m) => ch(&mut m.cookie, i),
        Message::AddChannelCapacity(m) => ch(&mut m.cookie, i),
        Message::CreateBusListenerReply(m) => bl(&mut m.cookie, i),
        Message::BusListenerCurrentFinished(m) => bl(&mut m.cookie, i),
        Message::EmitBusEvent(m) => {
            if let Some(c) = &mut m.cookie {
                bl(c, i);
            }
            match &mut m.event {
                BusEvent::ObjectCreated(id) | BusEvent::ObjectDestroyed(id) => oid(id, i),
                BusEvent::ServiceCreated(id) | BusEvent::ServiceDestroyed(id) => sid(id, i),
            }
        }
        _ => {}
    }

    let value = msg
        .value_mut()
        .map(|v| std::mem::replace(v, crate::val::raw_value(&[0])));

    Parts {
        skel: msg,
        ids,
        value,
    }
}
