//! C08: pending requests and their responses.
//! bound: histories of 4 (thorough 5) steps, each a registration, a response (to this transport, or naming one of two transports), or a cancellation, over 3 ids: two symbolic numbers and a symbolic one-digit string that may look like them; the runtime runs queued deliveries after each step or only at the end
//! bound: responses are a success with a unique value or an error
//! outside: more ids and longer histories; one protocol object serves one transport, as its constructor makes it
use pmcp::shared::protocol::{Protocol, ProtocolOptions, TransportId};
use pmcp::types::jsonrpc::{JSONRPCError, JSONRPCResponse, ResponsePayload};
use pmcp::types::RequestId;
use serde_json::json;
use vph::*;

#[derive(Clone)]
struct Wait { id: usize, state: u8, got: i64 } // 0 pending, 1 completed with `got`, 2 dropped
fn same(ids: &[RequestId], a: usize, b: usize) -> bool {
    match (&ids[a], &ids[b]) { (RequestId::Number(x), RequestId::Number(y)) => fixb(x == y), (RequestId::String(_), RequestId::String(_)) => true, _ => false }
}
fn history(own: bool, steps: usize) {
    let late = fixb(any_bool("late"));
    rt(async move {
        let t = [TransportId::from_string("one".into()), TransportId::from_string("two".into())];
        let mut p = if own { Protocol::new(ProtocolOptions::default()) } else { Protocol::with_transport_id(ProtocolOptions::default(), t[0].clone()) };
        check(p.options().debounced_notification_methods.is_empty(), "options");
        let ids = [RequestId::Number(any_i64("n1")), RequestId::Number(any_i64("n2")), RequestId::String(over("s", 1, b"12"))];
        let mut w: Vec<Wait> = vec![];
        let mut rx = vec![];
        for k in 0..steps as i64 {
            let i = pick("id", 3);
            let op = pick("op", 5);
            // the waiting request with this id, if any
            let cur = w.iter().position(|x| x.state == 0 && same(&ids, x.id, i));
            let resp = || if k % 2 == 0 { JSONRPCResponse::success(ids[i].clone(), json!(k)) } else { JSONRPCResponse::error(ids[i].clone(), JSONRPCError::new(k as i32, "e")) };
            match op {
                0 => {
                    rx.push(p.register_request(ids[i].clone()));
                    if let Some(c) = cur { w[c].state = 2; }
                    w.push(Wait { id: i, state: 0, got: 0 });
                }
                1 => {
                    check(p.complete_request(&ids[i], resp()).is_ok(), "completing a request fails");
                    if let Some(c) = cur { w[c].state = 1; w[c].got = k; cover("completed"); } else { cover("nobody waits"); }
                }
                2 | 3 => {
                    let which = op - 2;
                    let hit = cur.is_some() && which == 0 && !own;
                    let tid = if own && which == 0 { p.transport_id().clone() } else { t[which].clone() };
                    let hit = hit || (own && which == 0 && cur.is_some());
                    let r = p.complete_request_for_transport(&ids[i], resp(), &tid);
                    check(matches!(r, Ok(x) if x == hit), "a response for a transport reports a completion that did not happen, or the other way round");
                    if hit { let c = cur.unwrap(); w[c].state = 1; w[c].got = k; cover("completed for its transport"); } else if cur.is_some() { cover("response from another transport"); }
                }
                _ => { p.cancel_request(&ids[i]); if let Some(c) = cur { w[c].state = 2; cover("cancelled"); } }
            }
            if !late { tokio::task::yield_now().await; tokio::task::yield_now().await; }
        }
        for _ in 0..3 { tokio::task::yield_now().await; }
        for (x, r) in w.iter().zip(rx.iter_mut()) {
            match r.try_recv() {
                Ok(m) => {
                    check(x.state == 1, "a request that was not answered, or was cancelled, is completed");
                    check(matches!((&m.id, &ids[x.id]), (RequestId::Number(a), RequestId::Number(b)) if a == b) || matches!((&m.id, &ids[x.id]), (RequestId::String(a), RequestId::String(b)) if eqs(a, b)), "a request is completed with another id's response");
                    let v = match &m.payload { ResponsePayload::Result(v) => { v.as_i64().unwrap_or(-1) } ResponsePayload::Error(e) => e.code as i64 };
                    check(v == x.got, "a request is completed with another response");
                }
                Err(tokio::sync::oneshot::error::TryRecvError::Empty) => check(x.state == 0, "an answered or cancelled request stays pending"),
                Err(_) => check(x.state == 2, "a waiting request lost its response channel"),
            }
        }
    });
}
harness! {
    h_c08_named { history(false, tier(4, 5)); }
    h_c08_own { history(true, tier(4, 5)); }
    h_c08_other {
        // a protocol of one transport and one of another: nothing crosses
        rt(async {
            let (a, b) = (TransportId::from_string(over("a", 1, b"xy")), TransportId::from_string(over("b", 1, b"xy")));
            let mut p = Protocol::with_transport_id(ProtocolOptions::default(), a.clone());
            let mut q = Protocol::with_transport_id(ProtocolOptions::default(), b.clone());
            let id = RequestId::Number(any_i64("n"));
            let (mut r1, mut r2) = (p.register_request(id.clone()), q.register_request(id.clone()));
            let ok = p.complete_request_for_transport(&id, JSONRPCResponse::success(id.clone(), json!(1)), &b).unwrap();
            check(fixb(ok) == fixb(a == b), "a response crosses transports");
            q.complete_request(&id, JSONRPCResponse::success(id.clone(), json!(2))).unwrap();
            for _ in 0..3 { tokio::task::yield_now().await; }
            check(matches!(r2.try_recv(), Ok(m) if matches!(m.payload, ResponsePayload::Result(ref v) if v.as_i64() == Some(2))), "a response is lost or changed");
            check(r1.try_recv().is_ok() == ok, "a request on another transport is affected");
            cover("two transports");
            // fresh transports are told apart
            check(TransportId::new() != TransportId::new(), "two fresh transports have the same id");
        });
    }
}
