//! C05: error codes and conversions.
//! bound: every 32-bit code; messages of up to 2 ASCII bytes; data null, number, text, object
//! bound: every kind of error with symbolic text
//! outside: errors wrapping foreign error types beyond their message
use pmcp::error::{Error, ErrorCode, TransportError};
use pmcp::types::*;
use serde_json::{json, Value};
use vph::*;

const NAMED: [(i32, ErrorCode); 9] = [(-32700, ErrorCode::PARSE_ERROR), (-32600, ErrorCode::INVALID_REQUEST), (-32601, ErrorCode::METHOD_NOT_FOUND), (-32602, ErrorCode::INVALID_PARAMS), (-32603, ErrorCode::INTERNAL_ERROR),
    (-32001, ErrorCode::REQUEST_TIMEOUT), (-32002, ErrorCode::UNSUPPORTED_CAPABILITY), (-32003, ErrorCode::AUTHENTICATION_REQUIRED), (-32004, ErrorCode::PERMISSION_DENIED)];
/// What a received number must be reported as: itself, except that an unnamed number of the server range is the internal error.
fn want(c: i32) -> i32 {
    let mut named = false;
    for (n, _) in NAMED { named = or(named, c == n); }
    let reserved = and(c >= -32099, c <= -32000);
    ite(and(reserved, !named), -32603i32 as u32 as u64, c as u32 as u64) as u32 as i32
}
fn data(n: &str) -> Option<Value> { match pick(n, 5) { 0 => None, 1 => Some(json!(any_in("dn", 0, 9))), 2 => Some(json!(ascii("ds", 1))), 3 => Some(json!({"k": [ascii("ds", 1), null]})), _ => Some(json!(any_bool("db"))) } }
fn deq(a: &Option<Value>, b: &Option<Value>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => veq(a, b), _ => false } }
harness! {
    h_c05_codes {
        let c = any_i32("c");
        let e = ErrorCode::from_i32(c);
        check(e.as_i32() == want(c), "a code is reported as another one");
        check(ErrorCode::from_i32(e.as_i32()) == e, "converting a code twice changes it");
        check(ErrorCode::other(c).as_i32() == c, "a custom code changes");
        for (n, k) in NAMED { check(k.as_i32() == n, "a named code has the wrong number"); check(ErrorCode::from_i32(n) == k, "a named number is not its code"); }
        if fixb(e.as_i32() == c) { cover("kept"); } else { cover("reserved"); }
    }
    h_c05_from_wire {
        let c = any_i32("c");
        let m = ascii_upto("m", 2);
        let d = data("d");
        let e = Error::from_jsonrpc_error(JSONRPCError { code: c, message: m.clone(), data: d.clone() });
        check(match e.error_code() { Some(k) => k.as_i32() == want(c), None => false }, "a received error loses its code");
        check(e.is_error_code(ErrorCode::from_i32(c)), "a received error is not of its own code");
        let other = any_i32("o");
        check(e.is_error_code(ErrorCode::other(other)) == (other == want(c)), "an error is of a code it does not have");
        match &e { Error::Protocol { message, data, .. } => { check(eqs(message, &m), "a received error changes its message"); check(deq(data, &d), "a received error changes its data"); cover("received"); } _ => check(false, "a received error is not a protocol error") }
        // and back onto the wire
        let w: JSONRPCError = e.into();
        check(w.code == want(c), "a forwarded error changes its code");
        check(eqs(&w.message, &m), "a forwarded error changes its message");
        check(deq(&w.data, &d), "a forwarded error changes its data");
    }
    h_c05_to_wire {
        let c = any_i32("c");
        let m = ascii_upto("m", 2);
        let d = data("d");
        let e = match &d { None => Error::protocol(ErrorCode::other(c), m.clone()), Some(d) => Error::protocol_with_data(ErrorCode::other(c), m.clone(), d.clone()) };
        check(match e.error_code() { Some(k) => k.as_i32() == c, None => false }, "an error does not have the code it was built with");
        let w: JSONRPCError = e.into();
        check(w.code == c, "a wire error has another code than the error");
        check(eqs(&w.message, &m), "a wire error has another message than the error");
        check(deq(&w.data, &d), "a wire error has other data than the error");
        cover("sent");
    }
    h_c05_kinds {
        let m = ascii_upto("m", 1);
        let k = pick("k", 17);
        let e = match k {
            0 => Error::parse(m.clone()), 1 => Error::invalid_request(m.clone()), 2 => Error::method_not_found(m.clone()), 3 => Error::invalid_params(m.clone()), 4 => Error::protocol_msg(m.clone()),
            5 => Error::validation(m.clone()), 6 => Error::internal(m.clone()), 7 => Error::not_found(m.clone()), 8 => Error::authentication(m.clone()), 9 => Error::capability(m.clone()), 10 => Error::resource_not_found(m.clone()),
            11 => Error::cancelled(m.clone()), 12 => Error::Timeout(any_in("t", 0, 9)), 13 => Error::InvalidState(m.clone()), 14 => Error::Transport(TransportError::InvalidMessage(m.clone())), 15 => Error::Transport(TransportError::ConnectionClosed), _ => Error::Cancelled,
        };
        let code = e.error_code().map(|c| c.as_i32());
        let text = e.to_string();
        let own = match &e { Error::Protocol { message, .. } => Some(message.clone()), _ => None };
        match k { 0 => check(code == Some(-32700), "a parse error has another code"), 1 => check(code == Some(-32600), "an invalid request has another code"), 2 => check(code == Some(-32601), "an unknown method has another code"), 3 => check(code == Some(-32602), "invalid parameters have another code"), 4 => check(code == Some(-32603), "a plain protocol error has another code"), _ => {} }
        let w: JSONRPCError = e.into();
        check(w.code == code.unwrap_or(-32603), "a wire error has another code than its error");
        check(w.data.is_none(), "a wire error invents data");
        check(eqs(&w.message, own.as_ref().unwrap_or(&text)), "a wire error has another message than its error");
        if !m.is_empty() && k < 12 { check(contains(&w.message, &m), "a wire error loses the text it was built with"); }
        if code.is_none() { cover("internal"); } else { cover("protocol"); }
    }
}
fn contains(t: &str, p: &str) -> bool { let mut r = false; let (t, p) = (t.as_bytes(), p.as_bytes()); for i in 0..=t.len().saturating_sub(p.len()) { r = or(r, eq(&t[i..i + p.len()], p)); } r }
