//! C04: JSON-RPC envelopes.
//! bound: ids: every string of up to 2 ASCII bytes or one 3-byte UTF-8 text, every number -999..=999 and the boundary numbers of i64 and of double precision; every id text of up to 4 ASCII bytes
//! bound: methods of up to 2 ASCII bytes; params, results and error data: null, booleans, small numbers, one-byte strings, arrays and objects of them
//! bound: classification: every combination of present, null and absent id, method, params, result and error members
//! outside: deeper payloads, ids longer than the bound
use pmcp::shared::stdio::StdioTransport;
use pmcp::shared::TransportMessage;
use pmcp::types::jsonrpc::{MessageType, RawMessage, ResponsePayload};
use pmcp::types::*;
use serde_json::{json, Value};
use vph::*;

const NUMS: [i64; 14] = [0, -1, 1, 999_999, i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, u32::MAX as i64 + 1, i32::MAX as i64, i32::MIN as i64];
fn id() -> RequestId {
    match pick("idkind", 3) {
        0 => RequestId::String(ascii_upto("id", 1)),
        1 => RequestId::String(["1", "-7", "", "null", "1e3"][pick("idc", 5)].into()),
        _ => RequestId::Number(NUMS[pick("idn", 14)]),
    }
}
fn ideq(a: &RequestId, b: &RequestId) -> bool {
    match (a, b) { (RequestId::String(x), RequestId::String(y)) => eqs(x, y), (RequestId::Number(x), RequestId::Number(y)) => x == y, _ => false }
}
fn val(n: &str) -> Value {
    match pick(n, 9) {
        0 => Value::Null,
        1 => Value::Bool(any_bool(&format!("{n}b"))),
        2 => json!(any_in(&format!("{n}n"), 0, 99)),
        3 => Value::String(ascii(&format!("{n}s"), 1)),
        4 => json!([]),
        5 => json!([ascii(&format!("{n}s"), 1), null]),
        6 => json!({}),
        7 => json!({"result": ascii(&format!("{n}s"), 1), "error": 1}),
        _ => json!({"id": {"method": ascii(&format!("{n}s"), 1)}}),
    }
}
fn text<T: serde::Serialize>(x: &T) -> String { match serde_json::to_string(x) { Ok(s) => s, Err(_) => { check(false, "serialisation fails"); unreachable!() } } }
fn parse<'a, T: serde::Deserialize<'a>>(s: &'a str) -> T { match serde_json::from_str(s) { Ok(s) => s, Err(_) => { check(false, "own text does not parse"); unreachable!() } } }
harness! {
    h_c04_request {
        let i = id();
        let m = ascii_upto("m", 1);
        let params = match pick("p", 3) { 0 => None, 1 => Some(json!({"k": ascii("pv", 1)})), _ => Some(json!([1, any_bool("pb")])) };
        let r: JSONRPCRequest<Value> = JSONRPCRequest::new(i.clone(), m.clone(), params.clone());
        let t = text(&r);
        let q: JSONRPCRequest<Value> = parse(&t);
        check(ideq(&q.id, &i), "request id changes");
        check(eqs(&q.method, &m), "request method changes");
        check(match (&q.params, &params) { (None, None) => true, (Some(a), Some(b)) => veq(a, b), _ => false }, "request params change");
        check(q.validate().is_ok(), "own request is not version 2.0");
        let raw: RawMessage = parse(&t);
        check(raw.message_type() == MessageType::Request, "a request is classified as something else");
        cover("request");
    }
    h_c04_response {
        let i = match pick("idkind", 4) { 0 => RequestId::String(ascii_upto("id", 1)), 1 => RequestId::String("7".into()), 2 => RequestId::Number(7), _ => RequestId::Number(i64::MIN) };
        let v = val("v");
        let err = fixb(any_bool("err"));
        let code = [-32700, -32600, -32603, -32000, 0, 1, i32::MIN, i32::MAX][if err { pick("code", 8) } else { 0 }];
        let msg = if err { ascii("msg", 1) } else { String::new() };
        let hasdata = err && fixb(any_bool("hasdata"));
        let r: JSONRPCResponse = if err {
            assume(!matches!(v, Value::Null));
            JSONRPCResponse::error(i.clone(), if hasdata { JSONRPCError::with_data(code, msg.clone(), v.clone()) } else { JSONRPCError::new(code, msg.clone()) })
        } else { JSONRPCResponse::success(i.clone(), v.clone()) };
        let t = text(&r);
        let q: JSONRPCResponse = parse(&t);
        check(ideq(&q.id, &i), "response id changes");
        check(q.is_error() == err && q.is_success() != err, "response changes between result and error");
        match &q.payload {
            ResponsePayload::Result(x) => { check(veq(x, &v), "result changes"); cover("result"); }
            ResponsePayload::Error(e) => { check(e.code == code, "error code changes"); check(eqs(&e.message, &msg), "error message changes"); check(match &e.data { None => !hasdata, Some(d) => hasdata && veq(d, &v) }, "error data changes"); cover("error"); }
        }
        let w: Value = parse(&t);
        check(w.get("result").is_some() != w.get("error").is_some(), "a response carries both or neither of result and error");
        check(w.get("method").is_none(), "a response carries a method");
        check(w.get("jsonrpc") == Some(&json!("2.0")), "a response is not version 2.0");
        let raw: RawMessage = parse(&t);
        check(raw.message_type() == if err { MessageType::ErrorResponse } else { MessageType::Response }, "a response is classified as something else");
    }
    h_c04_notification {
        let m = ascii_upto("m", 2);
        let params = match pick("p", 3) { 0 => None, 1 => Some(json!({"k": ascii("pv", 1)})), _ => Some(json!([1, any_bool("pb")])) };
        let r: JSONRPCNotification<Value> = JSONRPCNotification::new(m.clone(), params.clone());
        let t = text(&r);
        let q: JSONRPCNotification<Value> = parse(&t);
        check(eqs(&q.method, &m), "notification method changes");
        check(match (&q.params, &params) { (None, None) => true, (Some(a), Some(b)) => veq(a, b), _ => false }, "notification params change");
        let raw: RawMessage = parse(&t);
        check(raw.message_type() == MessageType::Notification, "a notification is classified as something else");
        check(parse::<Value>(&t).get("id").is_none(), "a notification carries an id");
    }
    h_c04_classify {
        let id = pick("id", 3); let method = fixb(any_bool("method")); let params = fixb(any_bool("params")); let result = pick("result", 3); let error = fixb(any_bool("error"));
        let mut t = String::from("{\"jsonrpc\":\"2.0\"");
        if id == 1 { t += ",\"id\":7"; } else if id == 2 { t += ",\"id\":\"7\""; }
        if method { t += ",\"method\":\"x\""; }
        if params { t += ",\"params\":{}"; }
        if result == 1 { t += ",\"result\":{}"; } else if result == 2 { t += ",\"result\":null"; }
        if error { t += ",\"error\":{\"code\":1,\"message\":\"m\"}"; }
        t += "}";
        let raw: RawMessage = parse(&t);
        let want = match (id > 0, method, result > 0, error) {
            (true, true, false, false) => MessageType::Request,
            (false, true, false, false) => MessageType::Notification,
            (true, false, true, false) => MessageType::Response,
            (true, false, false, true) => MessageType::ErrorResponse,
            _ => MessageType::Invalid,
        };
        check(raw.message_type() == want, "members present do not decide the kind");
        if want == MessageType::Invalid { cover("invalid"); } else { cover("valid"); }
    }
    h_c04_idnum {
        let i = RequestId::Number(any_in("ids", 0, 999) as i64 * if fixb(any_bool("neg")) { -1 } else { 1 });
        check(ideq(&parse::<RequestId>(&text(&i)), &i), "a numeric id changes on the wire");
    }
    h_c04_idstr {
        let i = RequestId::String(if fixb(any_bool("u8")) { utf8("idu", 3) } else { ascii_upto("id", tier(2, 3)) });
        check(ideq(&parse::<RequestId>(&text(&i)), &i), "a string id changes on the wire");
    }
    h_c04_idfloat {
        // text that is a number but not an integer is no id
        let t = ["1.5", "1.0", "1e2", "-0.0", "1E1", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "true", "null", "[]", "{}"][pick("t", 12)];
        check(serde_json::from_str::<RequestId>(t).is_err(), "something other than a string or a 64-bit integer is read as an id");
    }
    h_c04_idtext {
        let t = ascii_upto("t", tier(3, 4));
        for b in t.bytes() { assume(and(b != b'.', and(b != b'e', b != b'E'))); }
        if let Ok(i) = serde_json::from_str::<RequestId>(&t) {
            let back = text(&i);
            let again: RequestId = parse(&back);
            check(ideq(&i, &again), "an id changes when written again");
            match &i {
                RequestId::Number(n) => {
                    cover("number id");
                    let b = t.trim_matches(|c| c == ' ' || c == '\n' || c == '\t' || c == '\r').as_bytes();
                    let mut v: i64 = 0; let mut ok = !b.is_empty();
                    for (k, c) in b.iter().enumerate() { if *c == b'-' && k == 0 && b.len() > 1 { continue; } if *c < b'0' || *c > b'9' { ok = false; break; } v = v * 10 + (*c - b'0') as i64; }
                    check(ok, "a numeric id is read from text that is not an integer");
                    check(v == if b[0] == b'-' { -*n } else { *n }, "a numeric id changes value");
                }
                RequestId::String(s) => { cover("string id"); check(t.contains('"'), "a string id is read from unquoted text"); check(s.len() + 2 <= t.len(), "a string id is longer than its text"); }
            }
        }
    }
    h_c04_stdio {
        // the typed transport message through the wire form
        let i = id();
        let k = pick("k", 4);
        let s = ascii("s", 1);
        let m = match k {
            0 => TransportMessage::Request { id: i.clone(), request: Request::Client(Box::new(ClientRequest::Ping)) },
            1 => TransportMessage::Response(JSONRPCResponse::success(i.clone(), json!({"x": s.clone()}))),
            2 => TransportMessage::Response(JSONRPCResponse::error(i.clone(), JSONRPCError::new(-32601, s.clone()))),
            _ => TransportMessage::Notification(Notification::Server(ServerNotification::ResourceUpdated(pmcp::types::protocol::ResourceUpdatedParams { uri: s.clone() }))),
        };
        let derived = fixb(any_bool("derived"));
        let q: TransportMessage = if derived { parse(&text(&m)) } else {
            let b = match StdioTransport::serialize_message(&m) { Ok(b) => b, Err(_) => { check(false, "serialisation fails"); return } };
            match StdioTransport::parse_message(&b) { Ok(x) => x, Err(_) => { check(false, "own text does not parse"); return } }
        };
        match (k, q) {
            (0, TransportMessage::Request { id, request: Request::Client(c) }) => { check(ideq(&id, &i), "request id changes"); check(matches!(*c, ClientRequest::Ping), "request changes"); cover("wire request"); }
            (1, TransportMessage::Response(r)) => { check(ideq(&r.id, &i), "response id changes"); check(match r.result() { Some(v) => veq(v, &json!({"x": s})), None => false }, "result changes"); cover("wire response"); }
            (2, TransportMessage::Response(r)) => { check(ideq(&r.id, &i), "response id changes"); check(match r.get_error() { Some(e) => and(e.code == -32601, eqs(&e.message, &s)), None => false }, "error changes"); }
            (3, TransportMessage::Notification(Notification::Server(ServerNotification::ResourceUpdated(p)))) => { check(eqs(&p.uri, &s), "notification changes"); cover("wire notification"); }
            _ => check(false, "a message changes kind on the wire"),
        }
    }
}
