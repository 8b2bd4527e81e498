//! C26: admission of streamable HTTP messages.
//! bound: histories of 3 (thorough 4) requests against one server, stateful or stateless, the first an initialisation, each later one an initialisation, a tool call, a notification, a response, a GET or a DELETE presenting no session id or that of any session made so far, deleted or not, or of one never made; the requested version one of the supported ones or another
//! bound: one message with any version header of up to 2 visible characters, any supported version, or none, under a session that negotiated a version or has none; one message with any session id of up to 2 visible characters
//! bound: header texts "application/json" and "text/event-stream" with any one byte replaced, cut short, or with parameters or other media types around them; bodies that are not JSON, or not a message
//! bound: two initialisations, a call and a deletion at the same time, every interleaving at lock granularity (up to 7, thorough 11 decisions)
//! bound: two threads: every pair of a call, deleting the session, opening its event stream and an initialisation, the second running at once before any atomic read-modify-write of the first (so between any two of its lock regions), or after it; no deadlock, and the outcome must be that of one of the two orders
//! outside: routing and the network itself; media types that contain the expected text (they are taken for it); session ids the configured generator repeats; handlers that panic
use futures::StreamExt;
use axum::http::{HeaderMap, HeaderValue};
use axum::response::Response;
use pmcp::server::streamable_http_server::*;
use pmcp::{RequestHandlerExtra, Server, ToolHandler};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Arc;
use vph::*;

static CALLS: AtomicU32 = AtomicU32::new(0);
static MADE: AtomicU32 = AtomicU32::new(0);
static OPENED: AtomicU32 = AtomicU32::new(0);
static CLOSED: AtomicU32 = AtomicU32::new(0);
struct T;
#[async_trait::async_trait]
impl ToolHandler for T {
    async fn handle(&self, args: Value, _: RequestHandlerExtra) -> pmcp::Result<Value> { CALLS.fetch_add(1, SeqCst); Ok(args) }
}
fn server(stateful: bool) -> StreamableHttpServer {
    let s = Server::builder().name("n").version("1").tool("t", T).build().unwrap();
    StreamableHttpServer::with_config(([127, 0, 0, 1], 0).into(), Arc::new(tokio::sync::Mutex::new(s)), StreamableHttpServerConfig {
        session_id_generator: if stateful { Some(Box::new(|| format!("s{}", MADE.fetch_add(1, SeqCst)))) } else { None }, enable_json_response: true, event_store: None,
        on_session_initialized: Some(Box::new(|_| { OPENED.fetch_add(1, SeqCst); })), on_session_closed: Some(Box::new(|_| { CLOSED.fetch_add(1, SeqCst); })) })
}
fn headers(sid: Option<&str>, version: Option<&str>) -> HeaderMap {
    let mut h = HeaderMap::new();
    h.insert("content-type", HeaderValue::from_static("application/json"));
    h.insert("accept", HeaderValue::from_static("application/json, text/event-stream"));
    if let Some(s) = sid { h.insert("mcp-session-id", HeaderValue::from_str(s).unwrap()); }
    if let Some(v) = version { h.insert("mcp-protocol-version", HeaderValue::from_str(v).unwrap()); }
    h
}
fn init(v: &str) -> String { json!({"jsonrpc": "2.0", "id": 1, "method": "initialize", "params": {"protocolVersion": v, "capabilities": {}, "clientInfo": {"name": "c", "version": "1"}}}).to_string() }
const CALL: &str = r#"{"jsonrpc":"2.0","id":7,"method":"tools/call","params":{"name":"t","arguments":{"k":5}}}"#;
const NOTE: &str = r#"{"jsonrpc":"2.0","method":"notifications/initialized"}"#;
const ANSWER: &str = r#"{"jsonrpc":"2.0","id":3,"result":{}}"#;
const VERSIONS: [&str; 4] = ["2024-10-07", "2024-11-05", "2025-03-26", "2025-06-18"];
fn head(r: &Response, n: &str) -> Option<String> { r.headers().get(n).map(|v| v.to_str().unwrap().to_string()) }
async fn body(r: Response) -> Value { serde_json::from_slice(&axum::body::to_bytes(r.into_body(), 100_000).await.unwrap()).unwrap_or(Value::Null) }
fn calls() -> u32 { CALLS.swap(0, SeqCst) }
/// a refusal changes nothing and says so with a JSON-RPC error
async fn refused(r: Response, codes: &[u16], what: &str) {
    check(codes.contains(&r.status().as_u16()), what);
    check(calls() == 0, "a refused message is processed");
    check(body(r).await["error"]["code"].is_i64(), "a refusal carries no error");
}
/// the answer of the tool
async fn answered(r: Response) {
    check(r.status().as_u16() == 200, "a message presenting a live session is refused");
    check(calls() == 1, "a call is not processed once");
    let b = body(r).await;
    check(b["id"] == json!(7) && b["result"]["content"][0]["text"] == json!("{\"k\":5}"), "a call is answered with something else");
}
struct S { live: bool, version: Option<String> }
struct W { srv: StreamableHttpServer, sid: String, streams: std::cell::RefCell<Vec<axum::body::BodyDataStream>> }
fn act(w: &W, op: usize) -> u16 {
    let h = headers(Some(&w.sid), None);
    match op {
        0 => once(w.srv.vp_post(h, CALL.to_string())).status().as_u16(),
        1 => once(w.srv.vp_delete(h)).status().as_u16(),
        2 => { let r = once(w.srv.vp_get(h)); let c = r.status().as_u16(); if c == 200 { let b = r.into_body().into_data_stream(); w.streams.borrow_mut().push(b); } c }
        _ => once(w.srv.vp_post(headers(None, None), init("2025-03-26"))).status().as_u16(),
    }
}
/// what is left: announcements, whether the session is accepted, and which event streams go on
fn rest(w: &W) -> (Vec<u32>, u16, usize) {
    let n = vec![OPENED.swap(0, SeqCst), CLOSED.swap(0, SeqCst), calls()];
    let wk = noop_waker(); let mut cx = std::task::Context::from_waker(&wk);
    let open = w.streams.borrow_mut().iter_mut().map(|s| s.poll_next_unpin(&mut cx).is_pending() as usize).sum();
    let r = act(w, 0); calls();
    (n, r, open)
}
harness! {
    h_c26_threads {
        threads(4, || {
            let srv = server(true);
            let r = once(srv.vp_post(headers(None, None), init("2025-03-26")));
            let sid = head(&r, "mcp-session-id").unwrap();
            OPENED.store(0, SeqCst);
            W { srv, sid, streams: std::cell::RefCell::new(Vec::with_capacity(4)) }
        }, act, rest);
    }
    h_c26_history {
        block_on(async {
            let stateful = fixb(any_bool("stateful"));
            let srv = server(stateful);
            let mut ss: Vec<S> = vec![];
            let (mut opened, mut closed) = (0, 0);
            for k in 0..tier(3, 4) {
                let op = if k == 0 { 0 } else { pick("op", 6) };
                let which = if k == 0 { 0 } else { pick("session", ss.len() as u64 + 2) };
                let sid = if which == 0 { None } else { Some(format!("s{}", which - 1)) };
                let live = which > 0 && ss.get(which - 1).is_some_and(|s| s.live);
                if op == 0 {
                    let asked = if k == 0 { 0 } else { pick("asked", 2) };
                    let r = srv.vp_post(headers(sid.as_deref(), None), init(["2025-03-26", "x"][asked])).await;
                    if !stateful || sid.is_none() {
                        check(r.status().as_u16() == 200, "an initialisation is refused");
                        let (id, v) = (head(&r, "mcp-session-id"), head(&r, "mcp-protocol-version"));
                        let b = body(r).await;
                        let negotiated = b["result"]["protocolVersion"].as_str().unwrap_or("?").to_string();
                        check(VERSIONS.contains(&negotiated.as_str()) && v.as_ref() == Some(&negotiated), "the version negotiated is not announced");
                        if stateful { check(id == Some(format!("s{}", ss.len())), "an initialisation does not get a fresh session"); ss.push(S { live: true, version: Some(negotiated) }); opened += 1; } else { check(id.is_none(), "a session is made in stateless mode"); }
                        cover("initialised");
                    } else if live { refused(r, &[400], "a session is initialised twice").await; cover("init twice"); } else { refused(r, &[404], "an unknown session is initialised").await; cover("init unknown"); }
                } else if op <= 3 {
                    let r = srv.vp_post(headers(sid.as_deref(), None), [CALL, NOTE, ANSWER][op - 1].to_string()).await;
                    if stateful && sid.is_none() { refused(r, &[400], "a message without a session id is not refused as such").await; cover("no session"); }
                    else if stateful && !live { if which <= ss.len() { cover("deleted session used"); } refused(r, &[404], "a message of an unknown session is not refused as such").await; cover("unknown session"); }
                    else if op == 1 {
                        check(head(&r, "mcp-session-id") == if stateful { sid.clone() } else { None }, "an answer names another session");
                        if stateful { if let Some(v) = &ss[which - 1].version { check(head(&r, "mcp-protocol-version").as_ref() == Some(v), "an answer names another version than negotiated"); } }
                        answered(r).await; cover("call");
                    } else { check(r.status().as_u16() == 202 && calls() == 0, "a notification or response is not just accepted"); cover("note"); }
                } else if op == 4 {
                    let mut h = headers(sid.as_deref(), None); h.insert("accept", HeaderValue::from_static("text/event-stream"));
                    let r = srv.vp_get(h).await;
                    let (code, id) = (r.status().as_u16(), head(&r, "mcp-session-id"));
                    if !stateful && sid.is_none() { check(code == 405, "an event stream without session is opened in stateless mode"); }
                    else if stateful && sid.is_none() { check(code == 200 && id == Some(format!("s{}", ss.len())), "an event stream does not get a fresh session"); ss.push(S { live: true, version: None }); opened += 1; cover("stream made session"); }
                    else if stateful && !live { check(code == 404, "an event stream of an unknown session is opened"); }
                    else if stateful { check(code == 200 && id == sid, "an event stream of a live session is refused"); cover("stream"); }
                } else {
                    let r = srv.vp_delete(headers(sid.as_deref(), None)).await;
                    let code = r.status().as_u16();
                    if stateful {
                        check(code == if live { 200 } else { 404 }, "a live session is not deleted, or another one is");
                        if live { ss[which - 1].live = false; closed += 1; cover("deleted"); }
                    }
                }
                if stateful { check(OPENED.load(SeqCst) == opened && CLOSED.load(SeqCst) == closed, "the callbacks do not follow the sessions"); }
            }
        });
    }
    h_c26_version {
        block_on(async {
            let stateful = fixb(any_bool("stateful"));
            let srv = server(stateful);
            let (sid, own) = if !stateful { (None, None) } else if fixb(any_bool("negotiated")) {
                let r = srv.vp_post(headers(None, None), init(["2024-11-05", "2025-03-26", "2025-06-18", "x"][pick("asked", 4)])).await;
                let id = head(&r, "mcp-session-id"); let b = body(r).await;
                (id, b["result"]["protocolVersion"].as_str().map(|v| v.to_string()))
            } else { let mut h = headers(None, None); h.insert("accept", HeaderValue::from_static("text/event-stream")); (head(&srv.vp_get(h).await, "mcp-session-id"), None) };
            let v = match pick("version", 7) { 0 => None, 1 => Some(ascii_upto("v", 2)), 2 => { let mut b = b"2025-03-26".to_vec(); let c = any_u8("c"); assume(and(c > 32, c < 127)); b[9] = c; Some(String::from_utf8(b).unwrap()) }, i => Some(VERSIONS[i - 3].to_string()) };
            if let Some(v) = &v { for c in v.bytes() { assume(and(c > 32, c < 127)); } }
            let r = srv.vp_post(headers(sid.as_deref(), v.as_deref()), CALL.to_string()).await;
            let known = match &v { None => true, Some(v) => VERSIONS.iter().fold(false, |a, k| or(a, eqs(k, v))) };
            let same = match (&v, &own) { (Some(v), Some(o)) => eqs(v, o), _ => true };
            if fixb(and(known, same)) { answered(r).await; cover("fits"); } else { refused(r, &[400], "a message with another protocol version is not refused as such").await; cover("does not fit"); }
        });
    }
    h_c26_session {
        block_on(async {
            let srv = server(true);
            let id = ascii_upto("id", 2);
            for c in id.bytes() { assume(and(c > 32, c < 127)); }
            let made = head(&srv.vp_post(headers(None, None), init("2025-03-26")).await, "mcp-session-id").unwrap_or_default();
            let live = fixb(eqs(&made, &id));
            match pick("op", 4) {
                0 => { let r = srv.vp_post(headers(Some(&id), None), CALL.to_string()).await; if live { answered(r).await; cover("the session"); } else { refused(r, &[404, 400], "a message of an unknown session is not refused").await; cover("another"); } }
                1 => { let r = srv.vp_post(headers(Some(&id), None), init("2025-03-26")).await; refused(r, if live { &[400] } else { &[404] }, "an initialisation under a given id is not refused").await; }
                2 => { let r = srv.vp_delete(headers(Some(&id), None)).await; check((r.status().as_u16() == 200) == live, "a session is deleted under another id"); let r = srv.vp_post(headers(Some(&made), None), CALL.to_string()).await; if live { refused(r, &[404], "a deleted session is accepted").await; cover("deleted"); } else { answered(r).await; } }
                _ => { let mut h = headers(Some(&id), None); h.insert("accept", HeaderValue::from_static("text/event-stream")); check((srv.vp_get(h).await.status().as_u16() == 200) == live, "an event stream is opened under another id"); }
            }
        });
    }
    h_c26_headers {
        block_on(async {
            let srv = server(fixb(any_bool("stateful")));
            let made = head(&srv.vp_post(headers(None, None), init("2025-03-26")).await, "mcp-session-id");
            let text = |n: &str| -> (Option<HeaderValue>, bool, bool) {
                // a text around "application/json" or "text/event-stream" and whether it names the one or the other
                match pick(n, 8) {
                    0 => (None, false, false),
                    i @ 1..=2 => { let t = ["application/json", "text/event-stream"][i - 1]; let at = pick("at", t.len() as u64); let c = any_u8("c"); assume(or(and(c >= 32, c != 127), c == 9)); let mut b = t.as_bytes().to_vec(); let same = c == b[at]; b[at] = c; (Some(HeaderValue::from_bytes(&b).unwrap()), and(i == 1, same), and(i == 2, same)) }
                    3 => (Some(HeaderValue::from_static("application/jso")), false, false),
                    4 => (Some(HeaderValue::from_static("application/json; charset=utf-8")), true, false),
                    5 => (Some(HeaderValue::from_static("text/html, application/json;q=0.9, text/event-stream")), true, true),
                    6 => (Some(HeaderValue::from_static("text/html")), false, false),
                    _ => (Some(HeaderValue::from_static("")), false, false),
                }
            };
            let mut h = headers(made.as_deref(), None);
            let get = fixb(any_bool("get"));
            let on_type = !get && fixb(any_bool("content type"));
            let (v, j, e) = text("text");
            let name = if on_type { "content-type" } else { "accept" };
            h.remove(name); if let Some(v) = v { h.insert(name, v); }
            if get {
                let r = srv.vp_get(h).await;
                if made.is_some() { check((r.status().as_u16() == 200) == e, "an event stream is opened for a client that does not accept one, or refused"); if r.status().as_u16() != 200 { check(r.status().as_u16() == 406, "an unacceptable accept header is not refused as such"); } cover("get"); }
            } else {
                let r = srv.vp_post(h, CALL.to_string()).await;
                if fixb(if on_type { j } else { or(j, e) }) { answered(r).await; cover("acceptable"); } else { refused(r, if on_type { &[415] } else { &[406] }, "an unacceptable header is not refused as such").await; cover("unacceptable"); }
            }
        });
    }
    h_c26_race {
        rt(async {
            let srv = server(true);
            let made = head(&srv.vp_post(headers(None, None), init("2025-03-26")).await, "mcp-session-id").unwrap_or_default();
            let got = std::cell::RefCell::new(vec![]);
            let mut s = Sched::new();
            for _ in 0..2 { let (srv, got) = (&srv, &got); s.spawn(async move { let r = srv.vp_post(headers(None, None), init("2025-03-26")).await; got.borrow_mut().push(head(&r, "mcp-session-id").unwrap_or_default()); }); }
            let (sr, m) = (&srv, made.clone()); s.spawn(async move { check(sr.vp_delete(headers(Some(&m), None)).await.status().as_u16() == 200, "a live session is not deleted"); });
            let m = made.clone(); s.spawn(async move { let c = sr.vp_post(headers(Some(&m), None), CALL.to_string()).await.status().as_u16(); if c == 200 { cover("call first"); } else { check(c == 404, "a message of a deleted session is not refused as such"); cover("delete first"); } });
            check(s.run_tight("next", tier(7, 11)).await, "requests block each other for ever");
            drop(s); calls();
            let got = got.into_inner();
            check(got[0] != got[1] && got[0] != made && got[1] != made, "two initialisations get one session");
            refused(srv.vp_post(headers(Some(&made), None), CALL.to_string()).await, &[404], "a deleted session is accepted").await;
            for g in &got { answered(srv.vp_post(headers(Some(g), None), CALL.to_string()).await).await; }
        });
    }
    h_c26_body {
        block_on(async {
            let srv = server(fixb(any_bool("stateful")));
            let made = head(&srv.vp_post(headers(None, None), init("2025-03-26")).await, "mcp-session-id");
            let b = match pick("body", 6) { 0 => ascii_upto("b", tier(2, 3)), 1 => "[]".into(), 2 => r#"{"jsonrpc":"2.0","id":1}"#.into(), 3 => r#"{"jsonrpc":"2.0","id":1,"method":"tools/call","params":{"name":1}}"#.into(), 4 => CALL[..CALL.len() - 1].to_string(), _ => CALL.replace(':', ",") };
            let r = srv.vp_post(headers(made.as_deref(), None), b).await;
            refused(r, &[400], "a body that is no message is not refused as such").await;
            cover("refused");
        });
    }
}
