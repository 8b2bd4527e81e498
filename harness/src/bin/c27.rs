//! C27: event store and resumption of streamable HTTP.
//! bound: event store: up to 4 (thorough 5) events with ids of one byte each, all different, over 3 streams; what follows any event or any other one-byte id
//! bound: server: histories of 4 (thorough 5) steps after one answered call: a call, a call of another session, opening the event stream naming no event, any event seen so far of either session or an unknown one, reading it, losing it
//! bound: opening the stream and answering two calls at the same time over a store that suspends before and after every access, every interleaving (up to 9, thorough 12 decisions)
//! bound: two threads in the in-memory store: every pair of storing an event in either of two streams, replaying after a known or an unknown event and naming an event's stream, the second running at once before any atomic read-modify-write of the first (so between any two of its lock regions); no deadlock, and the outcome must be that of one of the two orders
//! outside: two events stored under one id; event stores other than the in-memory one; the network; loss of a response that is no event (a first initialisation, JSON response mode)
use axum::http::{HeaderMap, HeaderValue};
use axum::response::Response;
use futures::StreamExt;
use pmcp::server::streamable_http_server::*;
use pmcp::shared::TransportMessage;
use pmcp::types::jsonrpc::{JSONRPCResponse, ResponsePayload};
use pmcp::{RequestHandlerExtra, Server, ToolHandler};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Arc;
use vph::*;

struct T;
#[async_trait::async_trait]
impl ToolHandler for T { async fn handle(&self, args: Value, _: RequestHandlerExtra) -> pmcp::Result<Value> { Ok(args) } }
/// a store that lets others run in the middle of every access
#[derive(Default)]
struct Slow(InMemoryEventStore);
#[async_trait::async_trait]
impl EventStore for Slow {
    async fn store_event(&self, s: &str, e: &str, m: &TransportMessage) -> pmcp::Result<()> { tokio::task::yield_now().await; let r = self.0.store_event(s, e, m).await; tokio::task::yield_now().await; r }
    async fn replay_events_after(&self, e: &str) -> pmcp::Result<Vec<(String, TransportMessage)>> { tokio::task::yield_now().await; let r = self.0.replay_events_after(e).await; tokio::task::yield_now().await; r }
    async fn get_stream_for_event(&self, e: &str) -> pmcp::Result<Option<String>> { tokio::task::yield_now().await; self.0.get_stream_for_event(e).await }
}
static MADE: AtomicU32 = AtomicU32::new(0);
fn server(store: Arc<dyn EventStore>) -> StreamableHttpServer {
    let s = Server::builder().name("n").version("1").tool("t", T).build().unwrap();
    StreamableHttpServer::with_config(([127, 0, 0, 1], 0).into(), Arc::new(tokio::sync::Mutex::new(s)), StreamableHttpServerConfig { session_id_generator: Some(Box::new(|| format!("s{}", MADE.fetch_add(1, SeqCst)))), enable_json_response: false, event_store: Some(store), on_session_initialized: None, on_session_closed: None })
}
fn headers(sid: Option<&str>, last: Option<&str>) -> HeaderMap {
    let mut h = HeaderMap::new();
    h.insert("content-type", HeaderValue::from_static("application/json"));
    h.insert("accept", HeaderValue::from_static("application/json, text/event-stream"));
    if let Some(s) = sid { h.insert("mcp-session-id", HeaderValue::from_str(s).unwrap()); }
    if let Some(v) = last { h.insert("last-event-id", HeaderValue::from_str(v).unwrap()); }
    h
}
async fn session(srv: &StreamableHttpServer) -> String {
    let r = srv.vp_post(headers(None, None), json!({"jsonrpc": "2.0", "id": 1, "method": "initialize", "params": {"protocolVersion": "2025-03-26", "capabilities": {}, "clientInfo": {"name": "c", "version": "1"}}}).to_string()).await;
    r.headers()["mcp-session-id"].to_str().unwrap().to_string()
}
async fn call(srv: &StreamableHttpServer, sid: &str, n: u64) -> Response { srv.vp_post(headers(Some(sid), None), json!({"jsonrpc": "2.0", "id": n, "method": "tools/call", "params": {"name": "t", "arguments": {"n": n}}}).to_string()).await }
struct Stream(axum::body::BodyDataStream);
impl Stream {
    fn of(r: Response) -> Self { Stream(r.into_body().into_data_stream()) }
    /// what can be read now: (event id, request id); false if the stream ended
    fn read(&mut self) -> (Vec<(String, u64)>, bool) {
        let w = noop_waker(); let mut cx = std::task::Context::from_waker(&w);
        let mut out = vec![];
        loop {
            match self.0.poll_next_unpin(&mut cx) {
                std::task::Poll::Ready(Some(b)) => {
                    let t = String::from_utf8(b.unwrap().to_vec()).unwrap();
                    let line = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
                    check(line("event:") == "message" && t.ends_with("\n\n"), "an event is not sent as a message");
                    let v: Value = serde_json::from_str(&line("data:")).unwrap_or(Value::Null);
                    out.push((line("id:"), v["id"].as_u64().unwrap_or(999)));
                }
                std::task::Poll::Ready(None) => return (out, false),
                std::task::Poll::Pending => return (out, true),
            }
        }
    }
}
/// the events of one session: request id and event id as far as known
#[derive(Default)]
struct Log(Vec<(u64, Option<String>)>);
impl Log {
    fn saw(&mut self, id: &str, n: u64) {
        check(!id.is_empty() && self.0.iter().all(|(m, i)| *m == n || i.as_deref() != Some(id)), "two events have one id");
        let e = self.0.iter_mut().find(|(m, _)| *m == n);
        check(e.is_some(), "an event of another session is delivered");
        if let Some(e) = e { check(e.1.is_none() || e.1.as_deref() == Some(id), "an event is sent again under another id"); e.1 = Some(id.to_string()); }
    }
    fn after(&self, id: &str) -> Vec<u64> { match self.0.iter().position(|(_, i)| i.as_deref() == Some(id)) { Some(p) => self.0[p + 1..].iter().map(|e| e.0).collect(), None => vec![] } }
}
fn msg(n: i64) -> TransportMessage { TransportMessage::Response(JSONRPCResponse { jsonrpc: "2.0".into(), id: n.into(), payload: ResponsePayload::Result(json!({})) }) }
fn id_of(m: &TransportMessage) -> i64 { match m { TransportMessage::Response(r) => match &r.id { pmcp::types::RequestId::Number(n) => *n, _ => -1 }, _ => -1 } }
fn act(st: &InMemoryEventStore, op: usize) -> Vec<String> {
    let m = |n: i64| TransportMessage::Response(JSONRPCResponse::success(pmcp::types::RequestId::Number(n), json!(n)));
    let ids = |r: pmcp::Result<Vec<(String, TransportMessage)>>| r.map(|v| v.into_iter().map(|(i, m)| if let TransportMessage::Response(r) = m { format!("{i}:{}", r.id) } else { i }).collect()).unwrap_or(vec!["error".to_string()]);
    match op {
        0 => { once(st.store_event("x", "e8", &m(8))).unwrap(); vec![] }
        1 => { once(st.store_event("y", "e9", &m(9))).unwrap(); vec![] }
        2 => ids(once(st.replay_events_after("e0"))),
        3 => ids(once(st.replay_events_after("e8"))),
        _ => once(st.get_stream_for_event("e8")).unwrap().into_iter().collect(),
    }
}
harness! {
    h_c27_threads {
        threads(5, || { let st = InMemoryEventStore::default(); for (s, e) in [("x", "e0"), ("y", "e1")] { once(st.store_event(s, e, &TransportMessage::Response(JSONRPCResponse::success(pmcp::types::RequestId::Number(0), json!(0))))).unwrap(); } st }, act, |st| [act(st, 2), act(st, 3), act(st, 4), once(st.get_stream_for_event("e9")).unwrap().into_iter().collect()]);
    }
    h_c27_store {
        block_on(async {
            let s = InMemoryEventStore::default();
            let n = pick("events", tier(5, 6) as u64);
            let mut evs: Vec<(String, usize)> = vec![];
            for k in 0..n {
                let id = ascii("id", 1);
                for (o, _) in &evs { assume(!eqs(o, &id)); }
                let st = pick("stream", 3);
                check(s.store_event(&format!("s{}", st), &id, &msg(k as i64)).await.is_ok(), "an event is not stored");
                evs.push((id, st));
            }
            let q = ascii("asked", 1);
            let at = evs.iter().position(|(i, _)| fixb(eqs(i, &q)));
            check(s.get_stream_for_event(&q).await.ok() == Some(at.map(|p| format!("s{}", evs[p].1))), "an event is attributed to another stream");
            match (at, s.replay_events_after(&q).await) {
                (None, r) => { check(r.is_err(), "what follows an unknown event is replayed"); cover("unknown"); }
                (Some(p), Ok(r)) => {
                    let want: Vec<usize> = (p + 1..n).filter(|k| evs[*k].1 == evs[p].1).collect();
                    check(r.len() == want.len() && r.iter().zip(&want).all(|((i, m), k)| eqs(i, &evs[*k].0) && id_of(m) == *k as i64), "a replay is not exactly the later events of the stream in order");
                    cover("replayed");
                }
                (Some(_), Err(_)) => check(false, "what follows a stored event is not replayed"),
            }
        });
    }
    h_c27_resume {
        rt(async {
            let srv = server(Arc::new(InMemoryEventStore::default()));
            let (a, b) = (session(&srv).await, session(&srv).await);
            let (mut la, mut lb) = (Log::default(), Log::default());
            // an answer each, read, without an event stream
            let mut n = 10;
            for (s, l) in [(&a, &mut la), (&b, &mut lb)] { l.0.push((n, None)); let (r, more) = Stream::of(call(&srv, s, n).await).read(); check(r.len() == 1 && r[0].1 == n && !more, "an answer is not delivered on the request's own stream"); if let Some(e) = r.first() { l.saw(&e.0, e.1); } n += 1; }
            let mut open: Option<(Stream, Vec<u64>)> = None;
            for _ in 0..tier(4, 5) {
                match pick("op", 5) {
                    0 => {
                        la.0.push((n, None));
                        let r = call(&srv, &a, n).await;
                        if let Some((_, want)) = &mut open { check(r.status().as_u16() == 202, "an answer is not sent to the open event stream"); want.push(n); cover("on the stream"); }
                        else { let (r, more) = Stream::of(r).read(); check(r.len() == 1 && r[0].1 == n && !more, "an answer is lost"); for e in r { la.saw(&e.0, e.1); } cover("on its own"); }
                        n += 1;
                    }
                    1 => { lb.0.push((n, None)); let (r, _) = Stream::of(call(&srv, &b, n).await).read(); for e in r { lb.saw(&e.0, e.1); } n += 1; }
                    2 => {
                        let seen: Vec<String> = la.0.iter().filter_map(|e| e.1.clone()).collect();
                        let last = match pick("last", seen.len() as u64 + 3) { 0 => None, 1 => lb.0[0].1.clone(), 2 => Some("nothing".to_string()), i => Some(seen[i - 3].clone()) };
                        let r = srv.vp_get(headers(Some(&a), last.as_deref())).await;
                        if open.is_some() { check(r.status().as_u16() == 409, "a second event stream of a session is opened"); cover("conflict"); }
                        else { check(r.status().as_u16() == 200, "after the event stream is lost no new one is opened"); open = Some((Stream::of(r), last.map(|l| la.after(&l)).unwrap_or_default())); cover("opened"); }
                    }
                    3 => if let Some((s, want)) = &mut open {
                        let (r, more) = s.read();
                        check(more, "an event stream ends though its session lives");
                        check(r.iter().map(|e| e.1).collect::<Vec<_>>() == *want, "the event stream does not deliver exactly what was missed and what is new");
                        if !want.is_empty() { cover("read"); }
                        want.clear();
                        for e in r { la.saw(&e.0, e.1); }
                    }
                    _ => { open = None; }
                }
            }
            if let Some((mut s, want)) = open {
                srv.vp_delete(headers(Some(&a), None)).await;
                let (r, more) = s.read();
                check(!more && r.iter().map(|e| e.1).collect::<Vec<_>>() == want, "an event stream goes on after its session, or loses events");
            }
        });
    }
    h_c27_race {
        rt(async {
            let srv = server(Arc::new(Slow::default()));
            let a = session(&srv).await;
            let mut l = Log::default();
            l.0.push((10, None));
            for e in Stream::of(call(&srv, &a, 10).await).read().0 { l.saw(&e.0, e.1); }
            let last = l.0[0].1.clone().unwrap_or_default();
            let out = std::cell::RefCell::new((None, vec![]));
            let mut s = Sched::new();
            { let (srv, a, out) = (&srv, &a, &out); s.spawn(async move { let r = srv.vp_get(headers(Some(a), Some(&last))).await; check(r.status().as_u16() == 200, "an event stream is not opened"); out.borrow_mut().0 = Some(Stream::of(r)); }); }
            for n in [11, 12] { let (srv, a, out) = (&srv, &a, &out); s.spawn(async move { let r = call(srv, a, n).await; if r.status().as_u16() == 200 { for e in Stream::of(r).read().0 { out.borrow_mut().1.push(e); } } }); }
            check(s.run_all("next", tier(9, 12)), "requests block each other for ever");
            drop(s);
            let (stream, own) = out.into_inner();
            l.0.push((11, None)); l.0.push((12, None));
            let r = stream.map(|mut s| s.read().0).unwrap_or_default();
            for e in own.iter().chain(&r) { l.saw(&e.0, e.1); }
            for n in [11, 12] {
                let k = r.iter().filter(|e| e.1 == n).count();
                check(k <= 1, "an event is delivered twice on one stream");
                check(k == 1 || own.iter().any(|e| e.1 == n), "an event is lost");
            }
            check(r.iter().all(|e| e.1 > 10), "an event already seen is delivered again");
            cover("raced");
        });
    }
}
