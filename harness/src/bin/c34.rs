//! C34: the streamable HTTP client.
//! bound: histories of 2 (thorough 3) operations, begun with a session id and version or without, each setting or removing the session id or version, sending a message, opening the event stream with or without an event id, or closing, under any one-character session id, version, event id, access token and extra header; answers give a new session id or version or not, accept, refuse, say there is no event stream, or do not come
//! bound: JSON answers of one message or a batch of up to 3 of four kinds (in the SDK's own form as well as JSON-RPC) or none, with media type parameters, in pieces; event streams (as an answer or opened) of up to 2 (thorough 3) events with or without an id and a type, cut into two pieces at any byte, ended or lost after any byte
//! bound: an opened stream that stays open while its events come one after another, and is replaced by another stream or closed
//! outside: the HTTP client library itself, redirects, TLS (a stand-in takes the requests and gives the answers); a batch of which one message cannot be read; session ids on answers that refuse; when a lost stream is opened again (left to the caller, who has `last_event_id`)
//! stub: reqwest's Client, RequestBuilder and Response (src/vp_http.rs, compiled under --cfg pmcp_vp)
use axum::http::{HeaderMap, HeaderName, HeaderValue};
use pmcp::shared::streamable_http::*;
use pmcp::shared::{Transport, TransportMessage};
use pmcp::types::jsonrpc::ResponsePayload;
use pmcp::types::*;
use pmcp::vp_http::{Reply, Seen, HANDLER};
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc::{unbounded_channel, UnboundedSender};
use vph::*;

type Body = UnboundedSender<Result<Vec<u8>, ()>>;
/// What the stand-in server is told to answer next, and what it was asked.
#[derive(Default)]
struct Net { seen: Vec<Seen>, next: std::collections::VecDeque<Option<(u16, Vec<(&'static str, String)>)>>, bodies: Vec<Body> }
fn net() -> Arc<Mutex<Net>> {
    let n: Arc<Mutex<Net>> = Default::default();
    let m = n.clone();
    *HANDLER.lock() = Some(Box::new(move |s| {
        let mut g = m.lock().unwrap();
        g.seen.push(s);
        let reply = g.next.pop_front().flatten().map(|(status, hs)| {
            let (tx, rx) = unbounded_channel();
            g.bodies.push(tx);
            let mut headers = HeaderMap::new();
            for (k, v) in hs { headers.insert(HeaderName::from_static(k), HeaderValue::from_str(&v).unwrap()); }
            Reply { status, headers, body: rx }
        });
        Box::pin(async move { tokio::task::yield_now().await; reply })
    }));
    n
}
fn config() -> StreamableHttpTransportConfig { StreamableHttpTransportConfig { url: "http://h/mcp".parse().unwrap(), extra_headers: vec![], auth_provider: None, session_id: None, enable_json_response: false, on_resumption_token: None } }
#[derive(Debug)]
struct Token(String);
#[async_trait::async_trait]
impl AuthProvider for Token { async fn get_access_token(&self) -> pmcp::Result<String> { Ok(self.0.clone()) } }
fn ping() -> TransportMessage { TransportMessage::Request { id: RequestId::Number(5), request: Request::Client(Box::new(ClientRequest::Ping)) } }
/// One header of a request: absent, or exactly once with this value.
fn header(s: &Seen, name: &str, want: Option<&str>) -> bool {
    let all: Vec<&HeaderValue> = s.headers.get_all(name).iter().collect();
    match want { None => all.is_empty(), Some(w) => all.len() == 1 && eqs(all[0].to_str().unwrap_or("?"), w) }
}
fn visible(n: &str) -> String { let b = any_u8(n); assume(b > 32 && b < 127); (b as char).to_string() }
fn letter(n: &str) -> char { let b = any_u8(n); assume(b >= b'a' && b <= b'z'); b as char }
async fn pass() { for _ in 0..6 { tokio::task::yield_now().await; } }
/// A message of the server, as text and as (kind, id, letter).
type Said = (u8, i64, u64);
fn message(n: i64) -> (String, Said) { kind(n, pick("kind", 5)) }
fn kind(n: i64, k: usize) -> (String, Said) {
    let c = letter("letter");
    match k {
        0 => (format!(r#"{{"jsonrpc":"2.0","id":{n},"result":"{c}"}}"#), (0, n, c as u64)),
        1 => (format!(r#"{{"jsonrpc":"2.0","id":{n},"error":{{"code":-32000,"message":"{c}"}}}}"#), (1, n, c as u64)),
        2 => (format!(r#"{{"jsonrpc":"2.0","method":"notifications/resources/updated","params":{{"uri":"{c}"}}}}"#), (2, 0, c as u64)),
        3 => (format!(r#"{{"jsonrpc":"2.0","id":{n},"method":"roots/list"}}"#), (3, n, 0)),
        _ => (serde_json::to_string(&TransportMessage::Request { id: RequestId::Number(n), request: Request::Server(Box::new(ServerRequest::ListRoots)) }).unwrap(), (3, n, 0)),
    }
}
fn said(m: &TransportMessage) -> Said {
    let one = |s: &str| if s.len() == 1 { s.as_bytes()[0] as u64 } else { 999 };
    let num = |i: &RequestId| if let RequestId::Number(n) = i { *n } else { -1 };
    match m {
        TransportMessage::Response(r) => match &r.payload { ResponsePayload::Result(v) => (0, num(&r.id), v.as_str().map_or(999, one)), ResponsePayload::Error(e) => (1, num(&r.id), one(&e.message)) },
        TransportMessage::Notification(Notification::Server(ServerNotification::ResourceUpdated(p))) => (2, 0, one(&p.uri)),
        TransportMessage::Request { id, request: Request::Server(r) } if matches!(**r, ServerRequest::ListRoots) => (3, num(id), 0),
        _ => (9, 0, 0),
    }
}
/// What can be received now.
async fn received(t: &mut StreamableHttpTransport) -> Vec<Said> {
    let mut v = vec![];
    loop {
        pass().await;
        let mut f = t.receive();
        match f.as_mut().poll(&mut std::task::Context::from_waker(&noop_waker())) { std::task::Poll::Ready(Ok(m)) => v.push(said(&m)), _ => return v }
    }
}
fn same(got: &[Said], want: &[Said]) -> bool { got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && a.2 == b.2) }
/// Opens a stream: as the answer to a message, or with GET.
async fn open(t: &mut StreamableHttpTransport, n: &Mutex<Net>, get: bool) -> Body {
    n.lock().unwrap().next.push_back(Some((200, vec![("content-type", "text/event-stream".into())])));
    if get { check(t.start_sse(None).await.is_ok(), "an event stream is not opened"); } else { check(t.send(ping()).await.is_ok(), "a message is not sent"); }
    let g = n.lock().unwrap(); g.bodies.last().unwrap().clone()
}
harness! {
    h_c34_state {
        rt(async {
            let n = net();
            let (auth, extra) = (pick("auth", 2) == 1, pick("extra", 2) == 1);
            let (token, value) = (visible("token"), visible("extra"));
            let mut t = StreamableHttpTransport::new(StreamableHttpTransportConfig { extra_headers: if extra { vec![("x-k".into(), value.clone())] } else { vec![] }, auth_provider: if auth { Some(Arc::new(Token(token.clone()))) } else { None }, ..config() });
            let (mut sid, mut ver): (Option<String>, Option<String>) = (None, None);
            if pick("begun", 2) == 1 { sid = Some(visible("first sid")); ver = Some(visible("first ver")); t.set_session_id(sid.clone()); t.set_protocol_version(ver.clone()); }
            for _ in 0..tier(2, 3) {
                let asked = n.lock().unwrap().seen.len();
                // the answer
                let status = |fine: u16| [Some(fine), Some(404), Some(405), None][pick("status", 4)];
                let op = pick("op", 6);
                if op == 0 { sid = if pick("some", 2) == 1 { Some(visible("set sid")) } else { None }; t.set_session_id(sid.clone()); }
                if op == 1 { ver = if pick("some", 2) == 1 { Some(visible("set ver")) } else { None }; t.set_protocol_version(ver.clone()); }
                if op >= 2 {
                    let fine = if op == 2 && pick("202", 2) == 1 { 202 } else { 200 };
                    let st = status(fine);
                    let mut hs: Vec<(&'static str, String)> = vec![];
                    let ok = st == Some(fine);
                    let (mut s2, mut v2) = (None, None);
                    if ok && op < 5 {
                        match pick("given", 3) { 1 => { s2 = Some(visible("sid")); } 2 => { v2 = Some(visible("ver")); } _ => {} }
                        if let Some(s) = &s2 { hs.push(("mcp-session-id", s.clone())); }
                        if let Some(v) = &v2 { hs.push(("mcp-protocol-version", v.clone())); }
                        if fine == 200 { hs.push(("content-type", if op == 2 { "application/json".into() } else { "text/event-stream".into() })); }
                    }
                    n.lock().unwrap().next.push_back(st.map(|s| (s, hs)));
                    let id = if op == 4 { Some(visible("event")) } else { None };
                    let r = match op {
                        2 => { let n2 = n.clone(); let before = n.lock().unwrap().bodies.len(); let f = t.send(ping()); futures::pin_mut!(f); let mut body = false; loop { match futures::poll!(f.as_mut()) { std::task::Poll::Ready(r) => break r, _ => { let mut g = n2.lock().unwrap(); if !body && g.bodies.len() > before { let b = g.bodies.pop().unwrap(); g.bodies.push(b.clone()); b.send(Ok(br#"{"jsonrpc":"2.0","id":5,"result":{}}"#.to_vec())).ok(); drop(b); g.bodies.clear(); body = true; } drop(g); tokio::task::yield_now().await; } } } }
                        3 => t.start_sse(None).await,
                        4 => if pick("by send", 2) == 1 { t.send_with_options(ping(), SendOptions { related_request_id: None, resumption_token: id.clone() }).await } else { t.start_sse(id.clone()).await },
                        _ => t.close().await,
                    };
                    let g = n.lock().unwrap();
                    if op == 5 && sid.is_none() { check(r.is_ok() && g.seen.len() == asked, "closing without a session asks for something"); drop(g); n.lock().unwrap().next.clear(); continue; }
                    check(g.seen.len() == asked + 1, "an operation does not ask once");
                    let q = &g.seen[asked];
                    check(q.url == "http://h/mcp" && q.method.as_str() == ["", "", "POST", "GET", "GET", "DELETE"][op], "an operation asks for something else");
                    check(header(q, "mcp-session-id", sid.as_deref()), "the session id given last is not presented");
                    check(header(q, "mcp-protocol-version", ver.as_deref()), "the version given last is not presented");
                    check(header(q, "x-k", if extra { Some(&value) } else { None }), "a configured header is not sent");
                    check(header(q, "authorization", if auth { Some(format!("Bearer {token}")) } else { None }.as_deref()), "the access token is not presented");
                    check(header(q, "last-event-id", id.as_deref()), "the event id to resume from is not named");
                    match op {
                        2 => { check(header(q, "content-type", Some("application/json")) && header(q, "accept", Some("application/json, text/event-stream")), "a message is posted with other media types"); check(q.body == br#"{"jsonrpc":"2.0","id":5,"method":"ping"}"#, "something else is posted than the message"); }
                        5 => {}
                        _ => check(header(q, "accept", Some("text/event-stream")) && q.body.is_empty(), "an event stream is asked for with other media types"),
                    }
                    check(r.is_ok() == (ok || op == 5 || (op >= 3 && st == Some(405))), "an operation that was refused or had no answer succeeds, or the other way round");
                    cover(if ok { "accepted" } else { "not accepted" });
                    if s2.is_some() { sid = s2; cover("session given"); } if v2.is_some() { ver = v2; cover("version given"); }
                    if op == 5 { sid = None; cover("closed"); }
                }
                check(eqo(t.session_id().as_deref(), sid.as_deref()) && eqo(t.protocol_version().as_deref(), ver.as_deref()), "the session id or version is not the one given last");
            }
        });
    }
    h_c34_json {
        rt(async {
            let n = net();
            let mut t = StreamableHttpTransport::new(config());
            let batch = pick("batch", 2) == 1;
            let (mut texts, mut want) = (vec![], vec![]);
            for i in 0..if batch { pick("count", tier(3, 4) as u64) } else { 1 } { let (x, s) = message(i as i64 + 1); texts.push(x); want.push(s); }
            let good = batch || pick("broken", 2) == 0;
            let mut text = if batch { format!("[{}]", texts.join(",")) } else { texts[0].clone() };
            if !good { text.pop(); want.clear(); }
            let ct = ["application/json", "application/json; charset=utf-8"][pick("type", 2)];
            n.lock().unwrap().next.push_back(Some((200, vec![("content-type", ct.into())])));
            let cut = text.len() / 2;
            let r = { let f = t.send(ping()); futures::pin_mut!(f); let mut fed = false; loop { match futures::poll!(f.as_mut()) { std::task::Poll::Ready(r) => break r, _ => { let mut g = n.lock().unwrap(); if !fed { if let Some(b) = g.bodies.pop() { b.send(Ok(text.as_bytes()[..cut].to_vec())).ok(); b.send(Ok(text.as_bytes()[cut..].to_vec())).ok(); fed = true; } } drop(g); tokio::task::yield_now().await; } } } };
            check(r.is_ok() == good, "an answer that cannot be read is taken, or one that can is not");
            check(same(&received(&mut t).await, &want), "the messages of an answer are not delivered once each in order");
            cover(if good { "answer" } else { "no answer" });
        });
    }
    h_c34_events {
        rt(async {
            let n = net();
            let ids: Arc<Mutex<Vec<String>>> = Default::default();
            let i2 = ids.clone();
            let mut t = StreamableHttpTransport::new(StreamableHttpTransportConfig { on_resumption_token: Some(Arc::new(move |s| i2.lock().unwrap().push(s))), ..config() });
            let get = pick("get", 2) == 1;
            let b = open(&mut t, &n, get).await;
            let mut text = String::new();
            let mut plan: Vec<(usize, Option<String>, Option<Said>)> = vec![]; // end of the event, its id, its message
            for i in 0..tier(2, 3) {
                let id = if pick("id", 2) == 1 { Some(letter("event id").to_string()) } else { None };
                let ty = pick("type", 3);
                let (x, s) = if ty < 2 && pick("readable", 2) == 1 { let (x, s) = kind(i as i64 + 1, [0, 2, 3][pick("kind", 3)]); (x, Some(s)) } else { ("\u{e9}".to_string(), None) };
                if let Some(id) = &id { text += &format!("id: {id}\n"); }
                text += ["", "event: message\n", "event: other\n"][ty];
                text += &format!("data: {x}\n\n");
                plan.push((text.len(), id, if ty == 2 { None } else { s }));
            }
            // the stream comes in two pieces and ends, or is lost, somewhere
            let end = if pick("lost", 2) == 1 { plan[pick("lost after", plan.len() as u64)].0 - pick("bytes before", 3) as usize } else { text.len() };
            let cut = { let k = pick("cut", 6); let k = [0, plan[0].0 - 2, plan[0].0 - 1, plan[0].0, text.find('\u{e9}').map_or(1, |i| i + 1), end][k]; k.min(end) };
            b.send(Ok(text.as_bytes()[..cut].to_vec())).ok();
            let seen = |k: usize| -> (Vec<Said>, Vec<String>) { (plan.iter().filter(|p| p.0 <= k).filter_map(|p| p.2).collect(), plan.iter().filter(|p| p.0 <= k).filter_map(|p| p.1.clone()).collect()) };
            let mut got = received(&mut t).await;
            check(same(&got, &seen(cut).0), "an event of an open stream is not delivered when it has come");
            b.send(Ok(text.as_bytes()[cut..end].to_vec())).ok();
            if end < text.len() { b.send(Err(())).ok(); cover("lost"); } else { cover("ended"); }
            drop(b); n.lock().unwrap().bodies.clear();
            got.extend(received(&mut t).await);
            let (want, last) = seen(end);
            check(same(&got, &want), "the messages of an event stream are not delivered once each in order");
            check(eqo(t.last_event_id().as_deref(), last.last().map(|s| s.as_str())), "the last event id is not the one seen last");
            // an event without an id has that of the one before, which may be announced again
            let mut ids = ids.lock().unwrap().clone();
            let mut last = last;
            ids.dedup(); last.dedup();
            check(ids.len() == last.len() && ids.iter().zip(&last).all(|(a, b)| eqs(a, b)), "the event ids seen are not announced in order");
            cover(if want.is_empty() { "nothing" } else { "delivered" });
        });
    }
    h_c34_replaced {
        // an opened stream stays open; another one, or closing, ends it
        rt(async {
            let n = net();
            let mut t = StreamableHttpTransport::new(config());
            if pick("session", 2) == 1 { t.set_session_id(Some("s".into())); }
            let a = open(&mut t, &n, true).await;
            let (x, m1) = message(1);
            a.send(Ok(format!("id: {}\ndata: {x}\n\n", letter("event id")).into_bytes())).ok();
            check(same(&received(&mut t).await, &[m1]), "an event of an open stream is not delivered when it has come");
            let closed = pick("closed", 2) == 1;
            let (y, m2) = message(2);
            if closed {
                n.lock().unwrap().next.push_back(Some((200, vec![])));
                check(t.close().await.is_ok(), "closing fails");
                a.send(Ok(format!("data: {y}\n\n").into_bytes())).ok();
                check(received(&mut t).await.is_empty(), "a message comes from a stream that was closed");
                cover("closed");
            } else {
                let last = t.last_event_id();
                n.lock().unwrap().next.push_back(Some((200, vec![("content-type", "text/event-stream".into())])));
                check(t.start_sse(last.clone()).await.is_ok(), "an event stream is not opened again");
                let b = { let g = n.lock().unwrap(); check(header(&g.seen[1], "last-event-id", last.as_deref()), "the event id to resume from is not named"); g.bodies.last().unwrap().clone() };
                a.send(Ok(format!("data: {y}\n\n").into_bytes())).ok();
                b.send(Ok(format!("data: {y}\n\n").into_bytes())).ok();
                check(same(&received(&mut t).await, &[m2]), "a message comes from a stream that was replaced, or not from the one in its place");
                cover("replaced");
            }
        });
    }
}
