//! C37: the HTTP client with its event stream.
//! bound: requests: up to 2 configured headers with any one-character value, three addresses, any status, an answer of four kinds (any letter), cut short, or none, in two pieces, each coming at once, one millisecond before the time limit, at once but for its last piece, or never; time limits of 1500 ms and 30 s
//! bound: event streams of up to 2 (thorough 3) events of three kinds, or unreadable ones, cut into two pieces at any byte, ended or lost after any event; closing after any of them; messages posted meanwhile
//! outside: the HTTP client library itself, redirects, TLS (a stand-in takes the requests and gives the answers); the answer to a notification that is no message (an error); an address of the event stream that is none; more than 100 messages waiting; opening a second stream
//! stub: hyper-util's pooled Client (src/vp_http.rs, compiled under --cfg pmcp_vp)
use axum::http::HeaderMap;
use pmcp::shared::http::{HttpConfig, HttpTransport};
use pmcp::shared::{Transport, TransportMessage};
use pmcp::types::jsonrpc::ResponsePayload;
use pmcp::types::*;
use pmcp::vp_http::{Reply, Seen, HANDLER};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::mpsc::{unbounded_channel, UnboundedSender};
use vph::*;

type Body = UnboundedSender<Result<Vec<u8>, ()>>;
#[derive(Default)]
struct Net { seen: Vec<Seen>, next: std::collections::VecDeque<(u64, Option<u16>)>, bodies: Vec<Body> }
/// A server that gives each answer's status (`None`: cannot be reached) after a time in milliseconds.
fn net() -> Arc<Mutex<Net>> {
    let n: Arc<Mutex<Net>> = Default::default();
    let m = n.clone();
    *HANDLER.lock() = Some(Box::new(move |s| {
        let mut g = m.lock().unwrap();
        g.seen.push(s);
        let (wait, status) = g.next.pop_front().unwrap_or((0, None));
        let reply = status.map(|status| { let (tx, rx) = unbounded_channel(); g.bodies.push(tx); Reply { status, headers: HeaderMap::new(), body: rx } });
        Box::pin(async move { if wait > 0 { tokio::time::sleep(Duration::from_millis(wait)).await } else { tokio::task::yield_now().await }; reply })
    }));
    n
}
fn header(s: &Seen, name: &str, want: Option<&str>) -> bool {
    let all: Vec<_> = s.headers.get_all(name).iter().collect();
    match want { None => all.is_empty(), Some(w) => all.len() == 1 && eqs(all[0].to_str().unwrap_or("?"), w) }
}
fn letter(n: &str) -> char { let b = any_u8(n); assume(b >= b'a' && b <= b'z'); b as char }
async fn pass() { for _ in 0..6 { tokio::task::yield_now().await; } }
type Said = (u8, i64, u64);
fn kind(n: i64, k: usize) -> (String, Said) {
    let c = letter("letter");
    match k {
        0 => (format!(r#"{{"jsonrpc":"2.0","id":{n},"result":"{c}"}}"#), (0, n, c as u64)),
        1 => (format!(r#"{{"jsonrpc":"2.0","id":{n},"error":{{"code":-32000,"message":"{c}"}}}}"#), (1, n, c as u64)),
        2 => (format!(r#"{{"jsonrpc":"2.0","method":"notifications/resources/updated","params":{{"uri":"é{c}"}}}}"#), (2, 0, c as u64)),
        _ => (format!(r#"{{"jsonrpc":"2.0","id":{n},"method":"roots/list"}}"#), (3, n, 0)),
    }
}
fn said(m: &TransportMessage) -> Said {
    let one = |s: &str| if s.len() == 1 { s.as_bytes()[0] as u64 } else { 999 };
    let num = |i: &RequestId| if let RequestId::Number(n) = i { *n } else { -1 };
    match m {
        TransportMessage::Response(r) => match &r.payload { ResponsePayload::Result(v) => (0, num(&r.id), v.as_str().map_or(999, one)), ResponsePayload::Error(e) => (1, num(&r.id), one(&e.message)) },
        TransportMessage::Notification(Notification::Server(ServerNotification::ResourceUpdated(p))) => (2, 0, p.uri.strip_prefix('é').map_or(998, one)),
        TransportMessage::Request { id, request: Request::Server(r) } if matches!(**r, ServerRequest::ListRoots) => (3, num(id), 0),
        _ => (9, 0, 0),
    }
}
async fn received(t: &mut HttpTransport) -> Vec<Said> {
    let mut v = vec![];
    loop { pass().await; match futures::poll!(t.receive()) { std::task::Poll::Ready(Ok(m)) => v.push(said(&m)), _ => return v } }
}
fn same(got: &[Said], want: &[Said]) -> bool { got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && a.2 == b.2) }
fn ping() -> TransportMessage { TransportMessage::Request { id: RequestId::Number(5), request: Request::Client(Box::new(ClientRequest::Ping)) } }
fn config() -> HttpConfig { HttpConfig { base_url: "http://h/mcp".parse().unwrap(), ..Default::default() } }
fn headers() -> Vec<(String, String)> { (0..pick("headers", 3)).map(|i| { let b = any_u8("value"); assume(b > 32 && b < 127); (format!("x-{i}"), (b as char).to_string()) }).collect() }
fn given(s: &Seen, h: &[(String, String)]) -> bool { (0..2).all(|i| header(s, &format!("x-{i}"), h.get(i).map(|x| x.1.as_str()))) }

harness! {
    h_c37_post {
        rt(async {
            let n = net();
            let (what, h) = (pick("what", 3), headers());
            assume(what == 0 || h.is_empty());
            let url = ["http://h/mcp", "http://h:1/", "http://h/a/b?c=d"][if what == 0 { pick("url", 3) } else { 0 }];
            let limit = [1500, 30_000][pick("limit", 2)];
            let mut t = HttpTransport::new(HttpConfig { base_url: url.parse().unwrap(), headers: h.clone(), timeout: Duration::from_millis(limit), sse_endpoint: None, ..config() });
            check(!t.is_connected() && t.connect_sse().await.is_ok() && t.is_connected() && n.lock().unwrap().seen.is_empty(), "a transport without an event stream asks for one, or is not connected");
            let (mut text, s) = kind(5, if what == 1 { pick("kind", 4) } else { 0 });
            let good = what != 1 || pick("broken", 2) == 0;
            if !good { text.pop(); }
            let status = match what { 0 => Some(200), 1 => Some(any_in("status", 100, 599) as u16), _ => if pick("reached", 2) == 1 { Some(200) } else { None } };
            // when the answer begins, and when its last piece comes
            let (first, last) = if what == 2 { [(0, 0), (limit - 1, limit - 1), (limit + 1, limit + 1), (0, limit - 1), (0, limit + 1), (0, u64::MAX)][pick("times", 6)] } else { (0, 0) };
            n.lock().unwrap().next.push_back((first, status));
            let began = tokio::time::Instant::now();
            let n2 = n.clone();
            let b = text.clone().into_bytes();
            tokio::spawn(async move {
                pass().await;
                let Some(body) = n2.lock().unwrap().bodies.pop() else { return };
                let half = b.len() / 2;
                body.send(Ok(b[..half].to_vec())).ok();
                if last == u64::MAX { futures::future::pending::<()>().await }
                if last > 0 { tokio::time::sleep_until(began + Duration::from_millis(last)).await }
                body.send(Ok(b[half..].to_vec())).ok();
            });
            let r = tokio::time::timeout(Duration::from_secs(100), t.send(ping())).await;
            check(r.is_ok(), "sending waits beyond its time limit");
            let Ok(r) = r else { return };
            {
                let g = n.lock().unwrap();
                check(g.seen.len() == 1, "a message is posted other than once");
                let q = &g.seen[0];
                check(q.method.as_str() == "POST" && q.url == url && q.body == br#"{"jsonrpc":"2.0","id":5,"method":"ping"}"# && header(q, "content-type", Some("application/json")), "something else is posted than the message");
                check(given(q, &h), "a configured header is not sent");
            }
            let late = status.is_some() && last > limit;
            check(r.is_ok() == (status == Some(200) && good && !late), "an answer that was refused, late or cannot be read is taken, or the other way round");
            if late { check(matches!(r, Err(pmcp::Error::Timeout(ms)) if ms == limit) && began.elapsed() == Duration::from_millis(limit), "a late answer is not told as such when its time is up"); cover("late"); }
            check(same(&received(&mut t).await, if r.is_ok() { std::slice::from_ref(&s) } else { &[] }), "the answer is not received once, or something else is");
            cover(if r.is_ok() { "answered" } else { "not answered" });
            check(t.is_connected() && t.close().await.is_ok() && !t.is_connected(), "a transport is not connected until closed");
        });
    }
    h_c37_events {
        rt(async {
            let n = net();
            let h = headers();
            let mut t = HttpTransport::new(HttpConfig { headers: h.clone(), sse_endpoint: Some(["/events", "e?x=1"][h.len() % 2].into()), ..config() });
            let status = if pick("accepted", 2) == 1 { Some(200) } else { [Some(404), None][pick("refused", 2)] };
            n.lock().unwrap().next.push_back((0, status));
            let r = t.connect_sse().await;
            check(r.is_ok() == status.is_some_and(|s| s == 200) && r.is_ok() == t.is_connected(), "an event stream that was refused is told as connected, or the other way round");
            { let g = n.lock().unwrap(); let q = &g.seen[0]; check(g.seen.len() == 1 && q.method.as_str() == "GET" && q.url == ["http://h/events", "http://h/e?x=1"][h.len() % 2] && header(q, "accept", Some("text/event-stream")), "something else is asked for than the event stream"); check(given(q, &h), "a configured header is not sent"); }
            if r.is_err() { cover("refused"); return; }
            let b = n.lock().unwrap().bodies.pop().unwrap();
            let mut text = String::new();
            let mut plan: Vec<(usize, Option<Said>)> = vec![]; // end of the event, its message
            for i in 0..tier(2, 3) {
                let (x, s) = if pick("readable", 2) == 1 { let (x, s) = kind(i as i64 + 1, [0, 2, 3][pick("kind", 3)]); (x, Some(s)) } else { ("é".to_string(), None) };
                text += &format!("{}data: {x}\n\n", if i == 1 { "id: 1\nevent: message\n" } else { "" });
                plan.push((text.len(), s));
            }
            let end = if pick("lost", 2) == 1 { plan[pick("lost after", plan.len() as u64)].0 } else { text.len() };
            let cut = [0, plan[0].0 - 2, plan[0].0 - 1, plan[0].0, text.find('é').map_or(1, |i| i + 1), end][pick("cut", 6)].min(end);
            let seen = |k: usize| -> Vec<Said> { plan.iter().filter(|p| p.0 <= k).filter_map(|p| p.1).collect() };
            b.send(Ok(text.as_bytes()[..cut].to_vec())).ok();
            let mut got = received(&mut t).await;
            check(same(&got, &seen(cut)), "an event of an open stream is not delivered when it has come");
            let mut want = seen(end);
            let meanwhile = pick("meanwhile", 3);
            if meanwhile == 1 {
                // a message posted while the stream is open
                n.lock().unwrap().next.push_back((0, Some(200)));
                let (x, s) = kind(5, 0);
                let n2 = n.clone();
                tokio::spawn(async move { pass().await; let b = n2.lock().unwrap().bodies.pop(); if let Some(b) = b { b.send(Ok(x.into_bytes())).ok(); } });
                check(t.send(ping()).await.is_ok(), "a message is not sent while a stream is open");
                let k = seen(cut).len();
                want.insert(k, s);
            }
            if meanwhile == 2 { check(t.is_connected() && t.close().await.is_ok(), "closing fails"); want = seen(cut); cover("closed"); }
            b.send(Ok(text.as_bytes()[cut..end].to_vec())).ok();
            pass().await;
            check(t.is_connected() == (meanwhile != 2), "a stream is told as connected after closing, or not before its end");
            if end < text.len() { b.send(Err(())).ok(); cover("lost"); } else { cover("ended"); }
            drop(b);
            got.extend(received(&mut t).await);
            check(same(&got, &want), "the messages of an event stream are not delivered once each in order");
            check(!t.is_connected(), "a stream that is over is told as connected");
            cover(if want.is_empty() { "nothing" } else { "delivered" });
        });
    }
}
