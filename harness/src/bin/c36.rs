//! C36: WebSocket connections.
//! bound: client and server: histories of 3 (thorough 4) events, each one of: the other side says a message (three kinds, any letter), says something that is none (text, binary, pong, ping), closes or is lost; a message is sent; this side closes; each followed by the tasks running or not, with an other side that takes one or many messages before it reads
//! bound: connecting: up to 4 attempts allowed, refused any number of times, waits doubling to a limit; keepalive pings or none; a second connection in place of the first
//! bound: limits: a message and a frame limit of 30 to 120 bytes or the default, two messages of about 40 to 120 bytes from a client that masks or not; a message is one frame
//! outside: handshake and framing (a stand-in for tokio-tungstenite and the listener gives and takes whole messages); TLS; the reconnection that `auto_reconnect` suggests (not implemented); more than 100 messages waiting; what was queued and not yet written when the other side closed
//! stub: tokio_tungstenite's connect_async, accept_async and tokio's TcpListener (src/vp_ws.rs, compiled under --cfg pmcp_vp)
use futures::channel::mpsc::Receiver;
use futures::StreamExt;
use pmcp::server::transport::websocket::*;
use pmcp::shared::{Transport, TransportMessage, WebSocketConfig, WebSocketTransport};
use pmcp::types::jsonrpc::ResponsePayload;
use pmcp::types::*;
use pmcp::vp_ws::*;
use std::time::Duration;
use tokio::sync::mpsc::{unbounded_channel, UnboundedSender};
use vph::*;

/// The other side of a connection: what it says, what it is told.
struct Peer { say: Option<UnboundedSender<Result<Message, ()>>>, told: Receiver<Message> }
fn pair(room: usize) -> (Ws, Peer) {
    let (say, incoming) = unbounded_channel();
    let (outgoing, told) = futures::channel::mpsc::channel(room);
    (Ws { incoming, outgoing, over: false, masked: true, limits: Default::default() }, Peer { say: Some(say), told })
}
impl Peer {
    fn say(&self, m: Message) { if let Some(s) = &self.say { s.send(Ok(m)).ok(); } }
    /// All it is told from now on, and whether the connection was closed.
    async fn hear(&mut self) -> (Vec<String>, Vec<u8>, bool, bool) {
        let (mut texts, mut pongs, mut closed, mut after) = (vec![], vec![], false, false);
        loop {
            pass().await;
            match futures::poll!(self.told.next()) {
                std::task::Poll::Ready(Some(m)) => { after |= closed; match m { Message::Text(t) => texts.push(t.to_string()), Message::Pong(p) => pongs.push(p[0]), Message::Close(_) => closed = true, _ => {} } }
                _ => return (texts, pongs, closed, after),
            }
        }
    }
}
fn letter(n: &str) -> char { let b = any_u8(n); assume(b >= b'a' && b <= b'z'); b as char }
async fn pass() { for _ in 0..8 { tokio::task::yield_now().await; } }
type Said = (u8, i64, u64);
fn message(n: i64) -> (String, Said) {
    let c = letter("letter");
    match pick("kind", 3) {
        0 => (format!(r#"{{"jsonrpc":"2.0","id":{n},"result":"{c}"}}"#), (0, n, c as u64)),
        1 => (format!(r#"{{"jsonrpc":"2.0","method":"notifications/resources/updated","params":{{"uri":"{c}"}}}}"#), (2, 0, c as u64)),
        _ => (format!(r#"{{"jsonrpc":"2.0","id":{n},"method":"ping"}}"#), (3, n, 0)),
    }
}
fn said(m: &TransportMessage) -> Said {
    let one = |s: &str| if s.len() == 1 { s.as_bytes()[0] as u64 } else { 999 };
    let num = |i: &RequestId| if let RequestId::Number(n) = i { *n } else { -1 };
    match m {
        TransportMessage::Response(r) => match &r.payload { ResponsePayload::Result(v) => (0, num(&r.id), v.as_str().map_or(999, one)), _ => (9, 0, 0) },
        TransportMessage::Notification(Notification::Server(ServerNotification::ResourceUpdated(p))) => (2, 0, one(&p.uri)),
        TransportMessage::Request { id, request: Request::Client(r) } if matches!(**r, ClientRequest::Ping) => (3, num(id), 0),
        _ => (9, 0, 0),
    }
}
/// What can be received now, and whether the connection is then said to be closed.
async fn received(t: &mut dyn Transport) -> (Vec<Said>, bool) {
    let mut v = vec![];
    loop {
        pass().await;
        match futures::poll!(t.receive()) { std::task::Poll::Ready(Ok(m)) => v.push(said(&m)), std::task::Poll::Ready(Err(_)) => return (v, true), _ => return (v, false) }
    }
}
fn same(got: &[Said], want: &[Said]) -> bool { got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && a.2 == b.2) }
/// Runs a history on one connection.
async fn history(t: &mut dyn Transport, p: &mut Peer, pongs: bool) {
    let (mut want, mut sent, mut pings): (Vec<Said>, Vec<String>, Vec<u8>) = (vec![], vec![], vec![]);
    let (mut gone, mut noticed, mut closed) = (false, false, false);
    check(t.is_connected(), "a connection is not told as connected");
    for k in 0..tier(3, 4) {
        match pick("event", 5) {
            0 => { assume(!gone); let (x, s) = message(k as i64); p.say(Message::Text(x.into())); if !closed { want.push(s); } }
            1 => {
                assume(!gone);
                match pick("other", 4) { 0 => p.say(Message::Text("{\"id\":1}".into())), 1 => p.say(Message::Binary(b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"ping\"}".to_vec().into())), 2 => p.say(Message::Pong(vec![].into())), _ => { let b = letter("ping") as u8; p.say(Message::Ping(vec![b].into())); if !closed { pings.push(b); } } }
            }
            2 => {
                let (n, r) = (100 + k as i64, t.send(TransportMessage::Request { id: RequestId::Number(100 + k as i64), request: Request::Client(Box::new(ClientRequest::Ping)) }).await);
                check(!closed || r.is_err(), "a message is taken after closing");
                check(!noticed || r.is_err(), "a message is taken for a side that has gone");
                if !closed && !gone { check(r.is_ok(), "a message is refused on an open connection"); }
                if r.is_ok() { sent.push(format!(r#"{{"jsonrpc":"2.0","id":{n},"method":"ping"}}"#)); cover("sent"); }
            }
            3 => { assume(!gone); match pick("end", 3) { 0 => p.say(Message::Close(None)), 1 => { p.say.as_ref().unwrap().send(Err(())).ok(); } _ => {} } p.say = None; gone = true; }
            _ => { assume(!closed); check(t.close().await.is_ok(), "closing fails"); closed = true; }
        }
        if pick("run", 2) == 1 { pass().await; noticed = gone; }
    }
    pass().await;
    check(t.is_connected() == !(gone || closed), "a connection that is over is told as connected, or the other way round");
    if closed || gone { check(t.send(TransportMessage::Request { id: RequestId::Number(1), request: Request::Client(Box::new(ClientRequest::Ping)) }).await.is_err(), "a message is taken after closing"); }
    let (texts, ps, shut, after) = p.hear().await;
    check(!after, "something is sent on a closed connection");
    if !gone {
        check(texts.len() == sent.len() && texts.iter().zip(&sent).all(|(a, b)| eqs(a, b)), "the messages sent do not reach the other side once each in order");
        if pongs { check(if closed { pings.starts_with(&ps) || ps.len() <= pings.len() } else { eq(&ps, &pings) }, "a ping is not answered once with its contents"); }
        check(shut == closed, "the other side is not told of the closing, or is without one");
        cover(if closed { "closed" } else { "open" });
    } else {
        check(texts.len() <= sent.len() && texts.iter().zip(&sent).all(|(a, b)| eqs(a, b)), "the messages sent do not reach the other side once each in order");
        cover("gone");
    }
    let (got, over) = received(t).await;
    check(over == (gone || closed), "receiving waits on a connection that is over, or fails on an open one");
    if closed { check(got.len() <= want.len() && same(&got, &want[..got.len()]), "the messages received are not those said, once each in order"); } else { check(same(&got, &want), "the messages received are not those said, once each in order"); }
    cover(if got.is_empty() { "nothing" } else { "received" });
}
harness! {
    h_c36_server {
        rt(async {
            let (ws, mut p) = pair([0, 8][pick("room", 2)]);
            ARRIVE.lock().push_back(ws);
            let mut t = WebSocketServerTransport::default_server();
            check(!t.is_connected() && t.receive().await.is_err() && t.accept().await.is_err(), "a connection is there before any was accepted");
            check(t.bind().await.is_ok() && t.accept().await.is_ok(), "a connection is not accepted");
            history(&mut t, &mut p, true).await;
        });
    }
    h_c36_limits {
        rt(async {
            let (mut ws, p) = pair(8);
            let masked = fixb(any_bool("masked"));
            ws.masked = masked;
            ARRIVE.lock().push_back(ws);
            let some = |n: &str| if pick("limited", 2) == 1 { Some(any_in(n, 30, 120) as usize) } else { None };
            let (most, frame, unmasked) = (some("message"), some("frame"), pick("unmasked", 2) == 1);
            let mut b = WebSocketServerBuilder::new().accept_unmasked_frames(unmasked);
            if let Some(n) = most { b = b.max_message_size(n); }
            if let Some(n) = frame { b = b.max_frame_size(n); }
            let mut t = b.build();
            check(t.bind().await.is_ok() && t.accept().await.is_ok(), "a connection is not accepted");
            let mut want = vec![];
            let mut open = true;
            for k in 0..2 {
                let pad = " ".repeat([0, 30][pick("pad", 2)]);
                let (x, s) = message(k);
                let x = x + &pad;
                open = open && (masked || unmasked) && !fixb(or(most.is_some_and(|m| x.len() > m), frame.is_some_and(|m| x.len() > m)));
                if open { want.push(s); }
                p.say(Message::Text(x.into()));
            }
            let (got, over) = received(&mut t).await;
            check(same(&got, &want), "a message beyond the configured limits is received, or one within them is not");
            check(over != open && t.is_connected() == open, "a connection goes on after a message beyond its limits, or ends without one");
            cover(if open { "within limits" } else { "beyond limits" });
        });
    }
    h_c36_client {
        rt(async {
            let (ws, mut p) = pair([0, 8][pick("room", 2)]);
            DIAL.lock().push_back(Some(ws));
            let mut t = WebSocketTransport::new(WebSocketConfig { ping_interval: None, max_reconnect_attempts: Some(1), ..Default::default() });
            check(!t.is_connected(), "a connection is there before any was made");
            check(t.connect().await.is_ok(), "a connection is not made");
            history(&mut t, &mut p, false).await;
        });
    }
    h_c36_connect {
        rt(async {
            let max = 1 + pick("attempts", 4) as u32;
            let refused = pick("refused", 5) as u32;
            let (first, most) = [(1, 60), (2, 3), (0, 0), (4, 2)][pick("delays", 4)];
            for _ in 0..refused { DIAL.lock().push_back(None); }
            let (ws, mut p) = pair(8);
            DIAL.lock().push_back(Some(ws));
            let ping = if pick("ping", 2) == 1 { Some(Duration::from_secs(1000)) } else { None };
            let limited = refused >= 4 || pick("limit", 2) == 1;
            let mut t = WebSocketTransport::new(WebSocketConfig { url: "ws://h:1/x".parse().unwrap(), reconnect_delay: Duration::from_secs(first), max_reconnect_delay: Duration::from_secs(most), max_reconnect_attempts: if limited { Some(max) } else { None }, ping_interval: ping, ..Default::default() });
            let began = tokio::time::Instant::now();
            let r = t.connect().await;
            let ok = !limited || refused < max;
            let tries = if ok { refused + 1 } else { max };
            check(r.is_ok() == ok, "connecting gives up early, or succeeds without a connection");
            check(DIALLED.lock().len() == tries as usize && DIALLED.lock().iter().all(|u| u == "ws://h:1/x"), "another number of connections is tried than allowed, or elsewhere");
            let (mut want, mut d) = (0, first);
            for _ in 1..tries { want += d; d = (d * 2).min(most); }
            check(began.elapsed() == Duration::from_secs(want), "the waits between attempts do not double up to the limit");
            check(t.is_connected() == ok, "a connection is told that was not made, or not told");
            if !ok { check(received(&mut t).await.1, "receiving waits without a connection"); cover("refused"); return; }
            // keepalive does not keep a closed connection open
            p.say(Message::Text(message(7).0.into()));
            if pick("again", 2) == 1 {
                // another connection takes the place of the first
                let (ws, mut q) = pair(8);
                DIAL.lock().push_back(Some(ws));
                check(t.connect().await.is_ok(), "a second connection is not made");
                p.say = None;
                let (x, s) = message(8);
                q.say(Message::Text(x.into()));
                let (got, over) = received(&mut t).await;
                check(!over && t.is_connected() && !got.is_empty() && same(&got[got.len() - 1..], &[s]), "the end of a connection ends the one in its place");
                check(t.close().await.is_ok() && q.hear().await.2, "the other side is not told of the closing, or is without one");
                cover("replaced");
            } else { check(t.close().await.is_ok() && p.hear().await.2 && received(&mut t).await.1, "the other side is not told of the closing, or is without one"); cover("connected"); }
        });
    }
}
