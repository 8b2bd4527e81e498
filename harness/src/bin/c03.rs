//! C03: stdio framing.
//! bound: sequences of up to 3 messages (2 quick) of every kind with symbolic one-byte text and ids, through a pipe of 1 to 4096 bytes and with every single cut of the byte stream
//! bound: five texts outside ASCII in every kind of message
//! bound: header sections of up to 3 lines (2 quick) of length, near-length, other and symbolic lines (LF or CRLF), every length text of up to 2 symbolic bytes and boundary numbers up to and beyond 64 bits
//! bound: bodies of up to 4 arbitrary bytes; every truncation of a frame
//! outside: the process's real stdin and stdout (in-memory pipes stand for them), larger bodies
use pmcp::shared::stdio::StdioTransport;
use pmcp::shared::{Transport, TransportMessage};
use pmcp::types::*;
use serde_json::json;
use tokio::io::{duplex, AsyncWriteExt, DuplexStream};
use vph::*;

fn same(a: &TransportMessage, b: &TransportMessage) -> bool { veq(&serde_json::to_value(a).unwrap(), &serde_json::to_value(b).unwrap()) }
fn message(n: usize) -> TransportMessage {
    let s = over(&format!("s{n}"), 1, b"abc{}\":,\n\\");
    match pick(&format!("k{n}"), 4) {
        0 => TransportMessage::Request { id: RequestId::Number(any_in(&format!("i{n}"), 0, 9) as i64), request: Request::Client(Box::new(ClientRequest::Ping)) },
        1 => TransportMessage::Response(JSONRPCResponse::success(RequestId::String(s.clone()), json!({"x": s}))),
        2 => TransportMessage::Response(JSONRPCResponse::error(RequestId::Number(7), JSONRPCError::new(-32601, s))),
        _ => TransportMessage::Notification(Notification::Server(ServerNotification::ResourceUpdated(pmcp::types::protocol::ResourceUpdatedParams { uri: s }))),
    }
}
fn ping(i: i64) -> TransportMessage { TransportMessage::Request { id: RequestId::Number(i), request: Request::Client(Box::new(ClientRequest::Ping)) } }
fn reader() -> (StdioTransport, DuplexStream, DuplexStream) { let (a, b) = duplex(4096); let (c, d) = duplex(16); (StdioTransport::vp_new(a, c), b, d) }
fn put(w: &mut DuplexStream, b: &[u8]) { block_on(w.write_all(b)).unwrap(); }
fn frame(m: &TransportMessage) -> Vec<u8> { let b = StdioTransport::serialize_message(m).unwrap(); let mut o = format!("Content-Length: {}\r\n\r\n", b.len()).into_bytes(); o.extend(b); o }
/// The next message must be exactly the ping with this id.
fn expect(t: &mut StdioTransport, i: i64, what: &str) { match block_on(t.receive()) { Ok(m) => check(same(&m, &ping(i)), what), Err(_) => check(false, what) } }

harness! {
    h_c03_sequence {
        let n = 1 + pick("n", tier(2, 3) as u64);
        let cap = [1, 2, 5, 16, 64, 4096][pick("cap", 6)];
        let ms: Vec<TransportMessage> = (0..n).map(message).collect();
        let (x, y) = duplex(cap);
        let (p, _q) = duplex(16); let (r, _s) = duplex(16);
        let mut tx = StdioTransport::vp_new(p, x);
        let mut rx = StdioTransport::vp_new(y, r);
        let out = ms.clone();
        let got = std::cell::RefCell::new(vec![]);
        let mut s = Sched::new();
        s.spawn(async { for m in out { if tx.send(m).await.is_err() { check(false, "send fails"); } } });
        s.spawn(async { for _ in 0..n { match rx.receive().await { Ok(m) => got.borrow_mut().push(m), Err(_) => { check(false, "a framed message is not received"); } } } });
        check(s.run_all("sched", 0), "stuck");
        drop(s);
        let got = got.into_inner();
        check(got.len() == n, "messages are lost or duplicated");
        for (a, b) in ms.iter().zip(&got) { check(same(a, b), "a message changes in framing"); }
        if n > 1 { cover("two messages"); }
    }
    h_c03_text {
        // text that is not ASCII: what is written is exactly the frame, and reads back
        let t = ["\u{e9}", "a\u{20ac}", "\u{1f600}b", "\u{0}\u{7f}\u{2028}", ""][pick("t", 5)].to_string();
        let m = match pick("k", 3) {
            0 => TransportMessage::Response(JSONRPCResponse::success(RequestId::String(t.clone()), json!({t.clone(): [t]}))),
            1 => TransportMessage::Response(JSONRPCResponse::error(RequestId::Number(7), JSONRPCError::new(-32601, t))),
            _ => TransportMessage::Notification(Notification::Server(ServerNotification::ResourceUpdated(pmcp::types::protocol::ResourceUpdatedParams { uri: t }))),
        };
        let (x, mut y) = duplex(4096);
        let (p, _q) = duplex(16);
        let mut tx = StdioTransport::vp_new(p, x);
        check(block_on(tx.send(m.clone())).is_ok(), "send fails");
        let want = frame(&m);
        let mut got = vec![0u8; want.len()];
        block_on(tokio::io::AsyncReadExt::read_exact(&mut y, &mut got)).unwrap();
        check(got == want, "what is written is not the frame of the message");
        drop(tx);
        let mut rest = vec![];
        block_on(tokio::io::AsyncReadExt::read_to_end(&mut y, &mut rest)).unwrap();
        check(rest.is_empty(), "something follows the frame");
        let (mut t, mut w, _d) = reader();
        put(&mut w, &want);
        match block_on(t.receive()) { Ok(r) => check(same(&r, &m), "a message with text that is not ASCII changes"), Err(_) => check(false, "a message with text that is not ASCII is not received") }
        cover("unicode");
    }
    h_c03_cut {
        let (m, k) = (message(0), ping(3));
        let mut b = frame(&m); b.extend(frame(&k));
        let cut = pick("cut", b.len() as u64);
        let (mut t, mut w, _d) = reader();
        let got = std::cell::RefCell::new(vec![]);
        let mut s = Sched::new();
        s.spawn(async { for _ in 0..2 { match t.receive().await { Ok(m) => got.borrow_mut().push(m), Err(_) => { check(false, "a frame that arrives in pieces is not received"); } } } });
        put(&mut w, &b[..cut]);
        s.poll(0);
        put(&mut w, &b[cut..]);
        check(s.run_all("sched", 0), "stuck");
        drop(s);
        let got = got.into_inner();
        check(got.len() == 2 && same(&got[0], &m) && same(&got[1], &k), "a frame that arrives in pieces changes");
        cover("pieces");
    }
    h_c03_truncated {
        let b = frame(&message(0));
        let cut = pick("cut", b.len() as u64);
        let (mut t, mut w, _d) = reader();
        put(&mut w, &b[..cut]);
        drop(w);
        check(block_on(t.receive()).is_err(), "a truncated frame gives a message");
        check(block_on(t.receive()).is_err(), "a message appears after the end of the stream");
        cover("truncated");
    }
    h_c03_headers {
        let body = StdioTransport::serialize_message(&ping(5)).unwrap();
        let n = 1 + pick("n", tier(2, 3) as u64);
        let (mut text, mut len, mut early) = (String::new(), false, false);
        for i in 0..n {
            match pick(&format!("h{i}"), 8) {
                0 => { text += &format!("Content-Length: {}", body.len()); len = true; }
                1 => { text += &format!("Content-Length:   {}  ", body.len()); len = true; }
                2 => text += "Content-Type: application/json; charset=utf-8",
                3 => text += "X-Content-Length: 3",
                4 => text += "Content-Length: x",
                5 => text += "Content-Length: -1",
                6 => text += "Content-Length:",
                _ => { let s = ascii(&format!("v{i}"), 2); for c in s.bytes() { assume(and(c != b'\n', and(c != b'\r', and(c != b' ', and(c > 13 || c < 9, or(c < 0x1c, c > 0x1f)))))); } text += &s; }
            }
            text += if fixb(any_bool(&format!("crlf{i}"))) { "\r\n" } else { "\n" };
            let _ = &mut early;
        }
        text += if fixb(any_bool("crlf")) { "\r\n" } else { "\n" };
        let (mut t, mut w, _d) = reader();
        put(&mut w, text.as_bytes());
        if len { put(&mut w, &body); }
        put(&mut w, &frame(&ping(6)));
        if len { expect(&mut t, 5, "a frame with a length header is not received intact"); cover("good header"); }
        else { check(block_on(t.receive()).is_err(), "a header section without a readable length gives a message"); cover("bad header"); }
        expect(&mut t, 6, "the frame after another header section is lost");
    }
    h_c03_length {
        // length text against a fixed stream: the length alone decides
        let body = StdioTransport::serialize_message(&ping(5)).unwrap();
        let sym = fixb(any_bool("sym"));
        let txt = if sym { ascii_upto("len", 2) } else { ["0", "000", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "1000000000000", "340282366920938463463374607431768211456", "1.0", "1e1", "0x10", "٣"][pick("big", 14)].to_string() };
        if sym { for c in txt.bytes() { assume(and(c != b'\n', c != b'+')); } }
        let txt = pin(&txt, |c| c.is_ascii_digit());
        let (mut t, mut w, _d) = reader();
        put(&mut w, format!("Content-Length: {txt}\r\n\r\n").as_bytes());
        put(&mut w, &body);
        put(&mut w, &frame(&ping(6)));
        drop(w);
        let want = txt.trim().bytes().fold(if txt.trim().is_empty() { None } else { Some(0usize) }, |a, c| a.and_then(|a| if c.is_ascii_digit() { a.checked_mul(10)?.checked_add((c - b'0') as usize) } else { None }));
        let r = block_on(t.receive());
        if want == Some(body.len()) { check(matches!(&r, Ok(m) if same(m, &ping(5))), "a frame with its exact length is not received"); expect(&mut t, 6, "the frame after it is lost"); cover("exact"); }
        else { check(r.is_err(), "a frame with another length gives a message"); if want.is_some() { cover("other length"); } }
    }
    h_c03_body {
        let n = pick("n", 5);
        let mut b = vec![0u8; n];
        sym(&mut b, "b");
        for &c in &b { assume(and(c != b'.', and(c != b'e', c != b'E'))); }
        let (mut t, mut w, _d) = reader();
        put(&mut w, format!("Content-Length: {n}\r\n\r\n").as_bytes());
        put(&mut w, &b);
        put(&mut w, &frame(&ping(6)));
        check(block_on(t.receive()).is_err(), "a body that is no message gives a message");
        expect(&mut t, 6, "the frame after an unreadable body is lost");
        cover("bad body");
    }
    h_c03_close {
        let (mut t, mut w, _d) = reader();
        put(&mut w, &frame(&ping(6)));
        check(t.is_connected(), "a fresh transport is not connected");
        check(block_on(t.close()).is_ok(), "close fails");
        check(!t.is_connected(), "a closed transport says it is connected");
        check(block_on(t.receive()).is_err(), "a closed transport receives");
        check(block_on(t.send(message(0))).is_err(), "a closed transport sends");
        cover("closed");
    }
    h_c03_eof {
        // end of stream between frames closes the transport and every later operation fails
        let (mut t, mut w, _d) = reader();
        let m = message(0);
        put(&mut w, &frame(&m));
        drop(w);
        match block_on(t.receive()) { Ok(x) => check(same(&x, &m), "the last frame changes"), Err(_) => check(false, "the last frame is lost") }
        check(block_on(t.receive()).is_err(), "a message appears after the end of the stream");
        check(!t.is_connected(), "the transport says it is connected after the end of the stream");
        check(block_on(t.send(message(1))).is_err(), "a transport at the end of its stream sends");
        cover("eof");
    }
}
