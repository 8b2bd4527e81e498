//! C01: SSE decoding.
//! bound: chunking: every UTF-8 text of up to 5 bytes (6 thorough) and every cut into two chunks, plus one character at a time
//! bound: rules: every text of up to 3 lines (4 thorough) drawn from data/event/id/retry/comment/unknown/blank/raw lines with 0-1 symbolic ASCII value bytes, LF or CRLF, then a blank line
//! bound: field names: every 2-, 4- and 5-byte ASCII name; retry values of up to 3 symbolic bytes
//! outside: longer texts, a lone CR as line end, a leading byte-order mark
//! assume: reference decoder in harness/src/bin/c01.rs is the event-stream rules
//! heavy: h_c01_rules
use pmcp::shared::sse_parser::{SseEvent, SseParser};
use vph::*;

/// The rules, written independently of the parser: whole text in, events and last id out.
struct R { ev: Vec<SseEvent>, last: Option<String> }
fn reference(t: &str) -> R {
    let mut r = R { ev: vec![], last: None };
    let (mut data, mut event, mut id, mut retry): (Vec<String>, Option<String>, Option<String>, Option<u64>) = (vec![], None, None, None);
    let b = t.as_bytes();
    let mut start = 0;
    for i in 0..b.len() {
        if b[i] != b'\n' { continue; }
        let mut end = i;
        if end > start && b[end - 1] == b'\r' { end -= 1; }
        let line = &b[start..end];
        start = i + 1;
        if line.is_empty() {
            if !data.is_empty() { r.ev.push(SseEvent { id: id.clone().or(r.last.clone()), event: event.clone(), data: data.join("\n"), retry }); }
            data.clear(); event = None; id = None; retry = None;
            continue;
        }
        let mut c = line.len();
        for k in 0..line.len() { if line[k] == b':' { c = k; break; } }
        let name = &line[..c];
        let mut v = c + 1;
        if v < line.len() && line[v] == b' ' { v += 1; }
        let val = if v <= line.len() { &line[v..] } else { &line[line.len()..] };
        let s = || unsafe { String::from_utf8_unchecked(val.to_vec()) };
        if name == b"data" { data.push(s()); }
        else if name == b"event" { event = Some(s()); }
        else if name == b"id" { if !val.contains(&0) { id = Some(s()); r.last = Some(s()); } }
        else if name == b"retry" && !val.is_empty() && val.iter().all(|d| *d >= b'0' && *d <= b'9') { retry = Some(val.iter().fold(0, |a, d| a * 10 + (*d - b'0') as u64)); }
    }
    r
}
fn same(x: &[SseEvent], y: &[SseEvent], what: &str) {
    check(x.len() == y.len(), what);
    for (p, q) in x.iter().zip(y) {
        check(eqs(&p.data, &q.data), what);
        check(eqo(p.id.as_deref(), q.id.as_deref()), what);
        check(eqo(p.event.as_deref(), q.event.as_deref()), what);
        check(p.retry == q.retry, what);
        cover("event");
    }
}
fn line(t: &mut String, n: usize) {
    const KIND: [&str; 11] = ["data:", "data: ", "data", "event:", "id: ", "id", "retry:", ":", "foo: ", "", "raw"];
    let k = pick(&format!("kind{n}"), 11);
    let v = if k == 9 { String::new() } else if k == 10 { ascii(&format!("v{n}"), 1) } else if k == 2 || k == 5 { String::new() } else { ascii_upto(&format!("v{n}"), 1) };
    if k != 10 { t.push_str(KIND[k]); }
    t.push_str(&v);
    t.push_str("\n");
}
harness! {
    h_c01_chunk {
        let n = pick("n", tier(6, 7) as u64);
        let s = utf8("s", n);
        let k = pick("k", n as u64 + 1);
        assume(s.is_char_boundary(k));
        let mut a = SseParser::new();
        let x = a.feed(&s);
        let mut b = SseParser::new();
        let mut y = b.feed(&s[..k]);
        y.extend(b.feed(&s[k..]));
        same(&x, &y, "chunking changes the events");
        check(eqo(a.last_event_id(), b.last_event_id()), "chunking changes the last id");
    }
    h_c01_each {
        // a fixed shape with symbolic bytes, fed one character at a time against all at once
        let mut t = String::from("data:");
        t.push_str(&utf8("a", 3));
        t.push_str("\r\n");
        t.push_str(&ascii("b", 1));
        t.push_str("\r\n\r\n");
        let mut a = SseParser::new();
        let x = a.feed(&t);
        let mut b = SseParser::new();
        let mut y = vec![];
        for c in t.chars() { let mut u = [0u8; 4]; y.extend(b.feed(c.encode_utf8(&mut u))); }
        same(&x, &y, "feeding one character at a time changes the events");
        let r = reference(&t);
        same(&x, &r.ev, "events differ from the rules");
    }
    h_c01_rules {
        let n = tier(3, 4);
        let mut t = String::new();
        for i in 0..n { line(&mut t, i); }
        // the last line end and the blank line in either form
        if fixb(any_bool("crlf")) { t.pop(); t.push_str("\r\n\r\n"); } else { t.push('\n'); }
        let mut a = SseParser::new();
        let x = a.feed(&t);
        let r = reference(&t);
        same(&x, &r.ev, "events differ from the rules");
        check(eqo(a.last_event_id(), r.last.as_deref()), "last id differs from the rules");
        if r.ev.len() == 2 { cover("two events"); }
        if r.ev.len() == 1 && r.ev[0].id.is_some() { cover("event with id"); }
        if r.ev.len() == 1 && r.ev[0].retry.is_some() { cover("event with retry"); }
    }
    h_c01_fields {
        // near-miss field names: only the exact names count
        let w = [2usize, 4, 5][pick("w", 3)];
        let mut t = ascii("name", w);
        t.push_str(": 5\ndata: x\n\n");
        let mut a = SseParser::new();
        let x = a.feed(&t);
        let r = reference(&t);
        same(&x, &r.ev, "events differ from the rules");
        check(eqo(a.last_event_id(), r.last.as_deref()), "last id differs from the rules");
        if r.ev.len() == 1 && r.ev[0].event.is_some() { cover("event type"); }
    }
    h_c01_retry {
        let mut t = String::from("retry:");
        t.push_str(&ascii_upto("v", 3));
        t.push_str("\ndata: x\n\ndata: y\n\n");
        let mut a = SseParser::new();
        let x = a.feed(&t);
        let r = reference(&t);
        same(&x, &r.ev, "events differ from the rules");
    }
    h_c01_reset {
        // after a reset the parser starts a fresh stream
        let mut a = SseParser::new();
        let mut t = String::from("data:");
        t.push_str(&ascii("p", 2));
        a.feed(&t);
        a.reset();
        let u = String::from("data: z\n\n");
        let x = a.feed(&u);
        same(&x[x.len() - 1..], &reference(&u).ev, "text from before a reset leaks into an event");
        check(x.len() == 1, "events after a reset");
    }
}
