//! C02: SSE encode/decode round trip.
//! bound: one event with data of up to 4 ASCII bytes (5 thorough), id and type of up to 2 bytes each, retry 0..=999
//! bound: sequences of two events with data of up to 2 bytes and optional one-byte ids and types
//! outside: CR inside data (line ends are normalised to LF by the format), NUL in ids, larger retry values
use pmcp::shared::sse_parser::{SseEvent, SseParser, SseStream};
use vph::*;
fn no(s: &str, bad: &[u8]) { for b in s.bytes() { for x in bad { assume(b != *x); } } }
fn same(x: &SseEvent, y: &SseEvent, w: &str) {
    check(eqs(&x.data, &y.data), w);
    check(eqo(x.id.as_deref(), y.id.as_deref()), w);
    check(eqo(x.event.as_deref(), y.event.as_deref()), w);
    check(x.retry == y.retry, w);
}
fn ev(n: &str, d: usize, m: usize) -> SseEvent {
    let data = ascii_upto(&format!("{n}data"), d);
    no(&data, b"\r");
    let mut e = SseEvent::new(data);
    if fixb(any_bool(&format!("{n}hasid"))) { let s = ascii_upto(&format!("{n}id"), m); no(&s, b"\r\n\0"); e = e.with_id(s); }
    if fixb(any_bool(&format!("{n}hasev"))) { let s = ascii_upto(&format!("{n}ev"), m); no(&s, b"\r\n"); e = e.with_event(s); }
    e
}
harness! {
    h_c02_data {
        let data = ascii_upto("data", tier(4, 5));
        no(&data, b"\r");
        let e = SseEvent::new(data);
        let t = e.to_string();
        let mut p = SseParser::new();
        let x = p.feed(&t);
        check(x.len() == 1, "an encoded event does not decode to one event");
        same(&x[0], &e, "an encoded event decodes to another");
        if x[0].data.len() == 3 { cover("three bytes"); }
    }
    h_c02_utf8 {
        let data = utf8("data", 4);
        no(&data, b"\r");
        let e = SseEvent::new(data).with_id("é");
        let x = SseParser::new().feed(&e.to_string());
        check(x.len() == 1, "an encoded event does not decode to one event");
        same(&x[0], &e, "an encoded event decodes to another");
    }
    h_c02_fields {
        let mut e = ev("", 1, 2);
        if fixb(any_bool("hasretry")) { e = e.with_retry(any_in("retry", 0, 999)); cover("retry"); }
        let x = SseParser::new().feed(&e.to_string());
        check(x.len() == 1, "an encoded event does not decode to one event");
        same(&x[0], &e, "an encoded event decodes to another");
    }
    h_c02_seq {
        let a = ev("a", 2, 1);
        let b = ev("b", 1, 1);
        let mut want = b.clone();
        if want.id.is_none() { want.id = a.id.clone(); }
        let t = SseStream::new().event(a.clone()).event(b).build();
        let x = SseParser::new().feed(&t);
        check(x.len() == 2, "two encoded events do not decode to two");
        same(&x[0], &a, "the first of two events changes");
        same(&x[1], &want, "the second of two events changes");
        cover("pair");
    }
}
