//! C14: request contexts.
//! bound: children of contexts with arbitrary ids (2 bytes), optional user, session and client, a metadata and a baggage entry; headers of contexts with any UUIDs, any string id of up to 3 bytes or number of up to 3 digits and either sign, and such members
//! bound: any traceparent of up to 5 bytes, and every part of 31 to 33 (15 to 17) bytes with an arbitrary character anywhere; any request id header of up to 3 bytes
//! bound: tasks: two tasks and a nested context under every schedule of 6 steps (thorough 8)
//! bound: one entry (made directly or by the macro) or one logger (in its task or from a context), at every level in several spellings, with any such ids, inside a context or none, through a subscriber that records
//! outside: contexts whose ids are no UUIDs written to headers (shortened there to the header's form); several threads
use pmcp::shared::context::*;
use pmcp::shared::logging::*;
use pmcp::types::RequestId;
use tracing::Level;
use std::collections::HashMap;
use vph::*;

fn opt(name: &str, n: usize) -> Option<String> { if fixb(any_bool("given")) { Some(ascii(name, n)) } else { None } }
fn eqopt(a: &Option<String>, b: &Option<String>) -> bool { eqo(a.as_deref(), b.as_deref()) }
fn uuid(name: &str) -> String {
    let h = bytes::<32>(name);
    let mut s = String::new();
    for (i, c) in h.iter().enumerate() { assume(or(and(*c >= b'0', *c <= b'9'), and(*c >= b'a', *c <= b'f'))); if [8, 12, 16, 20].contains(&i) { s.push('-'); } unsafe { s.as_mut_vec().push(*c) } }
    s
}
struct Yield(bool);
impl std::future::Future for Yield { type Output = (); fn poll(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<()> { if self.0 { std::task::Poll::Ready(()) } else { self.0 = true; std::task::Poll::Pending } } }
fn here() -> Option<String> { RequestContext::current().map(|c| c.trace_id.clone()) }
harness! {
    h_c14_child {
        let mut p = RequestContext::new(if fixb(any_bool("kind")) { RequestId::from(any_i64("id")) } else { RequestId::String(ascii("ids", 2)) });
        p.trace_id = ascii("trace", 2); p.span_id = ascii("span", 2); p.parent_span_id = opt("parent", 1);
        if let Some(u) = opt("user", 2) { p = p.with_user_id(u); }
        if let Some(u) = opt("session", 2) { p = p.with_session_id(u); }
        if fixb(any_bool("client")) { p = p.with_client_info(ClientInfo { client_id: ascii("client", 2), version: opt("version", 1), ip_address: None, user_agent: opt("agent", 1) }); }
        p = p.with_metadata(ascii("mk", 1), serde_json::json!({"a": any_i64("mv")})).with_baggage(ascii_upto("bk", 1), ascii_upto("bv", 1));
        let c = p.child();
        check(match (&c.request_id, &p.request_id) { (RequestId::Number(a), RequestId::Number(b)) => a == b, (RequestId::String(a), RequestId::String(b)) => eqs(a, b), _ => false }, "a child has another request id");
        check(eqs(&c.trace_id, &p.trace_id), "a child has another trace id");
        check(eqo(c.parent_span_id.as_deref(), Some(&p.span_id)), "a child does not name its parent");
        check(c.span_id.len() == 36, "a child has no span of its own");
        check(and(eqopt(&c.user_id, &p.user_id), eqopt(&c.session_id, &p.session_id)), "a child has another user or session");
        check(match (&c.client_info, &p.client_info) { (None, None) => true, (Some(a), Some(b)) => and(eqs(&a.client_id, &b.client_id), and(eqopt(&a.version, &b.version), and(eqopt(&a.ip_address, &b.ip_address), eqopt(&a.user_agent, &b.user_agent)))), _ => false }, "a child has another client");
        check(c.metadata.len() == 1 && p.metadata.iter().zip(&c.metadata).all(|(a, b)| and(eqs(a.0, b.0), veq(a.1, b.1))), "a child has other metadata");
        check(c.baggage.len() == 1 && p.baggage.iter().zip(&c.baggage).all(|(a, b)| and(eqs(a.0, b.0), eqs(a.1, b.1))), "a child has other baggage");
        let d = c.child();
        check(d.span_id != c.span_id && d.parent_span_id.as_deref() == Some(&*c.span_id), "a grandchild does not name its parent");
        cover("child");
    }
    h_c14_headers {
        let number = fixb(any_bool("kind"));
        let id = if number { let n = any_in("n", 0, 999) as i64; RequestId::from(if fixb(any_bool("neg")) { -n } else { n }) } else { RequestId::String(ascii_upto("ids", 3)) };
        let text = id.to_string();
        let mut p = RequestContext::new(id);
        p.trace_id = uuid("trace"); p.span_id = uuid("span");
        p.user_id = opt("user", 2); p.session_id = opt("session", 2);
        if fixb(any_bool("baggage")) { let k = ascii("bk", 1); p = p.with_baggage(if fixb(any_bool("prefixed")) { format!("baggage-{k}") } else { k }, ascii_upto("bv", 2)); }
        let h = ContextPropagator::inject(&p);
        let Some(q) = ContextPropagator::extract(&h) else { check(false, "written headers are not read back"); return };
        check(eqs(&q.trace_id, &p.trace_id), "the trace id changes on the way");
        check(eqs(&q.request_id.to_string(), &text), "the request id changes on the way");
        check(and(eqopt(&q.user_id, &p.user_id), eqopt(&q.session_id, &p.session_id)), "the user or session changes on the way");
        check(q.baggage.len() == p.baggage.len() && p.baggage.iter().zip(&q.baggage).all(|(a, b)| and(eqs(a.0, b.0), eqs(a.1, b.1))), "the baggage changes on the way");
        check(q.parent_span_id.as_ref().is_some_and(|s| s.len() == 36 && eqs(&s[..18], &p.span_id[..18])), "the receiver does not name the sender's span as its parent");
        cover("headers");
    }
    h_c14_any {
        let mut h = HashMap::new();
        let part = |name: &str, n: usize| -> String { let k = pick("at", n as u64 + 1); let c = utf8(name, 1 + pick("width", 3)); let mut s = "a".repeat(k); s.push_str(&c); while s.len() < n { s.push('b'); } s };
        let t = match pick("form", 4) { 0 => utf8("t", pick("len", tier(5, 6) as u64)), 1 => format!("00-{}-{}-01", part("x", 32), "0123456789abcdef"), 2 => format!("00-{}-{}-01", "a".repeat(32), part("x", 16)), _ => "00-1-2-3-4".into() };
        h.insert("traceparent".to_string(), t.clone());
        if fixb(any_bool("id")) { h.insert("x-request-id".to_string(), utf8("id", pick("idlen", 4))); }
        let r = RequestContext::from_headers(&h);
        check(if t.is_ascii() { r.is_some() == (t.split('-').count() >= 4) } else { true }, "a traceparent is accepted or refused wrongly");
        if let Some(c) = r { let _ = c.to_headers(); cover("read"); } else { cover("refused"); }
    }
    h_c14_deser {
        // a context from elsewhere, with any ids, can be written to headers
        let mut c = RequestContext::new(RequestId::from(1i64));
        c.trace_id = utf8("trace", pick("tlen", 3)); c.span_id = utf8("span", pick("slen", 3));
        if fixb(any_bool("long")) { c.span_id = format!("{}{}", "0".repeat(15), c.span_id); }
        let h = c.to_headers();
        check(h.contains_key("traceparent") && h.contains_key("x-request-id"), "a context is written without its headers");
    }
    h_c14_tasks {
        let ids: Vec<String> = (0..3).map(|i| format!("{}{}", ascii("t", 1), i)).collect();
        check(here().is_none(), "a context exists outside any task");
        let ctx = |i: usize| { let mut c = RequestContext::new(RequestId::from(i as i64)); c.trace_id = ids[i].clone(); c };
        let ids2 = &ids;
        let seen = move |i: usize| check(eqo(here().as_deref(), Some(&ids2[i])), "a task sees another context than its own");
        let mut s = Sched::new();
        s.spawn(ctx(0).run(async { seen(0); Yield(false).await; seen(0); ctx(2).run(async { seen(2); Yield(false).await; seen(2); }).await; seen(0); Yield(false).await; seen(0); }));
        s.spawn(ctx(1).run(async { seen(1); Yield(false).await; seen(1); let c = RequestContext::current().unwrap().child(); let t = c.trace_id.clone(); c.run(async { check(eqo(here().as_deref(), Some(&t)), "a child task sees another context"); Yield(false).await; seen(1); }).await; seen(1); }));
        s.spawn(async { check(here().is_none(), "a task without context sees one"); Yield(false).await; check(here().is_none(), "a task without context sees one"); });
        check(s.run_all("next", tier(6, 8)), "stuck");
        check(here().is_none(), "a context outlives its task");
        cover("tasks");
    }
    h_c14_log {
        let out: &'static Out = Box::leak(Box::new(Out::default()));
        let context = fixb(any_bool("context"));
        let mut c = RequestContext::new(if fixb(any_bool("kind")) { RequestId::from(any_in("id", 0, 9) as i64) } else { RequestId::String(over("ids", 1, b"aZ\"7")) });
        c.trace_id = over("trace", 2, b"0f-"); c.span_id = over("span", 1, b"0f-");
        c.user_id = if fixb(any_bool("given")) { Some(over("user", 1, b"a\"7")) } else { None };
        c.session_id = if fixb(any_bool("given")) { Some(over("session", 1, b"a\\7")) } else { None };
        let level = ["trace", "debug", "info", "warn", "error", "Warn", "ERROR", "other"][pick("level", 8) as usize];
        let want = [Level::TRACE, Level::DEBUG, Level::INFO, Level::WARN, Level::ERROR, Level::WARN, Level::ERROR, Level::INFO][["trace", "debug", "info", "warn", "error", "Warn", "ERROR", "other"].iter().position(|l| *l == level).unwrap()];
        let text = over("text", 1, b"a\"\n");
        let how = pick("how", 4);
        let d = tracing::Dispatch::new(Sink(out));
        let c2 = c.clone(); let t2 = text.clone();
        let run = async move {
            match how {
                0 => { let mut e = LogEntry::new(level, t2); e = e.with_field("k", serde_json::json!({"v": 1})); if pick("failed", 2) == 1 { e = e.with_error(ErrorDetails { error_type: "T".into(), message: "m".into(), stack_trace: None, code: Some("7".into()) }); } e.log() },
                1 => pmcp::log_correlated!(level, t2, "k" => serde_json::json!({"v": 1})),
                2 => { let l = CorrelatedLogger::new("op"); l.in_scope(|| tracing::info!("inside")); },
                _ => { let l = CorrelatedLogger::from_context("op", &c2); let _g = l.enter(); tracing::info!("inside"); },
            }
        };
        let mut c3 = c.clone(); // a logger for another context than the task's own speaks for that one
        if how == 3 { c3.request_id = RequestId::from(77i64); c3.trace_id = "zz".into(); c3.span_id = "y".into(); c3.user_id = Some("x".into()); c3.session_id = Some("w".into()); }
        tracing::dispatcher::with_default(&d, || if context { block_on(c3.run(run)) } else { block_on(run) });
        let ids = |get: &dyn Fn(&str) -> Option<String>| {
            let has = context || how == 3;
            for (k, v) in [("request_id", Some(c.request_id.to_string())), ("trace_id", Some(c.trace_id.clone())), ("span_id", Some(c.span_id.clone())), ("user_id", c.user_id.clone()), ("session_id", c.session_id.clone())] {
                check(eqo(get(k).as_deref(), if has { v.as_deref() } else { None }), "what is logged does not carry its own task's identifiers");
            }
        };
        if how < 2 {
            let e = out.events.lock().unwrap();
            check(e.len() == 1 && e[0].0 == want, "an entry is not logged once at its level");
            let Ok(v) = serde_json::from_str::<serde_json::Value>(&e[0].1) else { check(false, "what is logged is not JSON"); return };
            check(v["message"].as_str().is_some_and(|m| eqs(m, &text)) && v["level"] == level && v["fields"]["k"]["v"] == 1, "an entry is not logged as it was made");
            ids(&|k| match &v[k] { serde_json::Value::String(s) => Some(s.clone()), serde_json::Value::Number(n) => Some(n.to_string()), _ => None });
        } else {
            let s = out.fields.lock().unwrap();
            check(out.inside.load(std::sync::atomic::Ordering::SeqCst) && !out.open.load(std::sync::atomic::Ordering::SeqCst), "what a logger runs is not inside its span, or the span stays entered");
            check(s.iter().any(|(k, v)| k == "name" && v == "op"), "a logger does not name its operation");
            ids(&|k| s.iter().find(|(n, _)| n == k).map(|(_, v)| v.clone()));
        }
        cover("log");
    }
}
#[derive(Default)] struct Out { events: std::sync::Mutex<Vec<(Level, String)>>, fields: std::sync::Mutex<Vec<(String, String)>>, open: std::sync::atomic::AtomicBool, inside: std::sync::atomic::AtomicBool }
struct Sink(&'static Out);
struct Text<'a>(&'a mut Vec<(String, String)>);
impl tracing::field::Visit for Text<'_> {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) { self.0.push((f.name().to_string(), format!("{v:?}"))); }
    fn record_str(&mut self, f: &tracing::field::Field, v: &str) { self.0.push((f.name().to_string(), v.to_string())); }
}
impl tracing::Subscriber for Sink {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool { true }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id { a.record(&mut Text(&mut self.0.fields.lock().unwrap())); tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) { r.record(&mut Text(&mut self.0.fields.lock().unwrap())); }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut f = vec![]; e.record(&mut Text(&mut f));
        if self.0.open.load(std::sync::atomic::Ordering::SeqCst) { self.0.inside.store(true, std::sync::atomic::Ordering::SeqCst); }
        self.0.events.lock().unwrap().push((*e.metadata().level(), f.into_iter().find(|x| x.0 == "message").map(|x| x.1).unwrap_or_default()));
    }
    fn enter(&self, _: &tracing::span::Id) { self.0.open.store(true, std::sync::atomic::Ordering::SeqCst); }
    fn exit(&self, _: &tracing::span::Id) { self.0.open.store(false, std::sync::atomic::Ordering::SeqCst); }
}
