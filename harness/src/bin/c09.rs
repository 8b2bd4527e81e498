//! C09: session lifetime.
//! bound: histories of 4 (thorough 5) steps over up to 3 sessions and one unknown id, each a create, validate, get, update, authenticate, destroy, clean-up, or a request through the middleware (cookie or header); the clock before each step is any second of a 256 s window at or after the last one, on or halfway between seconds; timeouts 0 s, 7 s and 60.5 s; limits 1 and 2
//! bound: header text: a cookie of up to 3 pieces around the session cookie made of ';', '=', space and a letter, and either spelling of the session header
//! assume: the random generator gives distinct ids (it is a fixed stream here)
//! bound: two threads: every pair of operations, the second running at once before any atomic read-modify-write of the first (so between any two of its lock regions), or after it, on a manager with one session, live or expired, and room for one more; the outcome must be that of one of the two orders
//! outside: two threads that interrupt each other, or at other points; configurations whose expiry instant leaves the calendar
use pmcp::shared::session::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Arc;
use vph::*;

const T0: u64 = 1_700_000_000;
static MADE: AtomicU32 = AtomicU32::new(0);
static GONE: AtomicU32 = AtomicU32::new(0);
struct M { id: String, exp_s: u64, exp_ns: u64, live: bool, data: i64, auth: bool }
struct Clock { s: u64, ns: u64 }
impl Clock {
    fn step(&mut self, k: usize) {
        let s = any_in("t", 0, 255); let ns = ite(any_bool("half"), 500_000_000, 0);
        assume(or(s > self.s, and(s == self.s, ns >= self.ns)));
        self.s = s; self.ns = ns; let _ = k;
        clock_real(T0 + s, ns);
    }
    fn past(&self, m: &M) -> bool { or(self.s > m.exp_s, and(self.s == m.exp_s, self.ns > m.exp_ns)) }
}
fn history(ops: &[usize], steps: usize, time: bool) {
    let (max, tmo) = (1 + pick("max", 2), if time { pick("timeout", 3) } else { 2 });
    let (ts, tn) = [(0u64, 0u64), (7, 0), (60, 500_000_000)][tmo];
    let mut mgr = SessionManager::new(SessionConfig { timeout: chrono(ts, tn), max_sessions: max, ..Default::default() });
    mgr.set_callbacks(SessionCallbacks { on_create: Some(Box::new(|_| { MADE.fetch_add(1, SeqCst); })), on_destroy: Some(Box::new(|_| { GONE.fetch_add(1, SeqCst); })), on_expire: Some(Box::new(|_| { GONE.fetch_add(1, SeqCst); })) });
    let mgr = Arc::new(mgr);
    let mw = SessionMiddleware::new(mgr.clone());
    let mut c = Clock { s: 0, ns: 0 };
    clock_real(T0, 0);
    let mut ms: Vec<M> = vec![];
    let (mut made, mut gone) = (0, 0);
    for k in 0..steps {
        if time { c.step(k); }
        let op = if k == 0 { 0 } else { ops[pick("op", ops.len() as u64)] };
        let live = ms.iter().filter(|m| m.live).count();
        if op == 0 {
            let r = mgr.create_session(None);
            check(r.is_ok() == (live < max), "the session limit is not respected, or refuses too early");
            if let Ok(s) = r {
                made += 1;
                check(ms.iter().all(|m| m.id != s.id), "two sessions have the same id");
                check(!s.authenticated && s.auth_info.is_none(), "a new session is authenticated");
                let ns = c.ns + tn;
                ms.push(M { id: s.id, exp_s: c.s + ts + ns / 1_000_000_000, exp_ns: ns % 1_000_000_000, live: true, data: -1, auth: false });
            } else { cover("limit reached"); }
        } else if op == 7 {
            mgr.cleanup_expired();
            for m in ms.iter_mut() { if m.live && fixb(c.past(m)) { m.live = false; gone += 1; cover("cleaned up"); } }
        } else {
            let i = pick("which", ms.len() as u64 + 1);
            let known = i < ms.len();
            let id = if known { ms[i].id.clone() } else { "unknown".to_string() };
            let live = known && ms[i].live;
            let past = live && fixb(c.past(&ms[i]));
            match op {
                1 => { // validate
                    let r = mgr.validate_session(&id);
                    if let Ok(s) = &r { check(s.id == id, "another session is returned"); }
                    check(!(live && past && r.is_ok()), "an expired session is accepted");
                    check(r.is_ok() || !live || past, "a live session is refused");
                    check(live || r.is_err(), "an unknown or removed session is accepted");
                    if live && past { ms[i].live = false; gone += 1; cover("expired"); } else if live { cover("accepted"); }
                }
                2 => { let r = mgr.get_session(&id); check(r.is_some() == live, "looking up a session finds one that is gone, or misses one"); if let Some(s) = r { check(s.id == id && s.authenticated == ms[i].auth && s.data["v"].as_i64().unwrap_or(-1) == ms[i].data, "a session carries another one's content"); } }
                3 => { let r = mgr.update_session(&id, |s| s.data["v"] = (k as i64).into()); check(r.is_ok() == live, "updating a session that is gone succeeds, or a live one fails"); if live { ms[i].data = k as i64; } }
                4 => { let r = mgr.authenticate_session(&id, format!("u{k}")); check(r.is_ok() == live, "authenticating a session that is gone succeeds, or a live one fails"); if live { ms[i].auth = true; } }
                5 => { let r = mgr.destroy_session(&id); check(r.is_ok() == live, "removing a session twice succeeds, or a live one fails"); if live { ms[i].live = false; gone += 1; } }
                _ => { // a request through the middleware
                    let mut h = HashMap::new();
                    if op == 6 { h.insert("cookie".to_string(), format!("mcp-session-id={id}")); } else { h.insert("X-Session-ID".to_string(), id.clone()); }
                    let (s, seen) = block_on(mw.process(&h, |s| s.map(|s| s.id))).ok().unwrap();
                    check(s.as_ref().map(|s| &s.id) == seen.as_ref(), "the handler sees another session than the caller");
                    if let Some(x) = &seen { check(*x == id, "the middleware presents another session"); }
                    check(!(live && past && s.is_some()), "a request with an expired session is accepted");
                    check(s.is_some() || !live || past, "a request with a live session is not");
                    check(live || s.is_none(), "a request with an unknown or removed session is accepted");
                    if live && past { ms[i].live = mgr.session_count() == ms.iter().filter(|m| m.live).count(); if !ms[i].live { gone += 1; } cover("expired at the middleware"); }
                }
            }
        }
        check(mgr.session_count() == ms.iter().filter(|m| m.live).count(), "the number of sessions is wrong");
        let act = mgr.active_sessions();
        check(act.len() == mgr.session_count() && act.iter().all(|s| ms.iter().any(|m| m.live && m.id == s.id && m.auth == s.authenticated && m.data == s.data["v"].as_i64().unwrap_or(-1))), "an operation on one session changed another");
    }
    check(MADE.swap(0, SeqCst) == made && GONE.swap(0, SeqCst) == gone, "a session's creation or end is not announced exactly once");
}
fn chrono(s: u64, ns: u64) -> chrono::Duration { chrono::Duration::milliseconds((s * 1000 + ns / 1_000_000) as i64) }
struct World { mgr: SessionManager, id: String }
fn world(past: bool) -> World {
    clock_real(T0, 0);
    let mut mgr = SessionManager::new(SessionConfig { timeout: chrono(7, 0), max_sessions: 2, ..Default::default() });
    mgr.set_callbacks(SessionCallbacks { on_create: Some(Box::new(|_| { MADE.fetch_add(1, SeqCst); })), on_destroy: Some(Box::new(|_| { GONE.fetch_add(1, SeqCst); })), on_expire: Some(Box::new(|_| { GONE.fetch_add(1, SeqCst); })) });
    let id = mgr.create_session(None).unwrap().id;
    MADE.store(0, SeqCst);
    clock_real(T0 + if past { 8 } else { 1 }, 0);
    World { mgr, id }
}
fn act(w: &World, op: usize) -> Vec<i64> {
    let seen = |s: Session| { let mut v = vec![s.data["v"].as_i64().unwrap_or(-1), s.authenticated as i64, s.expires_at.timestamp() - T0 as i64]; v.push((s.id == w.id) as i64); v };
    match op {
        0 => vec![w.mgr.create_session(None).is_ok() as i64],
        1 => w.mgr.validate_session(&w.id).map(seen).unwrap_or_default(),
        2 => w.mgr.get_session(&w.id).map(seen).unwrap_or_default(),
        3 => vec![w.mgr.update_session(&w.id, |s| { let n = s.data["v"].as_i64().unwrap_or(0); s.data["v"] = (n * 2 + 1).into(); }).is_ok() as i64],
        4 => vec![w.mgr.authenticate_session(&w.id, "u".into()).is_ok() as i64],
        5 => vec![w.mgr.destroy_session(&w.id).is_ok() as i64],
        6 => { w.mgr.cleanup_expired(); vec![] }
        _ => vec![w.mgr.update_session(&w.id, |s| s.expires_at += chrono(60, 0)).is_ok() as i64], // renewal
    }
}
/// What is left: the session's content, and how many sessions there are, were made and ended.
fn rest(w: &World) -> Vec<i64> {
    let mut v = vec![w.mgr.session_count() as i64, MADE.swap(0, SeqCst) as i64, GONE.swap(0, SeqCst) as i64];
    for s in w.mgr.active_sessions() { if s.id == w.id { v.extend([s.data["v"].as_i64().unwrap_or(-1), s.authenticated as i64, s.expires_at.timestamp() - T0 as i64]); } }
    v
}
harness! {
    h_c09_threads {
        let past = pick("past", 2) == 1;
        threads(8, || world(past), act, rest);
    }
    h_c09_life { history(&[0, 1, 3, 5, 7], tier(4, 5), true); }
    h_c09_requests { history(&[0, 1, 6, 8, 7], tier(4, 5), true); }
    h_c09_content { history(&[0, 2, 3, 4, 5], tier(4, 5), false); }
    h_c09_header {
        // which id a request presents
        let pre = over("pre", pick("npre", 3), b";= a");
        let val = over("val", pick("nval", 3), b";= a");
        let text = format!("{pre}mcp-session-id={val}");
        let mut h = HashMap::new();
        let key = ["cookie", "Cookie"][pick("key", 2)];
        h.insert(key.to_string(), text.clone());
        let other = [None, Some("X-Session-ID"), Some("x-session-id")][pick("other", 3)];
        if let Some(o) = other { h.insert(o.to_string(), "fallback".to_string()); }
        let got = extract_session_id(&h);
        // the session cookie counts when it is a cookie of its own: nothing but spaces between it and a ';' or the start
        let mut own = true;
        for b in pre.bytes() { own = ite(b == b';', 1, ite(b == b' ', own as u64, 0)) == 1; }
        if fixb(own) {
            let end = val.bytes().position(|b| fixb(b == b';')).unwrap_or(val.len());
            let want = val[..end].trim_end().to_string();
            match &got { Some(g) => check(eqs(g, &want), "the presented id is not the session cookie's value"), None => check(false, "the session cookie is not found") }
            cover("cookie");
        } else { check(eqo(got.as_deref(), other.map(|_| "fallback")) , "something other than the session cookie is taken for the session id"); cover("no cookie"); }
    }
    h_c09_no_session {
        let mut h: HashMap<String, String> = HashMap::new();
        if fixb(any_bool("x")) { h.insert("X-Session-Id2".into(), "z".into()); }
        check(extract_session_id(&h).is_none(), "a request without a session presents one");
        let mgr = Arc::new(SessionManager::new(SessionConfig::default()));
        mgr.create_session(None).unwrap();
        let (s, t) = block_on(SessionMiddleware::new(mgr).process(&h, |s| s.is_some())).ok().unwrap();
        check(s.is_none() && !t, "a request without a session is given one");
    }
}
