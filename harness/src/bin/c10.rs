//! C10: event store and resumption.
//! bound: histories of 5 (thorough 6) steps of storing (two sessions), querying (every stored id, dropped or not, and an unknown one; limits none, 0, 1, 2), latest and clearing; clock before each step any second of a 256 s window at or after the last; capacities 0, 1, 2 and 9, maximum ages 0 s, 5 s and 1 h
//! bound: resumption: two sessions' managers on one store, histories of 5 (thorough 6) recordings, tokens and resumptions with the clock advancing by 0 or 1 days and any number of seconds in a 4 s window
//! assume: events are stored in the order of their timestamps; event ids are distinct (the random generator is a fixed stream here)
//! bound: two threads: every pair of operations (recording in either of two sessions, a token, a resumption, clearing, replay, the latest event), the second running at once before any atomic read-modify-write of the first (so between any two of its lock regions), or after it; the outcome must be that of one of the two orders
//! outside: two threads that interrupt each other, or at other points
use chrono::{TimeZone, Utc};
use pmcp::shared::event_store::*;
use pmcp::shared::TransportMessage;
use pmcp::types::*;
use std::sync::Arc;
use vph::*;

const T0: u64 = 1_700_000_000;
fn msg(i: i64) -> TransportMessage { TransportMessage::Request { id: RequestId::Number(i), request: Request::Client(Box::new(ClientRequest::Ping)) } }
fn num(m: &TransportMessage) -> i64 { match m { TransportMessage::Request { id: RequestId::Number(i), .. } => *i, _ => -1 } }
fn tick(last: &mut u64, unit: u64) { let s = any_in("t", 0, 255); assume(s >= *last); *last = s; clock_real(T0 + s * unit, 0); }
struct W { st: Arc<InMemoryEventStore>, ms: [ResumptionManager; 2], first: String, tok: String }
fn list(ev: Vec<StoredEvent>) -> Vec<i64> { ev.iter().flat_map(|e| [num(&e.message), e.sequence as i64, (e.session_id == "s1") as i64, (e.direction == MessageDirection::Inbound) as i64]).collect() }
fn act(w: &W, op: usize) -> Vec<i64> {
    match op {
        0 => { once(w.ms[0].record_outbound(msg(10))).ok().unwrap(); vec![] }
        1 => { once(w.ms[0].record_inbound(msg(11))).ok().unwrap(); vec![] }
        2 => { once(w.ms[1].record_outbound(msg(12))).ok().unwrap(); vec![] }
        3 => { let t = once(w.ms[0].create_token()).ok().unwrap(); let s = once(w.st.validate_resumption_token(&t.token)).ok().unwrap().unwrap(); let back = once(w.st.get_events_since("", None)).ok().unwrap().iter().position(|e| e.id == t.last_event_id); vec![(t.session_id == "s1") as i64, s.next_sequence as i64, back.map_or(-1, |x| x as i64), (s.session_id == t.session_id && s.last_event_id == t.last_event_id) as i64] }
        4 => list(once(w.ms[0].resume_from_token(&w.tok)).ok().unwrap()),
        5 => vec![once(w.st.clear_events_before(Utc.timestamp_opt(T0 as i64 + 1, 0).unwrap())).ok().unwrap() as i64],
        _ => list(once(w.st.get_events_since(&w.first, Some(2))).ok().unwrap()),
    }
}
struct E { id: String, t: u64, session: usize }
harness! {
    h_c10_threads {
        let cap = [3usize, 9][pick("cap", 2)];
        threads(7, || {
            clock_real(T0, 0);
            let st = Arc::new(InMemoryEventStore::new(cap, chrono::Duration::days(30)));
            let ms = [ResumptionManager::new(st.clone(), "s0".into()), ResumptionManager::new(st.clone(), "s1".into())];
            once(ms[0].record_outbound(msg(0))).ok().unwrap();
            let first = once(st.get_latest_event_id()).ok().unwrap().unwrap();
            let tok = once(ms[0].create_token()).ok().unwrap().token;
            clock_real(T0 + 1, 0);
            once(ms[0].record_outbound(msg(1))).ok().unwrap();
            W { st, ms, first, tok }
        }, act, |w| {
            // what is left, and the number the next message gets
            once(w.ms[0].record_outbound(msg(20))).ok().unwrap();
            list(once(w.st.get_events_since("", None)).ok().unwrap())
        });
    }
    h_c10_store {
        let cap = [0usize, 1, 2, 9][pick("cap", 4)];
        let age = [0u64, 5, 3600][pick("age", 3)];
        let st = InMemoryEventStore::new(cap, chrono::Duration::seconds(age as i64));
        let mut all: Vec<E> = vec![];      // everything ever stored
        let mut kept: usize = 0;           // all[kept..] is retained
        let mut now = 0;
        for k in 0..tier(4, 6) {
            tick(&mut now, 1);
            let op = if k == 0 { 0 } else { pick("op", 4) };
            match op {
                0 => {
                    let session = pick("sess", 2);
                    let id = format!("e{k}");
                    let e = StoredEvent { id: id.clone(), timestamp: Utc::now(), message: msg(k as i64), direction: MessageDirection::Outbound, session_id: format!("s{session}"), sequence: k as u64 };
                    check(block_on(st.store_event(e)).is_ok(), "storing an event fails");
                    all.push(E { id, t: now, session });
                    kept = kept.max(all.len().saturating_sub(cap));
                    while kept < all.len() && fixb(all[kept].t + age < now) { kept += 1; cover("too old"); }
                    if all.len() > cap { cover("over capacity"); }
                }
                1 => {
                    let i = pick("since", all.len() as u64 + 1);
                    let id = if i < all.len() { all[i].id.clone() } else { "nosuch".to_string() };
                    let lim = [None, Some(0usize), Some(1), Some(2)][pick("lim", 4)];
                    let from = if i < all.len() && i >= kept { i + 1 } else { kept };
                    let want: Vec<usize> = (from..all.len()).take(lim.unwrap_or(99)).collect();
                    let got = block_on(st.get_events_since(&id, lim)).ok().unwrap();
                    check(got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.id == all[*w].id && num(&g.message) as u64 == g.sequence && g.session_id == format!("s{}", all[*w].session)), "the events after a given one are not the later retained ones, once each and in order");
                    if !want.is_empty() { cover("later events"); }
                    if i < kept { cover("asked from a dropped event"); }
                }
                2 => {
                    let l = block_on(st.get_latest_event_id()).ok().unwrap();
                    check(l.as_deref() == all[kept..].last().map(|e| e.id.as_str()), "the latest event is wrong");
                }
                _ => {
                    let cut = any_in("cut", 0, 255);
                    let n = block_on(st.clear_events_before(Utc.timestamp_opt((T0 + cut) as i64, 0).unwrap())).ok().unwrap();
                    let mut want = 0;
                    while kept < all.len() && fixb(all[kept].t < cut) { kept += 1; want += 1; }
                    check(n == want, "clearing removes other events than those before the given time");
                    cover("cleared");
                }
            }
        }
        let got = block_on(st.get_events_since("", None)).ok().unwrap();
        check(got.len() <= cap, "the store holds more than its capacity");
        check(got.len() == all.len() - kept && got.iter().zip(&all[kept..]).all(|(g, w)| g.id == w.id), "the store does not hold exactly the retained events in order");
    }
    h_c10_resume {
        let st = Arc::new(InMemoryEventStore::new(99, chrono::Duration::days(30)));
        let ms = [ResumptionManager::new(st.clone(), "s0".into()), ResumptionManager::new(st.clone(), "s1".into())];
        let mut log: Vec<(usize, bool)> = vec![]; // session, outbound
        let mut toks: Vec<(ResumptionToken, usize, u64)> = vec![]; // token, position, issued at
        let mut now = 0;
        clock_real(T0, 0);
        check(block_on(ms[0].record_outbound(msg(0))).is_ok(), "recording fails"); log.push((0, true));
        let mut day = 0u64;
        let mut tick = |last: &mut u64| { day += pick("day", 2) as u64; let s = day * 86_400 + any_in("t", 0, 3); assume(s >= *last); *last = s; clock_real(T0 + s, 0); };
        for k in 0..tier(4, 5) {
            tick(&mut now);
            match if k == 0 { 0 } else { pick("op", 4) } {
                0 => {
                    let (s, out) = (pick("sess", 2), fixb(any_bool("out")));
                    let m = msg(log.len() as i64);
                    check(if out { block_on(ms[s].record_outbound(m)) } else { block_on(ms[s].record_inbound(m)) }.is_ok(), "recording fails");
                    log.push((s, out));
                }
                1 => {
                    let s = log.last().unwrap().0; // the session that is being served
                    let t = block_on(ms[s].create_token()).ok().unwrap();
                    check(t.session_id == format!("s{s}"), "a token names another session");
                    check(toks.iter().all(|x| x.0.token != t.token), "two tokens are the same");
                    toks.push((t, log.len(), now));
                    cover("token");
                }
                2 => {
                    let i = pick("tok", toks.len() as u64 + 1);
                    if i == toks.len() { check(block_on(ms[0].resume_from_token("nosuch")).is_err(), "an unknown token resumes something"); continue; }
                    let (t, pos, at) = (&toks[i].0, toks[i].1, toks[i].2);
                    let s = if t.session_id == "s0" { 0 } else { 1 };
                    let r = block_on(ms[s].resume_from_token(&t.token));
                    let late = now > at + 86_400;
                    match r {
                        Ok(ev) => {
                            check(!late, "an expired token resumes its session");
                            check(ev.iter().all(|e| e.session_id == t.session_id), "a resumed session is given another session's events");
                            let want: Vec<i64> = (pos..log.len()).filter(|&x| log[x].0 == s).map(|x| x as i64).collect();
                            check(ev.iter().map(|e| num(&e.message)).collect::<Vec<_>>() == want, "a resumed session is not given exactly its later events in order");
                            cover("resumed");
                        }
                        Err(_) => { check(late, "a valid token does not resume its session"); cover("expired token"); }
                    }
                }
                _ => {
                    // what may need resending after the first recorded event
                    let s = pick("who", 2);
                    let first = block_on(st.get_events_since("", Some(1))).ok().unwrap()[0].id.clone();
                    let got = block_on(ms[s].get_pending_events(&first)).ok().unwrap();
                    let want: Vec<i64> = (1..log.len()).filter(|&x| log[x] == (s, true)).map(|x| x as i64).collect();
                    check(got.iter().map(|e| num(&e.message)).collect::<Vec<_>>() == want, "the events to resend are not the session's own outbound ones");
                    cover("pending");
                }
            }
        }
    }
    h_c10_empty {
        let st = InMemoryEventStore::new(3, chrono::Duration::hours(1));
        check(block_on(st.create_resumption_token()).is_err(), "an empty store issues a token");
        check(block_on(st.get_latest_event_id()).ok().unwrap().is_none(), "an empty store has a latest event");
        check(block_on(st.validate_resumption_token(&ascii("t", 2))).ok().unwrap().is_none(), "an unknown token is valid");
    }
}
