//! C18: request cancellation.
//! bound: histories of up to 5 steps (thorough 6) over two request ids of arbitrary content: create, cancel with or without reason, finish, clear, trip the token directly; two tasks cancelling, finishing and waiting under every schedule of 8 steps (thorough 10)
//! bound: two threads: every pair of creating, cancelling, finishing, looking up, asking a held token and clearing, on a manager with two requests, the second running at once before any atomic read-modify-write of the first (so between any two of its lock regions), or after it; no deadlock, and the outcome must be that of one of the two orders
//! outside: threads that interrupt each other in other ways; how a transport carries a cancellation to the server (C17)
use pmcp::server::cancellation::*;
use pmcp::types::protocol::*;
use pmcp::types::RequestId;
use std::cell::Cell;
use std::sync::{Arc, Mutex};
use vph::*;

type Log = Arc<Mutex<Vec<(String, Option<String>)>>>;
fn manager() -> (CancellationManager, Log) {
    let log: Log = Default::default();
    let mut m = CancellationManager::new();
    let l = log.clone();
    m.set_notification_sender(Arc::new(move |n| match n {
        Notification::Client(ClientNotification::Cancelled(c)) => l.lock().unwrap().push((match c.request_id { RequestId::String(s) => s, RequestId::Number(_) => "number".into() }, c.reason)),
        _ => check(false, "cancelling sends something else than a cancellation"),
    }));
    (m, log)
}
struct W { m: CancellationManager, log: Log, held: std::cell::RefCell<Vec<RequestHandlerExtra>> }
fn act(w: &W, op: usize) -> u8 {
    match op {
        0 => { let t = once(w.m.create_token("a".into())); let h = RequestHandlerExtra::new("a".into(), t); w.held.borrow_mut().push(h); 0 }
        1 => { once(w.m.cancel_request("a".into(), None)).unwrap(); 0 }
        2 => { once(w.m.remove_token("a")); 0 }
        3 => once(w.m.get_token("a")).is_some() as u8,
        4 => { let t = w.held.borrow().as_ptr(); unsafe { (*t).is_cancelled() as u8 } } // not borrowed meanwhile: the other thread may add one
        5 => { once(w.m.clear()); 0 }
        6 => once(w.m.is_cancelled("a")) as u8,
        _ => { once(w.m.cancel_request("b".into(), None)).unwrap(); 0 }
    }
}
harness! {
    h_c18_threads {
        threads(8, || {
            let (m, log) = manager();
            let mut held = Vec::with_capacity(8); for i in ["a", "b"] { held.push(RequestHandlerExtra::new(i.to_string(), once(m.create_token(i.to_string())))); } log.lock().unwrap().reserve(8);
            W { m, log, held: std::cell::RefCell::new(held) }
        }, act, |w| {
            let mut trip: Vec<bool> = w.held.borrow().iter().map(|t| t.is_cancelled()).collect();
            trip[1..].sort();
            let mut log: Vec<String> = w.log.lock().unwrap().iter().map(|x| x.0.clone()).collect();
            log.sort();
            (trip, log, once(w.m.get_token("a")).map(|t| t.is_cancelled()), once(w.m.get_token("b")).is_some())
        });
    }
    h_c18_history {
        let (m, log) = manager();
        let ids = [ascii("id", 2), ascii("id", 2)];
        let same = fixb(eqs(&ids[0], &ids[1]));
        let slot = |i: usize| if same { 0 } else { i };
        let mut held: Vec<(RequestHandlerExtra, bool)> = vec![]; // what handlers hold, tripped
        let mut live: [Option<usize>; 2] = [None, None];
        block_on(async {
            for step in 0..tier(5, 6) {
                let i = if step == 0 { 0 } else { pick("which", 2) }; let (id, s) = (&ids[i], slot(i));
                match pick("op", 5) {
                    0 => { let t = m.create_token(id.clone()).await; live[s] = Some(held.len()); held.push((RequestHandlerExtra::new(id.clone(), t), false)); }
                    1 => {
                        let reason = if fixb(any_bool("reason")) { Some(ascii("r", 1)) } else { None };
                        let n = log.lock().unwrap().len();
                        check(m.cancel_request(id.clone(), reason.clone()).await.is_ok(), "cancelling fails");
                        let l = log.lock().unwrap();
                        match live[s].take() {
                            None => check(l.len() == n, "cancelling an unknown request is announced"),
                            Some(k) => {
                                held[k].1 = true;
                                check(l.len() == n + 1, "a cancellation is not announced once");
                                check(eqs(&l[n].0, id), "a cancellation names another request");
                                check(match &reason { Some(r) => eqo(l[n].1.as_deref(), Some(r)), None => l[n].1.as_ref().is_some_and(|x| !x.is_empty()) }, "a cancellation carries another reason");
                                cover("cancelled");
                            }
                        }
                    }
                    2 => { m.remove_token(id).await; live[s] = None; }
                    3 => { if let Some(t) = m.get_token(id).await { t.cancel(); held[live[s].unwrap()].1 = true; cover("tripped elsewhere"); } }
                    _ => { m.clear().await; for l in &mut live { if let Some(k) = l.take() { held[k].1 = true; } } }
                }
                for (h, t) in &held { check(h.is_cancelled() == *t, "a token is tripped although its request was not cancelled, or not tripped although it was"); }
                for j in 0..2 {
                    let (g, c) = (m.get_token(&ids[j]).await, m.is_cancelled(&ids[j]).await);
                    let tripped = live[slot(j)].is_some_and(|k| held[k].1);
                    check(g.is_some() == live[slot(j)].is_some() && c == tripped, "a finished request's token is kept, or a live one is reported as cancelled");
                    if let Some(t) = g { check(t.is_cancelled() == tripped, "a live request's token is tripped"); }
                }
            }
        });
    }
    h_c18_wait {
        let (m, log) = manager();
        let (ta, tb) = (block_on(m.create_token("a".into())), block_on(m.create_token("b".into())));
        let (ea, eb) = (RequestHandlerExtra::new("a".into(), ta), RequestHandlerExtra::new("b".into(), tb));
        let (wa, wb) = (Cell::new(false), Cell::new(false));
        let done = Cell::new(false);
        let what = pick("what", 3); // cancel a, finish a then cancel it, cancel it twice
        let mut s = Sched::new();
        s.spawn(async { ea.cancelled().await; wa.set(true); check(ea.is_cancelled(), "a waiter wakes without cancellation"); });
        s.spawn(async {
            if what == 1 { m.remove_token("a").await; }
            m.cancel_request("a".into(), None).await.unwrap();
            if what == 2 { m.cancel_request("a".into(), None).await.unwrap(); }
            done.set(true);
        });
        let w = s.spawn(async { eb.cancelled().await; wb.set(true); });
        for _ in 0..tier(8, 10) { let l = s.live(); let k = pick("next", l.len() as u64); s.poll(l[k]); }
        for _ in 0..3 { for i in s.live() { s.poll(i); } }
        check(done.get(), "cancelling does not finish");
        check(wa.get() == (what != 1), "a waiter does not wake exactly when its request is cancelled");
        check(!wb.get() && !eb.is_cancelled(), "cancelling a request trips another one's token");
        check(log.lock().unwrap().len() == (what != 1) as usize, "a cancellation is not announced once");
        // a late waiter returns at once
        if what != 1 { block_on(ea.cancelled()); cover("woken"); }
        s.drop_task(w);
    }
}
