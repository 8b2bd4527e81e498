//! C21: elicitation.
//! bound: histories of up to 5 steps (thorough 6) after the first request: further requests (the same id or another one, one-byte answers), responses, cancellations, cancellation of all, 31 s of a 60 s limit passing, a caller going away, and the waiting callers running in any order
//! bound: the queue to the client: free, full for a while, or closed
//! bound: two threads: every pair of answering, cancelling one or all, asking again under the pending id or under another, and counting, the second running at once before any atomic read-modify-write of the first (so between any two of its lock regions), or after it; no deadlock, and the outcome must be that of one of the two orders
//! bound: the limit of a request passes while another thread asks again under its id (at any of those points)
//! bound: two to four requests waiting under any distinct one-byte ids, one of which is answered or cancelled, or all of which are cancelled
//! outside: threads that interrupt each other in other ways; a caller that is never polled
use pmcp::server::elicitation::*;
use pmcp::types::elicitation::*;
use pmcp::types::protocol::*;
use pmcp::Error;
use serde_json::{json, Value};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::sync::mpsc;
use vph::*;

type Fut<'a> = Pin<Box<dyn Future<Output = Result<ElicitInputResponse, Error>> + 'a>>;
fn poll(f: &mut Fut<'_>) -> Poll<Result<ElicitInputResponse, Error>> { let w = noop_waker(); f.as_mut().poll(&mut Context::from_waker(&w)) }
fn answer(id: &str, v: Value) -> ElicitInputResponse { ElicitInputResponse { elicitation_id: id.into(), value: Some(v), cancelled: false, error: None } }
fn ask(id: &str, prompt: &str) -> ElicitInputRequest { elicit_text(prompt).id(id).build() }
#[derive(Clone, PartialEq)]
enum Out { Value(Value), Cancelled }
struct Slot<'a> { id: usize, f: Fut<'a>, out: Option<Out>, deadline: u64 }
const IDS: [&str; 2] = ["a", "ab"];
struct W { m: &'static ElicitationManager, rx: std::cell::RefCell<mpsc::Receiver<ServerRequest>>, fs: std::cell::RefCell<Vec<(&'static str, Option<String>, Fut<'static>)>> }
/// asks; how it ends is seen when everything is over
fn put(w: &W, id: &'static str) -> String {
    let mut f: Fut<'static> = Box::pin(w.m.elicit_input(ask(id, "p")));
    let r = poll(&mut f);
    let s = if r.is_pending() { None } else { Some(show(&r)) };
    let n = w.fs.borrow().len(); assert!(n < 8);
    w.fs.borrow_mut().push((id, s, f));
    String::new()
}
fn show(r: &Poll<Result<ElicitInputResponse, Error>>) -> String { match r { Poll::Pending => "waits".into(), Poll::Ready(Ok(x)) => format!("{:?} {}", x.value, x.cancelled), Poll::Ready(Err(_)) => "error".into() } }
fn act(w: &W, op: usize) -> String {
    match op {
        0 => once(w.m.handle_response(answer("a", json!(1)))).is_ok().to_string(),
        1 => once(w.m.cancel("a")).is_ok().to_string(),
        2 => { once(w.m.cancel_all()); String::new() }
        3 => put(w, "a"),
        4 => put(w, "b"),
        _ => once(w.m.pending_count()).to_string(),
    }
}
harness! {
    h_c21_threads {
        rt(async {
            threads(6, || {
                let (tx, rx) = mpsc::channel(100);
                let mut m = ElicitationManager::new();
                m.set_request_channel(tx); m.set_timeout(Duration::from_secs(60));
                let w = W { m: Box::leak(Box::new(m)), rx: std::cell::RefCell::new(rx), fs: std::cell::RefCell::new(Vec::with_capacity(8)) };
                put(&w, "a");
                w
            }, act, |w| {
                let mut v: Vec<String> = w.fs.borrow_mut().iter_mut().map(|(i, s, f)| format!("{i} {}", s.clone().unwrap_or_else(|| show(&poll(f))))).collect();
                v.sort();
                let mut sent = 0; while w.rx.borrow_mut().try_recv().is_ok() { sent += 1; }
                (v, sent, once(w.m.pending_count()))
            });
        });
    }
    h_c21_late_threads {
        rt(async {
            let (tx, mut rx) = mpsc::channel(100);
            let mut m = ElicitationManager::new();
            m.set_request_channel(tx); m.set_timeout(Duration::from_secs(60));
            let m = m;
            let mut f: Fut = Box::pin(m.elicit_input(ask("a", "p")));
            check(poll(&mut f).is_pending(), "a request finishes before it is answered");
            tokio::time::advance(Duration::from_secs(61)).await;
            let mut g: Option<Fut> = Some(Box::pin(m.elicit_input(ask("a", "q"))));
            let mut refused = false;
            let (_, between) = intrude("at", || { check(matches!(poll(&mut f), Poll::Ready(Err(_))), "a request whose time is up does not fail"); },
                || refused = poll(g.as_mut().unwrap()).is_ready());
            if !refused && poll(g.as_mut().unwrap()).is_ready() { check(false, "an id cannot be used again after its request timed out"); }
            if refused { check(between, "an id cannot be used again after its request timed out"); g = None; }
            check(m.pending_count().await == g.is_some() as usize, "a finished request stays pending, or a waiting one does not");
            let mut sent = 0; while rx.try_recv().is_ok() { sent += 1; }
            check(sent == 1 + g.is_some() as usize, "a request is not sent");
            check(m.handle_response(answer("a", json!(2))).await.is_ok() == g.is_some(), "a response to an unknown or finished request is taken, or one to a waiting request refused");
            if let Some(mut g) = g { check(matches!(poll(&mut g), Poll::Ready(Ok(r)) if r.value == Some(json!(2))), "a request finishes with another response than its own"); cover("asked again"); }
            check(m.pending_count().await == 0, "a finished request stays pending, or a waiting one does not");
        });
    }
    h_c21_many {
        rt(async {
            let (tx, _rx) = mpsc::channel(100);
            let mut m = ElicitationManager::new();
            m.set_request_channel(tx); m.set_timeout(Duration::from_secs(60));
            let m = m;
            let n = 2 + pick("n", 3);
            let ids: Vec<String> = (0..n).map(|_| ascii("id", 1)).collect();
            for i in 0..n { for j in 0..i { assume(!eqs(&ids[i], &ids[j])); } }
            let mut fs: Vec<Fut> = ids.iter().map(|i| Box::pin(m.elicit_input(ask(i, "p"))) as Fut).collect();
            for f in &mut fs { check(poll(f).is_pending(), "a request finishes before it is answered"); }
            let k = pick("which", n as u64);
            let what = pick("what", 3);
            match what { 0 => check(m.handle_response(answer(&ids[k], json!(7))).await.is_ok(), "a response to a waiting request is refused"), 1 => check(m.cancel(&ids[k]).await.is_ok(), "a waiting request cannot be cancelled"), _ => m.cancel_all().await }
            for (i, f) in fs.iter_mut().enumerate() {
                let r = poll(f);
                if what == 2 || i == k { match r { Poll::Ready(Ok(r)) => check(and(eqs(&r.elicitation_id, &ids[i]), r.cancelled == (what > 0) && r.value.is_some() == (what == 0)), "a request finishes with another outcome than its own"), _ => check(false, "a request that was answered, cancelled or is out of time does not finish") } }
                else { check(r.is_pending(), "a request finishes before it is answered"); }
            }
            check(m.pending_count().await == if what == 2 { 0 } else { n - 1 }, "a finished request stays pending, or a waiting one does not");
            cover("many");
        });
    }
    h_c21_history {
        rt(async {
            let (tx, mut rx) = mpsc::channel(100);
            let mut m = ElicitationManager::new();
            check(m.elicit_input(ask("a", "p")).await.is_err() && m.pending_count().await == 0, "a request that cannot be sent does not fail");
            m.set_request_channel(tx); m.set_timeout(Duration::from_secs(60));
            let m = m;
            let mut slots: Vec<Slot> = vec![];
            // which request waits under an id
            let mut t = 0u64;
            let mut first = true;
            for _ in 0..1 + tier(5, 6) {
                let op = if first { 0 } else { pick("op", 7) };
                first = false;
                match op {
                    0 => {
                        let id = pick("id", 2);
                        let prompt = ascii("prompt", 1);
                        let busy = slots.iter().any(|s| s.id == id && s.out.is_none());
                        let mut f: Fut = Box::pin(m.elicit_input(ask(IDS[id], &prompt)));
                        let r = poll(&mut f);
                        if busy { check(matches!(r, Poll::Ready(Err(_))), "two requests wait under one id"); check(rx.try_recv().is_err(), "a refused request is sent"); cover("busy"); }
                        else {
                            check(r.is_pending(), "a request finishes before it is answered");
                            match rx.try_recv() { Ok(ServerRequest::ElicitInput(q)) => check(q.elicitation_id == IDS[id] && eqs(&q.prompt, &prompt), "a request is sent with other content"), _ => check(false, "a request is not sent") }
                            check(rx.try_recv().is_err(), "a request is sent twice");
                            slots.push(Slot { id, f, out: None, deadline: t + 60 });
                        }
                    }
                    1 => {
                        let id = pick("id", 2); let v = json!(ascii("v", 1));
                        let ok = m.handle_response(answer(IDS[id], v.clone())).await.is_ok();
                        let w = slots.iter_mut().find(|s| s.id == id && s.out.is_none());
                        check(ok == w.is_some(), "a response to an unknown or finished request is taken, or one to a waiting request refused");
                        if let Some(w) = w { w.out = Some(Out::Value(v)); cover("answered"); } else { cover("unknown"); }
                    }
                    2 => {
                        let id = pick("id", 2);
                        let ok = m.cancel(IDS[id]).await.is_ok();
                        let w = slots.iter_mut().find(|s| s.id == id && s.out.is_none());
                        check(ok || w.is_none(), "a waiting request cannot be cancelled");
                        if let Some(w) = w { w.out = Some(Out::Cancelled); cover("cancelled"); }
                    }
                    3 => { m.cancel_all().await; for s in &mut slots { if s.out.is_none() { s.out = Some(Out::Cancelled); } } }
                    4 => { t += 31; tokio::time::advance(Duration::from_secs(31)).await; }
                    5 if !slots.is_empty() => { slots.remove(pick("which", slots.len() as u64)); }
                    _ if !slots.is_empty() => {
                        let k = pick("which", slots.len() as u64);
                        let late = t >= slots[k].deadline;
                        match poll(&mut slots[k].f) {
                            Poll::Pending => check(slots[k].out.is_none() && !late, "a request that was answered, cancelled or is out of time does not finish"),
                            Poll::Ready(r) => {
                                let s = slots.remove(k);
                                match (s.out, r) {
                                    (Some(Out::Value(v)), Ok(r)) => check(r.elicitation_id == IDS[s.id] && !r.cancelled && r.value.as_ref().is_some_and(|x| veq(x, &v)), "a request finishes with another response than its own"),
                                    (Some(Out::Cancelled), Ok(r)) => check(r.cancelled && r.value.is_none() && r.elicitation_id == IDS[s.id], "a cancelled request finishes with a value"),
                                    (Some(Out::Cancelled), Err(_)) => {}
                                    (None, Err(_)) => { check(late, "a request fails before its time is up"); cover("timeout"); }
                                    _ => check(false, "a request finishes with another outcome than its own"),
                                }
                            }
                        }
                    }
                    _ => break,
                }
                check(m.pending_count().await == slots.iter().filter(|s| s.out.is_none()).count(), "a finished request stays pending, or a waiting one does not");
            }
        });
    }
    h_c21_queue {
        // a full or closed queue to the client
        rt(async {
            let (tx, rx) = mpsc::channel(1);
            let mut m = ElicitationManager::new();
            m.set_request_channel(tx); m.set_timeout(Duration::from_secs(60));
            let m = m;
            let mut a: Fut = Box::pin(m.elicit_input(ask("a", "p")));
            let mut b: Fut = Box::pin(m.elicit_input(ask("b", "q")));
            let mut rx = Some(rx);
            check(poll(&mut a).is_pending() && poll(&mut b).is_pending(), "a request finishes before it is answered");
            match pick("then", 4) {
                0 => { rx = None; }
                1 => { check(matches!(rx.as_mut().unwrap().try_recv(), Ok(ServerRequest::ElicitInput(q)) if q.elicitation_id == "a"), "a request is sent with other content"); check(poll(&mut b).is_pending(), "a request finishes before it is answered"); check(matches!(rx.as_mut().unwrap().try_recv(), Ok(ServerRequest::ElicitInput(q)) if q.elicitation_id == "b"), "a request is sent with other content"); }
                2 => { drop(b); b = Box::pin(m.elicit_input(ask("b", "r"))); check(matches!(rx.as_mut().unwrap().try_recv(), Ok(ServerRequest::ElicitInput(q)) if q.elicitation_id == "a"), "a request is sent with other content"); check(poll(&mut b).is_pending(), "an id cannot be used again after its caller went away"); }
                _ => {}
            }
            if rx.is_none() {
                check(matches!(poll(&mut b), Poll::Ready(Err(_))), "a request that cannot be sent does not fail");
                check(m.pending_count().await == 1, "a request that could not be sent stays pending");
                check(poll(&mut a).is_pending(), "a request finishes before it is answered");
                cover("closed");
            } else { check(m.pending_count().await == 2, "a waiting request is not pending"); cover("full"); }
            let v = json!(ascii("v", 1));
            check(m.handle_response(answer("a", v.clone())).await.is_ok(), "a response to a waiting request is refused");
            check(matches!(poll(&mut a), Poll::Ready(Ok(r)) if r.value.as_ref().is_some_and(|x| veq(x, &v))), "a request finishes with another response than its own");
            if rx.is_some() { m.cancel_all().await; let _ = rx.as_mut().unwrap().try_recv(); check(matches!(poll(&mut b), Poll::Ready(Ok(r)) if r.cancelled) , "a cancelled request does not finish"); }
            check(m.pending_count().await == 0, "a finished request stays pending");
        });
    }
}
