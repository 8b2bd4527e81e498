//! C29: retries and circuit breaking.
//! bound: breakers with every failure threshold 0..=2 and success threshold 0..=2 and every timeout in seconds below 256; every history of up to 5 (thorough 6) calls, each admitted call succeeding or failing, with any number of seconds below 256 passing before each
//! bound: two calls at the same time right after the timeout, every interleaving at lock granularity (up to 8 decisions)
//! bound: retries with 0..=3 attempts, fixed waits of any of 4 lengths, exponential waits of 3 first lengths, 3 caps and 8 multipliers (0, negative, NaN and infinite ones included), every sequence of outcomes and error codes over 3 codes; operations of an executor under a breaker with 1 (thorough 2) failures allowed, histories of up to 4 calls over 2 operations
//! bound: two threads: every pair of asking to pass, reporting success and reporting failure, at a breaker that is closed, open, past its timeout or half-open, the second running at once before any atomic read-modify-write of the first (so between any two of its lock regions), or after it; no deadlock, and the outcome must be that of one of the two orders
//! outside: success reported to a breaker that is open by a call admitted before it opened; threads that interrupt each other in other ways
use async_trait::async_trait;
use pmcp::error::recovery::*;
use pmcp::error::{Error, ErrorCode};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::sync::Arc;
use std::time::Duration;
use vph::*;

/// what a breaker has to do, written down independently
#[derive(Clone, Copy, PartialEq)]
enum St { Closed(u32), Open(u64), Half(u32) }
struct Model { st: St, fail: u32, succ: u32, timeout: u64 }
impl Model {
    fn allow(&mut self, now: u64) -> bool { match self.st { St::Open(t) => { let a = fixb(now - t >= self.timeout); if a { self.st = St::Half(0); } a }, _ => true } }
    fn done(&mut self, ok: bool, now: u64) {
        self.st = match (self.st, ok) {
            (St::Closed(_), true) => St::Closed(0),
            (St::Closed(n), false) => if n + 1 >= self.fail { St::Open(now) } else { St::Closed(n + 1) },
            (St::Half(n), true) => if n + 1 >= self.succ { St::Closed(0) } else { St::Half(n + 1) },
            (St::Half(_), false) => St::Open(now),
            (o, _) => o,
        }
    }
}
fn err(code: usize, n: u32) -> Error { match code { 0 => Error::protocol(ErrorCode::INTERNAL_ERROR, format!("e{n}")), 1 => Error::protocol(ErrorCode::INVALID_REQUEST, format!("e{n}")), 2 => Error::protocol(ErrorCode::REQUEST_TIMEOUT, format!("e{n}")), _ => Error::validation(format!("e{n}")) } }
fn ms(x: u64) -> Duration { Duration::from_millis(x) }
struct Fall<'a>(&'a str);
#[async_trait]
impl RecoveryHandler for Fall<'static> { async fn recover(&self, m: &str) -> pmcp::Result<Value> { Ok(json!([self.0, m])) } }

fn act(b: &CircuitBreaker, op: usize) -> bool { match op { 0 => once(b.allow_request()), 1 => { once(b.record_success()); false } _ => { once(b.record_failure()); false } } }
harness! {
    h_c29_threads {
        let state = pick("state", 4);
        threads(3, || {
            clock_mono(1000, 0);
            let b = CircuitBreaker::new(CircuitBreakerConfig { failure_threshold: 2, success_threshold: 2, timeout: Duration::from_secs(9) });
            if state > 0 { for _ in 0..2 { once(b.record_failure()); } }
            if state > 1 { clock_mono(1009, 0); }
            if state == 3 { once(b.allow_request()); once(b.record_success()); }
            b
        }, act, |b| {
            // one more failure, one more success, and the timeout show what is left
            let mut v = vec![once(b.allow_request())];
            once(b.record_success()); v.push(once(b.allow_request()));
            once(b.record_failure()); v.push(once(b.allow_request()));
            once(b.record_failure()); v.push(once(b.allow_request()));
            clock_mono(1018, 0); v.push(once(b.allow_request()));
            v
        });
    }
    h_c29_breaker {
        block_on(async {
            let (fail, succ) = (pick("failures", 3) as u32, pick("successes", 3) as u32);
            let timeout = any_u8("timeout") as u64;
            let cb = CircuitBreaker::new(CircuitBreakerConfig { failure_threshold: fail, success_threshold: succ, timeout: Duration::from_secs(timeout) });
            let mut m = Model { st: St::Closed(0), fail, succ, timeout };
            let mut now = 1000;
            clock_mono(now, 0);
            for k in 0..tier(5, 6) {
                if let St::Open(_) = m.st { now += any_u8("passed") as u64; clock_mono(now, 0); }
                let want = m.allow(now);
                check(cb.allow_request().await == want, if want { "a breaker refuses a call it has to let through" } else { "an open breaker lets a call through before its timeout" });
                if !want { cover("refused"); continue; }
                if m.st == St::Half(0) { cover("tried again"); }
                let ok = fixb(any_bool("ok"));
                if ok { cb.record_success().await } else { cb.record_failure().await }
                m.done(ok, now);
                if k > 2 && m.st == St::Closed(0) { cover("closed"); }
            }
        });
    }
    h_c29_race {
        rt(async {
            let cb = CircuitBreaker::new(CircuitBreakerConfig { failure_threshold: 1, success_threshold: 1, timeout: Duration::from_secs(10) });
            clock_mono(1000, 0);
            check(cb.allow_request().await, "a new breaker refuses a call");
            cb.record_failure().await;
            check(!cb.allow_request().await, "an open breaker lets a call through before its timeout");
            clock_mono(1010, 0);
            let ok = fixb(any_bool("ok"));
            let admitted = Cell::new(0);
            let ended = RefCell::new(vec![]);
            let mut s = Sched::new();
            // one call comes to its end (it fails, or succeeds), another only asks whether it may go ahead
            { let (cb, ended, admitted) = (&cb, &ended, &admitted); s.spawn(async move { if cb.allow_request().await { admitted.set(admitted.get() + 1); if ok { cb.record_success().await } else { cb.record_failure().await } ended.borrow_mut().push(ok); } }); }
            { let (cb, admitted) = (&cb, &admitted); s.spawn(async move { if cb.allow_request().await { admitted.set(admitted.get() + 1); } }); }
            if s.run_tight("race", tier(8, 10)).await {
                check(admitted.get() >= 1, "no call is let through after the timeout");
                if ok { clock_mono(1010, 1); cb.record_failure().await; check(!cb.allow_request().await, "a breaker closed again does not open at the configured number of failures"); cover("closed in race"); }
                else { check(!cb.allow_request().await, "a breaker that failed again is not open"); cover("reopened in race"); }
            }
        });
    }
    h_c29_failures_race {
        // two calls of a closed breaker fail at the same time: it opens, for all its timeout
        rt(async {
            let threshold = pick("failures", 2) as u32 + 1;
            let cb = CircuitBreaker::new(CircuitBreakerConfig { failure_threshold: threshold, success_threshold: 1, timeout: Duration::from_secs(10) });
            clock_mono(1000, 0);
            let mut s = Sched::new();
            for _ in 0..2 { let cb = &cb; s.spawn(async move { cb.record_failure().await; }); }
            if s.run_tight("race", tier(8, 10)).await { clock_mono(1009, 0); check(!cb.allow_request().await, "failures at the same time do not open the breaker"); clock_mono(1010, 0); check(cb.allow_request().await, "a breaker never lets calls through again"); cover("both failed"); }
        });
    }
    h_c29_with_retry {
        rt(async {
            let attempts = pick("attempts", 4) as u32;
            let delay = [0, 1, 40, 5000][pick("delay", 4)];
            let runs = RefCell::new(vec![]);
            let t0 = tokio::time::Instant::now();
            let res = with_retry(attempts, ms(delay), || { let n = runs.borrow().len() as u32; let ok = fixb(any_bool("ok")); runs.borrow_mut().push((ok, t0.elapsed())); async move { if ok { Ok(json!(n)) } else { Err(err(0, n)) } } }).await;
            let runs = runs.into_inner();
            let n = runs.len() as u32;
            check(n <= attempts, "an operation runs more often than configured");
            for (i, (ok, at)) in runs.iter().enumerate() {
                check(!ok || i + 1 == runs.len(), "an operation runs again after it succeeded");
                let due = ms(delay * i as u64);
                check(*at >= due && *at <= due + ms(2 * i as u64), "a retry does not wait as configured");
            }
            match res {
                Ok(v) => { check(runs.last().is_some_and(|r| r.0) && v == json!(n - 1), "a success is reported that no run had"); cover("succeeded"); },
                Err(e) => { check(n == attempts && runs.iter().all(|r| !r.0), "retrying ends before the configured number of runs"); if n > 0 { check(e.to_string().contains(&format!("e{}", n - 1)), "the error reported is not the last one"); cover("failed"); } },
            }
        });
    }
    h_c29_executor {
        rt(async {
            let attempts = pick("attempts", tier(3, 4) as u64) as u32;
            let kind = pick("strategy", 4);
            let (delay, cap, mult) = match kind { 0 => ([0, 30, 5000][pick("delay", 3)], 0, 1.0), 1 => ([0, 30, 500][pick("first", 3)], [0, 100, 1000][pick("cap", 3)], [2.0, 1.0, 0.5, 0.0, -1.0, f64::NAN, f64::INFINITY, 1e300][pick("multiplier", 8)]), _ => (0, 0, 0.0) };
            let strategy = match kind { 0 => RecoveryStrategy::RetryFixed { attempts, delay: ms(delay) }, 1 => RecoveryStrategy::RetryExponential { attempts, initial_delay: ms(delay), max_delay: ms(cap), multiplier: mult }, 2 => RecoveryStrategy::Fallback, _ => RecoveryStrategy::FailFast };
            // the strategy covers one code, or is what the policy does with every other error
            let covered = pick("covers", 2);
            let policy = if covered == 0 { let mut p = RecoveryPolicy::new(RecoveryStrategy::FailFast); p.add_strategy(ErrorCode::INTERNAL_ERROR, strategy); p } else { let mut p = RecoveryPolicy::new(strategy); p.add_strategy(ErrorCode::INVALID_REQUEST, RecoveryStrategy::FailFast); p };
            let mut ex = RecoveryExecutor::new(policy);
            ex.register_handler("other".into(), Arc::new(Fall("other")));
            let handler = kind == 2 && fixb(any_bool("handler"));
            if handler { ex.register_handler("op".into(), Arc::new(Fall("op"))); }
            let first = Cell::new(9usize);
            let runs = RefCell::new(vec![]);
            let t0 = tokio::time::Instant::now();
            let res = ex.execute_with_recovery("op", || {
                let n = runs.borrow().len() as u32;
                let out = if n == 0 { let o = pick("first run", 5); first.set(o); o } else if fixb(any_bool("ok")) { 4 } else { 0 };
                runs.borrow_mut().push((out == 4, t0.elapsed()));
                async move { if out == 4 { Ok(json!(n)) } else { Err(err(out, n)) } }
            }).await;
            let runs = runs.into_inner();
            let n = runs.len();
            // an error without a code counts as internal
            let applies = match first.get() { 4 => false, 1 => covered == 0 && false, 0 | 3 => true, _ => covered == 1 };
            let more = if applies && kind < 2 { attempts as usize } else { 0 };
            check(n >= 1 && n <= 1 + more, "an operation runs more often than its policy allows");
            let mut due = Duration::ZERO; let mut wait = delay as f64;
            for (i, (ok, at)) in runs.iter().enumerate() {
                check(!ok || i + 1 == n, "an operation runs again after it succeeded");
                if i > 0 {
                    let w = if kind == 1 { let w = wait.min(cap as f64); wait = w * mult; w } else { wait };
                    if kind == 1 && (!(mult >= 0.0 && mult.is_finite()) || delay > cap) { check(*at <= ms(cap * i as u64 + 2 * i as u64), "a retry waits longer than the longest wait"); continue; }
                    due += Duration::from_micros((w * 1000.0) as u64);
                    check(*at + ms(1) >= due && *at <= due + ms(2 * i as u64), "a retry does not wait as configured");
                }
            }
            let last = runs.last().unwrap().0;
            match res {
                Ok(v) if last => { check(v == json!(n - 1), "the result is not that of the run that succeeded"); cover(if n > 1 { "recovered" } else { "at once" }); },
                Ok(v) => { check(handler && applies && v[0] == "op" && v[1].as_str().is_some_and(|t| t.contains("e0")), "a failure is reported as success"); cover("fallback"); },
                Err(e) => { check(!last && n == 1 + more && !(handler && applies), "recovery ends before the configured number of runs"); check(e.to_string().contains(&format!("e{}", n - 1)), "the error reported is not the last one"); cover(if applies { "all failed" } else { "not covered" }); },
            }
        });
    }
    h_c29_guarded {
        // an executor whose policy is a breaker: a breaker for each operation
        rt(async {
            let (fail, succ) = (pick("failures", tier(2, 2) as u64) as u32 + 1, pick("successes", 2) as u32 + 1);
            let mut ex = RecoveryExecutor::new(RecoveryPolicy::new(RecoveryStrategy::CircuitBreaker { failure_threshold: fail, success_threshold: succ, timeout: Duration::from_secs(10) }));
            ex.register_handler("a".into(), Arc::new(Fall("a")));
            let mut ms: Vec<Model> = (0..2).map(|_| Model { st: St::Closed(0), fail, succ, timeout: 10 }).collect();
            let mut now = 1000;
            clock_mono(now, 0);
            for _ in 0..tier(4, 6) {
                if ms.iter().any(|m| matches!(m.st, St::Open(_))) { now += [0, 9, 10][pick("passed", 3)]; clock_mono(now, 0); }
                let op = pick("op", 2);
                let want = ms[op].allow(now);
                let ok = !want || fixb(any_bool("ok"));
                let ran = Cell::new(0);
                let res = ex.execute_with_recovery(["a", "b"][op], || { ran.set(ran.get() + 1); async move { if ok { Ok(json!(1)) } else { Err(err(0, 7)) } } }).await;
                check(ran.get() == want as u32, if want { "an operation the breaker lets through does not run once" } else { "an open breaker lets an operation run" });
                if want { ms[op].done(ok, now); check(res.is_ok() == ok, "the outcome reported is not that of the operation"); if ok { cover("ran"); } else { check(res.unwrap_err().to_string().contains("e7"), "the error reported is not the operation's"); cover("failed once"); } }
                else { check(res.is_err(), "a refused operation is reported as done"); cover("kept back"); }
            }
        });
    }
}
