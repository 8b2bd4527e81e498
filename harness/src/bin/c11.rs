//! C11: reconnection policy.
//! bound: delays: first delay 0, 1 ns, 100 ms, 60 s or the largest duration, maximum 0, 1 s, 30 s or the largest, growth 0, 0.5, 1, 1.5, 2, -1, 1e300, infinite or not a number, jitter 0, 0.1, 1, 2, -0.5, 1e300, infinite or not a number, up to 8 failures (thorough 40), and every random draw of a 256-point grid over the second
//! bound: attempts: up to 3 calls of reconnect_with with up to 4 symbolic outcomes in total (thorough 6), attempt limits none, 0, 1, 2 and 3, circuit thresholds none, 1, 2 and 3, counters reset on success or not, and any number of half seconds between calls (128 s window around the 60 or 60.5 s circuit timeout)
//! outside: other configuration values; two callers at once
use pmcp::error::Error;
use pmcp::shared::reconnect::*;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::Duration;
use vph::*;

fn cfg() -> ReconnectConfig { ReconnectConfig { initial_delay: Duration::from_millis(100), max_delay: Duration::from_millis(350), growth_factor: 2.0, jitter_factor: 0.0, max_retries: None, reset_on_success: true, success_threshold: Duration::from_secs(60), circuit_breaker_threshold: None, circuit_breaker_timeout: Duration::from_secs(60) } }
fn failed(m: &ReconnectManager) { block_on(m.on_connection_failed(&Error::internal("x"))); }
const D: [Duration; 5] = [Duration::ZERO, Duration::from_nanos(1), Duration::from_millis(100), Duration::from_secs(60), Duration::MAX];
const X: [Duration; 4] = [Duration::ZERO, Duration::from_secs(1), Duration::from_secs(30), Duration::MAX];
const G: [f64; 9] = [1.0, 1.5, 2.0, 1e300, f64::INFINITY, 0.0, 0.5, -1.0, f64::NAN];
const J: [f64; 8] = [0.0, 0.1, 1.0, 2.0, -0.5, 1e300, f64::INFINITY, f64::NAN];
fn nanos() -> u64 { any_u8("r") as u64 * 3_921_568 }
harness! {
    h_c11_delay {
        // no configuration and no draw gives a panic or more than the maximum
        let (i, x, g, j) = (D[pick("initial", 5)], X[pick("max", 4)], G[pick("growth", 9)], J[pick("jitter", 8)]);
        let m = ReconnectManager::new(ReconnectConfig { initial_delay: i, max_delay: x, growth_factor: g, jitter_factor: j, ..cfg() });
        for _ in 0..[0, 1, 2, tier(8, 40)][pick("fails", 4)] { failed(&m); }
        clock_real(1_700_000_000, nanos());
        let d = m.calculate_delay();
        check(d <= x, "a delay exceeds the configured maximum");
        cover("delay");
    }
    h_c11_growth {
        // without jitter: initial * growth^n up to the maximum, never shrinking
        let (i, x, g) = (D[pick("initial", 5)], X[pick("max", 4)], G[pick("growth", 5)]);
        let m = ReconnectManager::new(ReconnectConfig { initial_delay: i, max_delay: x, growth_factor: g, ..cfg() });
        clock_real(1_700_000_000, nanos());
        let (mut last, mut want) = (Duration::ZERO, i.as_secs_f64());
        for k in 0..tier(8, 40) {
            let d = m.calculate_delay();
            if k == 0 { check(d.abs_diff(i.min(x)) <= Duration::from_nanos(1) || d.as_secs_f64() == i.min(x).as_secs_f64(), "the first delay is not the configured one"); }
            check(d >= last, "delays shrink as attempts grow");
            if i.is_zero() && (k > 0 && !(g.powi(k as i32)).is_finite()) { break; }
            let w = want.min(x.as_secs_f64());
            check((d.as_secs_f64() - w).abs() <= w * 1e-6 + 1e-9, "a delay does not grow by the configured factor");
            last = d; want *= g; if want.is_nan() { break; }
            failed(&m);
        }
        cover("growth");
    }
    h_c11_jitter {
        let (i, x, j) = (D[2 + pick("initial", 2)], X[1 + pick("max", 2)], [0.1f64, 0.5, 1.0][pick("jitter", 3)]);
        let c = ReconnectConfig { initial_delay: i, max_delay: x, ..cfg() };
        let (m, b) = (ReconnectManager::new(ReconnectConfig { jitter_factor: j, ..c.clone() }), ReconnectManager::new(c));
        for _ in 0..pick("fails", 5) { failed(&m); failed(&b); }
        clock_real(1_700_000_000, nanos());
        let (d, base) = (m.calculate_delay(), b.calculate_delay());
        let (bn, dn) = (base.as_nanos() as u64, d.as_nanos() as u64);
        let r = (base.as_secs_f64() * j * 1e9) as u64 + 2;
        check(dn + r >= bn, "a delay is shorter than the jitter fraction allows");
        check(dn <= bn + r, "a delay is longer than the jitter fraction allows");
        cover("jitter");
    }
    h_c11_attempts {
        // several calls, no circuit breaker
        let max = [None, Some(0u32), Some(1), Some(2), Some(3)][pick("max", 5)];
        let reset = fixb(any_bool("reset"));
        let total = tier(4, 6);
        rt(async move {
            let m = ReconnectManager::new(ReconnectConfig { max_retries: max, reset_on_success: reset, ..cfg() });
            let left = Cell::new(total);
            let (mut used, mut attempts) = (0u32, 0u64);
            for call in 0..3 {
                if left.get() == 0 { break; }
                if call > 0 { m.on_disconnected().await; check(m.state().await == ConnectionState::Disconnected, "a lost connection is not reported"); }
                let outs: RefCell<Vec<bool>> = RefCell::new(vec![]);
                let at: RefCell<Vec<tokio::time::Instant>> = RefCell::new(vec![]);
                let start = tokio::time::Instant::now();
                let r = m.reconnect_with(|| { let o = if left.get() == 0 { true } else { left.set(left.get() - 1); fixb(any_bool("ok")) }; outs.borrow_mut().push(o); at.borrow_mut().push(tokio::time::Instant::now()); async move { if o { Ok(()) } else { Err(Error::internal("refused")) } } }).await;
                let (outs, at) = (outs.into_inner(), at.into_inner());
                attempts += outs.len() as u64;
                check(outs.iter().rev().skip(1).all(|o| !o), "an attempt is made after a success");
                check(r.is_ok() == outs.last().copied().unwrap_or(false), "the result is not that of the last attempt");
                check(max.map_or(true, |x| outs.len() <= x as usize), "more attempts than configured");
                // attempts go on until the limit since the last reset is used up
                let (before, mut last) = (used, Duration::ZERO);
                for (k, o) in outs.iter().enumerate() {
                    let gap = if k == 0 { at[0] - start } else { at[k] - at[k - 1] };
                    // the delay for the number of failures so far, give or take whether the first one counts
                    let delay = |n: u32| Duration::from_millis(100u64 << n.min(4)).min(Duration::from_millis(350));
                    check(if k == 0 { gap <= Duration::from_millis(2) } else { gap >= delay(used - 1) && gap <= delay(used) + Duration::from_millis(2) }, "the wait between attempts is not the configured delay");
                    check(k == 0 || gap >= last, "waits shrink as attempts grow");
                    last = if k == 0 { Duration::ZERO } else { gap };
                    if *o { if reset { used = 0; } } else { used += 1; }
                }
                if r.is_err() { check(max.is_some_and(|x| used >= x), "attempts stop before the limit"); if outs.len() > 0 { cover("limit"); } } else { check(max.map_or(true, |x| before < x), "an attempt is made after the limit"); check(m.state().await == ConnectionState::Connected, "a connection is not reported"); cover("connected"); }
                let s = m.stats();
                check(s.total_attempts == attempts && s.current_retry_count == used, "the counters are wrong");
                check(s.consecutive_failures == if r.is_ok() { 0 } else { s.consecutive_failures }, "a success does not reset the failure counter");
            }
        });
    }
    h_c11_circuit {
        let thr = 1 + pick("threshold", 3) as u32;
        let timeout = 120 + pick("timeout", 2) as u64; // half seconds
        let opened = std::sync::Arc::new(AtomicU32::new(0)); let closed = std::sync::Arc::new(AtomicU32::new(0));
        rt(async move {
            let mut m = ReconnectManager::new(ReconnectConfig { circuit_breaker_threshold: Some(thr), circuit_breaker_timeout: Duration::from_millis(timeout * 500), ..cfg() });
            let (o2, c2) = (opened.clone(), closed.clone());
            m.set_callbacks(ReconnectCallbacks { on_circuit_open: Some(Box::new(move || { o2.fetch_add(1, SeqCst); })), on_circuit_close: Some(Box::new(move || { c2.fetch_add(1, SeqCst); })), ..Default::default() });
            let left = Cell::new(tier(4, 6));
            let (mut fails, mut open_at, mut now) = (0u32, None::<u64>, 0u64);
            let (mut wo, mut wc) = (0, 0);
            for call in 0..3 {
                if left.get() == 0 { break; }
                let t = any_in("t", 0, 255); assume(t >= now); now = t; clock_mono(1_000_000 + t / 2, ite(t & 1 == 1, 500_000_000, 0));
                if call > 0 && open_at.is_none() { m.on_disconnected().await; }
                let shut = open_at.is_some_and(|o| fixb(t < o + timeout));
                let outs: RefCell<Vec<bool>> = RefCell::new(vec![]);
                let r = m.reconnect_with(|| { let o = if left.get() == 0 { true } else { left.set(left.get() - 1); fixb(any_bool("ok")) }; outs.borrow_mut().push(o); async move { if o { Ok(()) } else { Err(Error::internal("refused")) } } }).await;
                let outs = outs.into_inner();
                if shut { check(outs.is_empty() && r.is_err(), "an attempt is made while the circuit is open"); cover("shut"); continue; }
                check(!outs.is_empty(), "no attempt is made although the circuit's time is up");
                if open_at.take().is_some() { wc += 1; cover("reopened"); }
                for (k, o) in outs.iter().enumerate() {
                    if *o { check(k + 1 == outs.len(), "an attempt is made after a success"); fails = 0; } else { fails += 1; if fails >= thr { open_at = Some(t); wo += 1; check(k + 1 == outs.len(), "an attempt is made after the circuit opened"); } }
                }
                check(r.is_ok() == *outs.last().unwrap(), "the result is not that of the last attempt");
                check((m.state().await == ConnectionState::CircuitOpen) == open_at.is_some(), "the circuit is open before its threshold, or closed after it");
                check(r.is_ok() || open_at.is_some(), "attempts stop before the circuit opens");
                check(m.stats().consecutive_failures == fails, "the failure counter is wrong");
            }
            check(opened.load(SeqCst) == wo && closed.load(SeqCst) == wc, "opening or closing the circuit is not announced exactly once");
        });
    }
    h_c11_circuit_limit {
        // a circuit that lets attempts through at once does not lift the limit
        let max = 1 + pick("max", 3) as u32;
        let thr = 1 + pick("threshold", 2) as u32;
        rt(async move {
            let m = ReconnectManager::new(ReconnectConfig { max_retries: Some(max), reset_on_success: false, circuit_breaker_threshold: Some(thr), circuit_breaker_timeout: Duration::ZERO, ..cfg() });
            let n = Cell::new(0u32);
            let r = m.reconnect_with(|| { n.set(n.get() + 1); let o = n.get() > 6 || fixb(any_bool("ok")); async move { if o { Ok(()) } else { Err(Error::internal("refused")) } } }).await;
            check(n.get() <= max, "more attempts than configured when the circuit opens at once");
            if r.is_err() { check(n.get() == max, "attempts stop before the limit"); cover("circuit-limit"); }
        });
    }
    h_c11_disabled {
        rt(async {
            let m = ReconnectManager::new(cfg());
            m.set_enabled(false);
            let n = Cell::new(0);
            let r = m.reconnect_with(|| { n.set(n.get() + 1); async { Ok(()) } }).await;
            check(r.is_err() && n.get() == 0, "a disabled manager connects");
            m.set_enabled(true);
            check(m.reconnect_with(|| async { Ok(()) }).await.is_ok(), "an enabled manager does not connect");
            check(!m.should_reconnect().await, "a connected manager wants to reconnect");
            // a long-lived connection clears the retry count, a short one does not
            let m = ReconnectManager::new(ReconnectConfig { reset_on_success: false, ..cfg() });
            clock_mono(1_000_000, 0);
            m.on_connection_failed(&Error::internal("x")).await;
            m.on_connecting().await; m.on_connected().await;
            let t = any_in("t", 0, 255); clock_mono(1_000_000 + t, 0);
            m.on_disconnected().await;
            check(m.stats().current_retry_count == ite(t >= 60, 0, 1) as u32, "the retry count after a lost connection is wrong");
            // a failed attempt is no connection that ended
            let before = m.stats().current_retry_count;
            m.on_connecting().await; check(!m.should_reconnect().await, "a connection is tried while another attempt is under way");
            m.on_connection_failed(&Error::internal("x")).await; m.on_disconnected().await;
            check(m.stats().current_retry_count == before + 1, "a failed attempt is not counted");
            m.reset();
            check(m.stats().current_retry_count == 0 && m.stats().consecutive_failures == 0, "reset leaves counters");
        });
    }
}
