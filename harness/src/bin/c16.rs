//! C16: message batching and debouncing.
//! bound: batching: histories of up to 5 steps (thorough 7), each an add of a notification with arbitrary content, a wait of 0, 60, 100 or 150 ms or taking what came out; batch sizes 1 to 3, with and without the 100 ms timer
//! bound: debouncing: histories of up to 5 steps (thorough 6) over two keys with 50 and 80 ms quiet periods, waits of 0, 30, 50 and 90 ms and flushes; and a full output queue
//! bound: two senders of three and two messages, every schedule of at most 7 steps (thorough 9) where every lock and every place in the output queue may have to be waited for; a sender that gives up while the output queue is full
//! bound: two threads: while one gives a message (or the timer sends, or what is pending is flushed), another gives the next three (to the debouncer: one of the same key, and a third 30 ms later), before any atomic read-modify-write of the first (so between any two of its lock regions), or after it
//! outside: senders that interrupt each other in other ways; a batch size or timer period of 0
use pmcp::types::protocol::*;
use pmcp::utils::batching::*;
use std::collections::HashMap;
use std::time::Duration;
use vph::*;

fn note_(i: usize) -> Notification { Notification::Server(ServerNotification::ResourceUpdated(ResourceUpdatedParams { uri: format!("{i}{}", ascii("c", 1)) })) }
fn uri(n: &Notification) -> &str { match n { Notification::Server(ServerNotification::ResourceUpdated(p)) => &p.uri, _ => "?" } }
async fn pass(ms: u64) { tokio::time::advance(Duration::from_millis(ms)).await; for _ in 0..8 { tokio::task::yield_now().await; } }
async fn now_or<T>(f: impl std::future::Future<Output = Option<T>>) -> Option<T> { tokio::pin!(f); match futures::poll!(f) { std::task::Poll::Ready(x) => x, _ => None } }
harness! {
    h_c16_batch {
        let size = 1 + pick("size", 3);
        let timer = fixb(any_bool("timer"));
        rt(async move {
            let b = MessageBatcher::new(BatchingConfig { max_batch_size: size, max_wait_time: Duration::from_millis(100), batched_methods: vec![] });
            if timer { b.start_timer(); pass(0).await; }
            let (mut sent, mut got): (Vec<String>, usize) = (vec![], 0);
            let mut t = 0u64; let mut added: Vec<u64> = vec![];
            let steps = pick("steps", tier(5, 7) as u64) + 1;
            for k in 0..steps {
                match pick("op", 5) {
                    0 => { let n = note_(k); sent.push(uri(&n).to_string()); added.push(t); b.add(n).await.unwrap(); }
                    w => { let d = [0, 60, 100, 150][w - 1]; t += d; pass(d).await; }
                }
                // what is out by now
                while let Some(l) = now_or(b.receive_batch()).await {
                    check(!l.is_empty() && l.len() <= size, "a batch is empty or larger than configured");
                    for n in &l { check(got < sent.len() && eqs(uri(n), &sent[got.min(sent.len() - 1)]), "a message is lost, repeated or out of order"); got += 1; }
                }
                let due = if timer { added.iter().filter(|a| **a + 100 <= t).count() } else { 0 };
                check(got >= due.max(sent.len() / size * size * (!timer) as usize), "a full batch or one whose wait time has passed does not come out");
                check(timer || got == sent.len() / size * size, "a partial batch comes out without timer");
            }
            if timer { pass(100).await; while let Some(l) = now_or(b.receive_batch()).await { check(!l.is_empty() && l.len() <= size, "a batch is empty or larger than configured"); for n in &l { check(got < sent.len() && eqs(uri(n), &sent[got.min(sent.len() - 1)]), "a message is lost, repeated or out of order"); got += 1; } } check(got == sent.len(), "a message never comes out"); cover("batch"); }
        });
    }
    h_c16_senders {
        let size = 1 + pick("size", 3);
        rt(async move {
            let b = MessageBatcher::new(BatchingConfig { max_batch_size: size, max_wait_time: Duration::from_millis(100), batched_methods: vec![] });
            let mut s = Sched::new();
            let n = |i: usize| Notification::Server(ServerNotification::ResourceUpdated(ResourceUpdatedParams { uri: format!("{i}") }));
            { let b = &b; s.spawn(async move { for i in 0..3 { b.add(n(i)).await.unwrap(); } }); s.spawn(async move { for i in 3..5 { b.add(n(i)).await.unwrap(); } }); }
            check(s.run_tight("next", tier(7, 9)).await, "two senders never finish");
            pass(0).await;
            let mut got: Vec<usize> = vec![];
            while let Some(l) = now_or(b.receive_batch()).await { check(!l.is_empty() && l.len() <= size, "a batch is empty or larger than configured"); got.extend(l.iter().map(|n| uri(n).parse::<usize>().unwrap())); }
            check(got.len() == 5 / size * size, "a full batch or one whose wait time has passed does not come out");
            let of = |x: usize, y: usize| got.iter().filter(|i| **i >= x && **i < y).copied().collect::<Vec<_>>();
            let (p, q) = (of(0, 3), of(3, 5));
            check(p.iter().enumerate().all(|(k, i)| *i == k) && q.iter().enumerate().all(|(k, i)| *i == 3 + k), "a sender's messages come out in another order");
            cover("senders");
        });
    }
    h_c16_threads {
        // one sender steps in while another, or the timer, is at work
        let size = 1 + pick("size", 3);
        let before = pick("before", 3);
        let timer = fixb(any_bool("timer"));
        let r = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let b = MessageBatcher::new(BatchingConfig { max_batch_size: size, max_wait_time: Duration::from_millis(100), batched_methods: vec![] });
        let n = |i: usize| Notification::Server(ServerNotification::ResourceUpdated(ResourceUpdatedParams { uri: format!("{i}") }));
        if timer { let _g = r.enter(); b.start_timer(); r.block_on(pass(0)); }
        for i in 0..before { once(b.add(n(i))).unwrap(); }
        let (_, between) = intrude("at", || if timer { r.block_on(pass(100)) } else { once(b.add(n(100))).unwrap() }, || for i in before..before + 3 { once(b.add(n(i))).unwrap(); });
        let mut got: Vec<usize> = vec![];
        r.block_on(async { if timer { pass(100).await; } while let Some(l) = now_or(b.receive_batch()).await { check(!l.is_empty() && l.len() <= size, "a batch is empty or larger than configured"); got.extend(l.iter().map(|n| uri(n).parse::<usize>().unwrap())); } });
        let all = before + 3 + !timer as usize;
        check(got.len() == if timer { all } else { all / size * size }, "a full batch or one whose wait time has passed does not come out");
        got.retain(|i| *i < 100);
        check(got.iter().enumerate().all(|(k, i)| *i == k), "a sender's messages come out in another order");
        cover(if between { "in between" } else { "after the last point" });
        std::mem::forget(r);
    }
    h_c16_gives_up {
        // the output queue is full, a sender gives up waiting: what others gave before comes out, before what comes later
        rt(async move {
            let b = MessageBatcher::new(BatchingConfig { max_batch_size: 2, max_wait_time: Duration::from_millis(100), batched_methods: vec![] });
            let timer = fixb(any_bool("timer"));
            let n = |i: usize| Notification::Server(ServerNotification::ResourceUpdated(ResourceUpdatedParams { uri: format!("{i}") }));
            for i in 0..200 { b.add(n(i)).await.unwrap(); }
            b.add(n(200)).await.unwrap();
            if timer { b.start_timer(); pass(0).await; pass(100).await; }
            { let mut f = Box::pin(b.add(n(201))); check(timer || futures::poll!(&mut f).is_pending(), "a sender does not wait for a full queue"); let _ = futures::poll!(&mut f); }
            let mut got = vec![];
            while let Some(l) = now_or(b.receive_batch()).await { check(!l.is_empty() && l.len() <= 2, "a batch is empty or larger than configured"); got.extend(l.iter().map(|n| uri(n).parse::<usize>().unwrap())); pass(0).await; }
            for i in 202..204 { b.add(n(i)).await.unwrap(); }
            b.add(n(204)).await.unwrap();
            pass(100).await;
            while let Some(l) = now_or(b.receive_batch()).await { check(!l.is_empty() && l.len() <= 2, "a batch is empty or larger than configured"); got.extend(l.iter().map(|n| uri(n).parse::<usize>().unwrap())); }
            got.retain(|i| *i != 201);
            let want = if timer { 204 } else { got.len() };
            check(got.len() == want && got.len() >= 203 && got.iter().enumerate().all(|(k, i)| *i == k + (k > 200) as usize), "a message is lost when a sender gives up");
            cover("gave up");
        });
    }
    h_c16_debounce_threads {
        // while one thread gives a message for a key, or the timer fires, another gives the next one; then one more, 30 ms later
        let op = pick("op", 3);
        let r = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let d = MessageDebouncer::new(DebouncingConfig { wait_time: Duration::from_millis(50), debounced_methods: HashMap::new() });
        let n = |i: usize| Notification::Server(ServerNotification::ResourceUpdated(ResourceUpdatedParams { uri: format!("{i}") }));
        let add = |i: usize| { let _g = r.enter(); once(d.add("k".to_string(), n(i))).unwrap() };
        let before = fixb(any_bool("before"));
        if before || op == 1 { add(0); r.block_on(pass(0)); }
        let (mut flushed, mut t2) = (vec![], None);
        let (_, between) = intrude("at", || match op { 0 => add(1), 1 => r.block_on(pass(50)), _ => { flushed = once(d.flush()); } }, || { add(2); let _g = r.enter(); t2 = Some(tokio::time::Instant::now()); });
        r.block_on(async {
            let mut out = vec![];
            let take = |out: &mut Vec<usize>| { while let Some(x) = once(now_or(d.receive())) { out.push(uri(&x).parse::<usize>().unwrap()); } };
            let quiet = |out: &Vec<usize>| check(!out.contains(&2) || t2.unwrap().elapsed() >= Duration::from_millis(50), "a message is emitted before its quiet period is over");
            take(&mut out); quiet(&out);
            pass(30).await; take(&mut out); quiet(&out);
            add(3);
            for _ in 0..4 { pass(10).await; take(&mut out); }
            check(!out.contains(&3), "a message is emitted before its quiet period is over");
            pass(20).await; take(&mut out);
            out.splice(0..0, flushed.iter().map(|x| uri(x).parse::<usize>().unwrap()));
            check(out.last() == Some(&3), "the latest message of a key does not come out after its quiet period");
            check(out.iter().all(|i| out.iter().filter(|j| *j == i).count() == 1), "a message comes out twice");
            let rank = |i: &usize| match *i { 0 => 0, 3 => 2, _ => 1 };
            check(out.windows(2).all(|w| rank(&w[0]) < rank(&w[1]) || rank(&w[0]) == 1 && rank(&w[1]) == 1), "an older message comes out after a newer one");
        });
        cover(if between { "in between" } else { "after the last point" });
        std::mem::forget(r);
    }
    h_c16_debounce {
        rt(async move {
            let d = MessageDebouncer::new(DebouncingConfig { wait_time: Duration::from_millis(50), debounced_methods: HashMap::from([("k1".to_string(), Duration::from_millis(80))]) });
            let wait = [50u64, 80];
            let mut pend: [Option<(String, u64)>; 2] = [None, None];
            let (mut t, mut n) = (0u64, 0);
            let steps = 1 + pick("steps", tier(5, 6) as u64);
            for k in 0..=steps {
                let op = if k == steps { 6 } else { pick("op", 6) };
                match op {
                    0 | 1 => { let x = note_(k); pend[op] = Some((uri(&x).to_string(), t + wait[op])); d.add(format!("k{op}"), x).await.unwrap(); n += 1; for _ in 0..4 { tokio::task::yield_now().await; } }
                    5 => {
                        let l = d.flush().await;
                        let want: Vec<String> = pend.iter_mut().filter_map(|p| p.take()).map(|p| p.0).collect();
                        check(l.len() == want.len() && want.iter().all(|w| l.iter().any(|n| eqs(uri(n), w))), "flushing does not give the latest message of each key");
                        cover("flush");
                    }
                    w => { let s = if w == 6 { 100 } else { [30, 50, 90][w - 2] }; for _ in 0..s / 10 { t += 10; pass(10).await;
                        // whatever is due comes out now, and nothing else
                        loop { let x = now_or(d.receive()).await;
                            match x { None => break, Some(x) => {
                                let i = (0..2).find(|&i| pend[i].as_ref().is_some_and(|p| p.1 <= t && eqs(&p.0, uri(&x))));
                                match i { Some(i) => { pend[i] = None; cover("emitted"); } None => check(false, "a message comes out early, twice or superseded") }
                            } } }
                        check(pend.iter().all(|p| p.as_ref().map_or(true, |p| p.1 > t)), "a message does not come out after its quiet period");
                    } }
                }
            }
            check(pend.iter().all(|p| p.is_none()), "a message never comes out");
            let _ = n;
        });
    }
    h_c16_full {
        // nobody reads for a while: nothing whose quiet period is over may be lost
        rt(async move {
            let d = MessageDebouncer::new(DebouncingConfig { wait_time: Duration::from_millis(10), debounced_methods: HashMap::new() });
            for i in 0..102 { d.add(format!("k{i}"), Notification::Server(ServerNotification::ToolsChanged)).await.unwrap(); }
            pass(10).await; pass(10).await;
            for _ in 0..210 { tokio::task::yield_now().await; }
            let x = note_(1); let u = uri(&x).to_string();
            let what = pick("then", 3);
            let mut out = vec![];
            match what { 0 => {} 1 => out.extend(d.flush().await), _ => d.add("k101".into(), x).await.unwrap() }
            for _ in 0..300 { pass(1).await; while let Some(n) = now_or(d.receive()).await { out.push(n); } if out.len() >= 102 { break; } }
            pass(20).await; while let Some(n) = now_or(d.receive()).await { out.push(n); }
            check(out.len() >= 102 - (what == 2) as usize + (what == 2) as usize, "a message is lost while the queue is full");
            check(out.len() <= 102 + (what == 2) as usize, "a message comes out twice");
            if what == 2 { check(out.iter().filter(|n| eqs(uri(n), &u)).count() == 1, "the latest message of a key does not come out once"); }
            cover("full");
        });
    }
}
