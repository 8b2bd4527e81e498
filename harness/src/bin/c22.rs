//! C22: notification debouncing on the server.
//! bound: histories of up to 4 submissions (thorough 5), the last one before stopping, over seven subjects of all kinds (two progress tokens, two resources, log, tools, roots), each followed by a wait of 0, 60, 300 or 700 ms or a flush, merging on or off, merge limit 1 or 100; the per-kind batcher with sizes 1 to 3
//! bound: a steady stream: 6 submissions (thorough 7) of one subject with gaps of 20, 50 or 90 ms, under intervals of 60 or 110 ms by its type or the default, and a maximum wait of 70, 120 or 200 ms
//! bound: two threads: while one flushes, submits or runs the timer, another submits for the same subject and flushes, before any atomic read-modify-write of the first (so between any two of its lock regions); the same for the batcher
//! outside: threads that interrupt each other in other ways; an output queue nobody reads
use pmcp::server::notification_debouncer::*;
use pmcp::types::protocol::*;
use std::time::Duration;
use tokio::sync::mpsc;
use vph::*;

const N: usize = 7;
fn make(s: usize, tag: &str) -> ServerNotification {
    use ServerNotification::*;
    let p = |t: &str| Progress(ProgressNotification { progress_token: ProgressToken::String(t.into()), progress: 1.0, message: Some(tag.into()) });
    match s { 0 => p("a"), 1 => p("b"), 2 => ResourceUpdated(ResourceUpdatedParams { uri: "u:1".into() }), 3 => LogMessage(LogMessageParams { level: LogLevel::Info, logger: None, message: tag.into(), data: None }), 4 => RootsListChanged, 5 => ResourcesChanged, _ => ToolsChanged }
}
fn read(n: &ServerNotification) -> (usize, Option<String>) {
    use ServerNotification::*;
    match n { Progress(p) => (if p.progress_token == ProgressToken::String("a".into()) { 0 } else { 1 }, p.message.clone()), ResourceUpdated(_) => (2, None), LogMessage(l) => (3, Some(l.message.clone())), RootsListChanged => (4, None), ResourcesChanged => (5, None), _ => (6, None) }
}
async fn pass(ms: u64) { let mut left = ms; loop { let d = left.min(50); tokio::time::advance(Duration::from_millis(d)).await; for _ in 0..4 { tokio::task::yield_now().await; } left -= d; if left == 0 { break; } } }
harness! {
    h_c22_debounce {
        let merging = fixb(any_bool("merging"));
        let limit = [1, 100][pick("limit", 2)];
        rt(async move {
            let (tx, mut rx) = mpsc::channel(100);
            let mut d = NotificationDebouncer::new(NotificationDebouncerConfig { enable_merging: merging, max_batch_size: limit, ..Default::default() }, tx);
            d.start().await.unwrap(); pass(0).await;
            // interval of each subject as configured: progress 100, log 50, resource list 500, the rest 250
            let iv = [100u64, 100, 250, 50, 250, 500, 250];
            let mut t = 0u64;
            let mut pend: Vec<(usize, String, u64)> = vec![]; // subject, tag, submitted at
            let n = tier(3, 4);
            let subs: [usize; 2] = [[0, 1], [2, 3], [3, 4], [5, 6], [0, 2], [4, 5]][pick("subjects", 6)];
            for k in 0..n {
                let s = subs[pick("subject", 2)];
                let tag = format!("{k}{}", ascii("t", 1));
                d.submit(make(s, &tag)).await.unwrap();
                pend.push((s, tag, t));
                let w = if k + 1 == n { 3 } else { pick("wait", 5) };
                if w == 4 { d.flush().await.unwrap(); } else { let x = [0, 60, 300, 700][w]; t += x; pass(x).await; }
                let mut out = vec![]; while let Ok(x) = rx.try_recv() { out.push(read(&x)); }
                for s in 0..N {
                    let mine: Vec<&(usize, String, u64)> = pend.iter().filter(|p| p.0 == s).collect();
                    let got: Vec<&(usize, Option<String>)> = out.iter().filter(|o| o.0 == s).collect();
                    check(got.len() <= mine.len(), "a notification is delivered twice");
                    if got.is_empty() {
                        check(mine.iter().map(|p| p.2).max().map_or(true, |m| w != 4 && t < m + iv[s] + 50), "a notification is not delivered after its interval");
                        continue;
                    }
                    if merging && limit > 1 { check(got.len() == mine.len(), "a notification is dropped"); }
                    if !merging { check(got.len() == 1, "a superseded notification is delivered"); }
                    // in order, and the last one is the last submitted
                    let mut at = 0;
                    for g in &got { if let Some(tag) = &g.1 { match (at..mine.len()).find(|&i| eqs(&mine[i].1, tag)) { Some(i) => at = i + 1, None => { check(false, "a notification is delivered twice, out of order or changed"); } } } else { at = mine.len(); } }
                    check(at == mine.len(), "what is delivered last is not what was submitted last");
                    if got.len() < mine.len() { cover("merged"); } else { cover("delivered"); }
                    check(w == 4 || mine.iter().map(|p| p.2).max().is_some_and(|m| t >= m + iv[s]), "a notification is delivered before its interval");
                    pend.retain(|p| p.0 != s);
                }
                let st = d.stats().await;
                check(st.total_notifications == pend.len() && st.pending_count == (0..N).filter(|s| pend.iter().any(|p| p.0 == *s)).count(), "the count of pending notifications is wrong");
            }
            // stopping delivers what is left, once
            let s = subs[pick("last", 2)];
            d.submit(make(s, "z")).await.unwrap();
            d.stop().await; pass(0).await; pass(1000).await;
            let mut out = vec![]; while let Ok(x) = rx.try_recv() { out.push(read(&x)); }
            check(out.len() == 1 && out[0].0 == s, "stopping does not deliver what is pending once");
            cover("stopped");
        });
    }
    h_c22_steady {
        // a subject that never rests is still delivered, within the configured time (and one tick of 50 ms)
        let s = [2, 0, 3, 5][pick("subject", 4)];
        let (iv, other, max) = ([60u64, 110][pick("interval", 2)], 400u64, [70u64, 120, 200][pick("max wait", 3)]);
        let named = fixb(any_bool("named"));
        let merging = fixb(any_bool("merging"));
        rt(async move {
            let (tx, mut rx) = mpsc::channel(100);
            let kind = match s { 2 => "resources/updated", 0 => "progress", 3 => "log", _ => "resources/list_changed" };
            let mut c = NotificationDebouncerConfig { enable_merging: merging, max_wait_time: Duration::from_millis(max), default_interval: Duration::from_millis(if named { other } else { iv }), ..Default::default() };
            c.type_intervals.clear();
            c.type_intervals.insert("prompts/list_changed".into(), Duration::from_millis(1));
            if named { c.type_intervals.insert(kind.into(), Duration::from_millis(iv)); }
            let mut d = NotificationDebouncer::new(c, tx);
            d.start().await.unwrap(); pass(0).await;
            let (mut t, mut first, mut last) = (0u64, None, 0);
            for k in 0..tier(6, 7) {
                d.submit(make(s, &k.to_string())).await.unwrap();
                first = first.or(Some(t)); last = t;
                let x = [20u64, 50, 90][pick("gap", 3)]; t += x; pass(x).await;
                let mut n = 0; while let Ok(x) = rx.try_recv() { check(read(&x).0 == s, "a notification of another subject is delivered"); n += 1; }
                if n > 0 { check(t >= last + iv || t >= first.unwrap() + max, "a notification is delivered before its interval"); first = None; cover(if t < last + iv { "never rests" } else { "rests" }); }
                if let Some(f) = first { check(t < f + max + 50, "a notification is held back longer than configured"); check(t < last + iv + 50, "a notification is not delivered after its interval"); check(d.stats().await.oldest_pending == Duration::from_millis(t - f), "the age of the oldest pending notification is wrong"); }
            }
        });
    }
    h_c22_threads {
        let merging = fixb(any_bool("merging"));
        let op = pick("op", 3);
        let s = [0, 3][pick("subject", 2)];
        let r = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let (tx, mut rx) = mpsc::channel(100);
        let mut d = NotificationDebouncer::new(NotificationDebouncerConfig { enable_merging: merging, ..Default::default() }, tx);
        if op == 2 { r.block_on(async { d.start().await.unwrap(); pass(0).await; }); }
        let (n0, n1, n2) = (make(s, "0"), make(s, "1"), make(s, "2"));
        once(d.submit(n0)).unwrap();
        let (flush2, mut n2) = (fixb(any_bool("flush")), Some(n2));
        let (_, between) = intrude("at", || match op { 0 => once(d.flush()).unwrap(), 1 => once(d.submit(n1)).unwrap(), _ => r.block_on(pass(100)) }, || { once(d.submit(n2.take().unwrap())).unwrap(); if flush2 { once(d.flush()).unwrap(); } });
        once(d.flush()).unwrap();
        let mut out: Vec<String> = vec![]; while let Ok(x) = rx.try_recv() { let x = read(&x); check(x.0 == s, "a notification of another subject is delivered"); out.push(x.1.unwrap()); }
        let at = |t: &str| { let l: Vec<usize> = (0..out.len()).filter(|&i| out[i] == t).collect(); check(l.len() <= 1, "a notification is delivered twice"); l.first().copied() };
        let (p, q, z) = (at("0"), at("1"), at("2"));
        if merging { check(p.is_some() && z.is_some() && (q.is_some() || op != 1), "a notification is dropped"); }
        check(p.max(q).max(z) == Some(out.len().wrapping_sub(1)), "what is delivered is not what was submitted");
        check((op == 1 && q > z && q.is_some()) || z.is_some() && z >= p.max(q), "what is delivered last is not what was submitted last");
        check(p.is_none() || [q, z].iter().all(|x| x.is_none() || *x > p), "what is delivered last is not what was submitted last");
        cover(if between { "in between" } else { "after the last point" });
        std::mem::forget(r);
    }
    h_c22_batch_threads {
        let size = 1 + pick("size", 3);
        let before = pick("before", 3);
        let op = pick("op", 3);
        let r = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let (tx, mut rx) = mpsc::channel(100);
        let b = NotificationBatcher::new(size, Duration::from_millis(100), tx);
        let g = r.enter();
        for i in 0..before { once(b.add(make(3, &i.to_string()))).unwrap(); }
        drop(g);
        if op == 2 { r.block_on(pass(0)); }
        let (_, between) = intrude("at", || match op { 0 => { let _g = r.enter(); once(b.add(make(3, "100"))).unwrap() } 1 => once(b.flush()).unwrap(), _ => r.block_on(pass(100)) },
            || { let _g = r.enter(); for i in before..before + 3 { once(b.add(make(3, &i.to_string()))).unwrap(); } });
        r.block_on(async { pass(150).await; });
        let mut got: Vec<usize> = vec![];
        while let Ok(l) = rx.try_recv() { check(!l.is_empty() && l.len() <= size, "a batch is empty or larger than configured"); got.extend(l.iter().map(|x| read(x).1.unwrap().parse::<usize>().unwrap())); }
        check(got.len() == before + 3 + (op == 0) as usize, "a message is lost, repeated or out of order");
        got.retain(|i| *i < 100);
        check(got.iter().enumerate().all(|(k, i)| *i == k), "a message is lost, repeated or out of order");
        cover(if between { "in between" } else { "after the last point" });
        std::mem::forget(r);
    }
    h_c22_batch {
        let size = 1 + pick("size", 3);
        rt(async move {
            let (tx, mut rx) = mpsc::channel(100);
            let b = NotificationBatcher::new(size, Duration::from_millis(100), tx);
            let mut sent: Vec<(usize, String)> = vec![]; let mut got: Vec<(usize, Option<String>)> = vec![];
            for k in 0..1 + pick("n", tier(5, 6) as u64) {
                match pick("op", 4) {
                    s @ 0..=1 => { let s = [0, 3][s]; let tag = format!("{k}{}", ascii("t", 1)); b.add(make(s, &tag)).await.unwrap(); sent.push((s, tag)); pass(0).await; }
                    2 => pass(60).await,
                    _ => b.flush().await.unwrap(),
                }
                while let Ok(l) = rx.try_recv() { check(!l.is_empty() && l.len() <= size, "a batch is empty or larger than configured"); let s = read(&l[0]).0; for x in &l { let x = read(x); check(x.0 == s, "a batch mixes subjects"); got.push(x); } }
            }
            pass(150).await;
            while let Ok(l) = rx.try_recv() { check(!l.is_empty() && l.len() <= size, "a batch is empty or larger than configured"); for x in &l { got.push(read(x)); } }
            for s in [0, 3] {
                let a: Vec<&String> = sent.iter().filter(|x| x.0 == s).map(|x| &x.1).collect();
                let g: Vec<&String> = got.iter().filter(|x| x.0 == s).map(|x| x.1.as_ref().unwrap()).collect();
                check(a.len() == g.len() && a.iter().zip(&g).all(|(p, q)| eqs(p, q)), "a message is lost, repeated or out of order");
            }
            cover("batched");
        });
    }
}
