//! C19: resource subscriptions.
//! bound: histories of up to 4 steps (thorough 5) over two addresses and two connections of arbitrary content (equal or not): subscribe, unsubscribe, drop the connection, change; two tasks under every schedule of 6 steps
//! bound: two threads: every pair of subscribing, unsubscribing, dropping a connection, a change and both listings, with one subscription in force, the second running at once before any atomic read-modify-write of the first (so between any two of its lock regions), or after it; no deadlock, and the outcome must be that of one of the two orders
//! outside: threads that interrupt each other in other ways; delivery of the notification to the connection itself
use pmcp::server::subscriptions::*;
use pmcp::types::protocol::*;
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};
use vph::*;

struct W { m: SubscriptionManager, log: Arc<Mutex<Vec<String>>> }
fn act(w: &W, op: usize) -> Vec<String> {
    let sorted = |mut v: Vec<String>| { v.sort(); v };
    match op {
        0 => { once(w.m.subscribe("u".into(), "b".into())).unwrap(); vec![] }
        1 => { once(w.m.unsubscribe("u".into(), "a".into())).unwrap(); vec![] }
        2 => { once(w.m.unsubscribe_all("a")).unwrap(); vec![] }
        3 => vec![once(w.m.notify_resource_updated("u".into())).unwrap().to_string()],
        4 => sorted(once(w.m.get_subscribers("u"))),
        5 => sorted(once(w.m.get_subscriptions("a"))),
        _ => { once(w.m.subscribe("v".into(), "a".into())).unwrap(); vec![] }
    }
}
harness! {
    h_c19_threads {
        threads(7, || {
            let log: Arc<Mutex<Vec<String>>> = Default::default();
            let mut m = SubscriptionManager::new();
            let l = log.clone();
            m.set_notification_sender(move |n| if let ServerNotification::ResourceUpdated(p) = n { l.lock().unwrap().push(p.uri) });
            once(m.subscribe("u".into(), "a".into())).unwrap();
            W { m, log }
        }, act, |w| [act(w, 4), act(w, 5), act(w, 3), w.log.lock().unwrap().clone()]);
    }
    h_c19_history {
        let log: Arc<Mutex<Vec<String>>> = Default::default();
        let mut m = SubscriptionManager::new();
        let l = log.clone();
        m.set_notification_sender(move |n| match n { ServerNotification::ResourceUpdated(p) => l.lock().unwrap().push(p.uri), _ => check(false, "a change is announced as something else") });
        let (uris, subs) = ([ascii("uri", 1), ascii("uri", 1)], [ascii("sub", 1), ascii("sub", 1)]);
        let (su, ss) = (fixb(eqs(&uris[0], &uris[1])), fixb(eqs(&subs[0], &subs[1])));
        let mut set: BTreeSet<(usize, usize)> = BTreeSet::new();
        block_on(async {
            for _ in 0..tier(4, 5) {
                let (i, j) = (pick("u", 2), pick("s", 2));
                let (u, s) = (if su { 0 } else { i }, if ss { 0 } else { j });
                match pick("op", 4) {
                    0 => { m.subscribe(uris[i].clone(), subs[j].clone()).await.unwrap(); set.insert((u, s)); }
                    1 => { m.unsubscribe(uris[i].clone(), subs[j].clone()).await.unwrap(); set.remove(&(u, s)); }
                    2 => { m.unsubscribe_all(&subs[j]).await.unwrap(); set.retain(|x| x.1 != s); }
                    _ => {
                        let n = log.lock().unwrap().len();
                        let k = m.notify_resource_updated(uris[i].clone()).await.unwrap();
                        let want = set.iter().filter(|x| x.0 == u).count();
                        check(k == want, "the number of subscribers notified is wrong");
                        let l = log.lock().unwrap();
                        check(l.len() == n + (want > 0) as usize, "a change is not announced exactly once to a resource with subscribers");
                        if want > 0 { check(eqs(&l[n], &uris[i]), "a change is announced for another resource"); cover("notified"); }
                    }
                }
                // the listings agree with the subscriptions in force
                for i in 0..2 {
                    let u = if su { 0 } else { i };
                    let want: Vec<usize> = set.iter().filter(|x| x.0 == u).map(|x| x.1).collect();
                    let got = m.get_subscribers(&uris[i]).await;
                    check(got.len() == want.len() && want.iter().all(|w| got.iter().any(|g| eqs(g, &subs[*w]))), "the subscribers listed for a resource are wrong");
                    check(m.has_subscribers(&uris[i]).await == !want.is_empty(), "a resource is reported with or without subscribers wrongly");
                    let s = if ss { 0 } else { i };
                    let want: Vec<usize> = set.iter().filter(|x| x.1 == s).map(|x| x.0).collect();
                    let got = m.get_subscriptions(&subs[i]).await;
                    check(got.len() == want.len() && want.iter().all(|w| got.iter().any(|g| eqs(g, &uris[*w]))), "the subscriptions listed for a connection are wrong");
                }
                let st = m.get_stats().await;
                let (nu, ns) = (set.iter().map(|x| x.0).collect::<BTreeSet<_>>().len(), set.iter().map(|x| x.1).collect::<BTreeSet<_>>().len());
                check(st.total_subscriptions == set.len() && st.total_resources == nu && st.unique_subscribers == ns, "the subscription statistics are wrong");
                if set.len() == 4 { cover("full"); }
            }
        });
    }
    h_c19_race {
        let m = SubscriptionManager::new();
        let (a, b) = (pick("a", 3), pick("b", 3));
        let mref = &m;
        let go = move |s: &'static str, w: usize| async move { match w { 0 => mref.subscribe("u".into(), s.into()).await.unwrap(), 1 => { mref.subscribe("u".into(), s.into()).await.unwrap(); mref.unsubscribe("u".into(), s.into()).await.unwrap() } _ => { mref.subscribe("u".into(), s.into()).await.unwrap(); mref.subscribe("v".into(), s.into()).await.unwrap(); mref.unsubscribe_all(s).await.unwrap() } } };
        let mut s = Sched::new();
        s.spawn(go("a", a)); s.spawn(go("b", b)); s.spawn(async { let k = mref.notify_resource_updated("u".into()).await.unwrap(); check(k <= 2, "more subscribers are notified than exist"); });
        check(s.run_all("next", 6), "stuck");
        check(block_on(m.get_subscribers("u")).len() == (a == 0) as usize + (b == 0) as usize, "a subscription is lost or left over");
    }
}
