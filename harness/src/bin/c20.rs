//! C20: roots.
//! bound: addresses: any text of up to 8 bytes (thorough 9) before the rest; histories of up to 5 registrations and unregistrations (thorough 6) with two addresses and optional one-byte names, the same address several times; the unregistration tasks running early or late
//! bound: the client's roots: up to 2 with arbitrary names, and malformed answers
//! bound: two threads: every pair of registering either of two roots, listing and asking whether there are any, the second running at once before any atomic read-modify-write of the first (so between any two of its lock regions), or after it; no deadlock, and the outcome must be that of one of the two orders
//! outside: threads that interrupt each other in other ways
use pmcp::server::roots::*;
use pmcp::types::protocol::*;
use serde_json::json;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use vph::*;

struct W { m: RootsManager, n: Arc<AtomicUsize>, un: std::cell::RefCell<Vec<Box<dyn FnOnce()>>> }
fn act(w: &W, op: usize) -> Vec<String> {
    match op {
        0 | 1 => { let f = once(w.m.register_root(["file:///a", "file:///b"][op], None)).ok().unwrap(); let f: Box<dyn FnOnce()> = Box::new(f); w.un.borrow_mut().push(f); vec![] }
        2 => once(w.m.get_roots()).into_iter().map(|r| r.uri).collect(),
        _ => vec![once(w.m.has_roots()).to_string()],
    }
}
harness! {
    h_c20_threads {
        threads(4, || {
            let n = Arc::new(AtomicUsize::new(0));
            let mut m = RootsManager::new();
            let n2 = n.clone(); m.set_notification_sender(move |_| { n2.fetch_add(1, SeqCst); });
            W { m, n, un: std::cell::RefCell::new(Vec::with_capacity(4)) }
        }, act, |w| (act(w, 2), w.n.load(SeqCst)));
    }
    h_c20_address {
        let s = utf8("uri", pick("len", tier(9, 10) as u64));
        let n = Arc::new(AtomicUsize::new(0));
        let mut m = RootsManager::new();
        let n2 = n.clone(); m.set_notification_sender(move |_| { n2.fetch_add(1, SeqCst); });
        let ok = block_on(m.register_root(s.clone(), None)).is_ok();
        let want = s.len() >= 7 && eq(&s.as_bytes()[..7], b"file://");
        check(ok == want, "an address that is no file address is registered, or a file address is not");
        let r = block_on(m.get_roots());
        check(r.len() == ok as usize && n.load(SeqCst) == ok as usize && block_on(m.has_roots()) == ok, "a refused address is listed or announced");
        if ok { check(eqs(&r[0].uri, &s), "a root is listed under another address"); cover("file"); } else { cover("refused"); }
    }
    h_c20_history {
        rt(async {
            let n = Arc::new(AtomicUsize::new(0));
            let mut m = RootsManager::new();
            let n2 = n.clone(); m.set_notification_sender(move |x| { check(matches!(x, ServerNotification::RootsListChanged), "a change of the roots is announced as something else"); n2.fetch_add(1, SeqCst); });
            let mut model: Vec<(usize, String, Option<String>)> = vec![];
            let mut handles = vec![];
            let mut changes = 0;
            for k in 0..tier(5, 6) {
                if handles.is_empty() || fixb(any_bool("register")) {
                    let uri = ["file:///a", "file:///b"][pick("uri", 2)].to_string();
                    let name = if fixb(any_bool("named")) { Some(ascii("name", 1)) } else { None };
                    handles.push((k, m.register_root(uri.clone(), name.clone()).await.expect("a root is refused")));
                    model.push((k, uri, name)); changes += 1;
                } else {
                    let (id, h) = handles.remove(pick("which", handles.len() as u64));
                    h(); model.retain(|x| x.0 != id); changes += 1;
                    if fixb(any_bool("late")) { continue; }
                }
                tokio::task::yield_now().await; tokio::task::yield_now().await;
                let r = m.get_roots().await;
                check(r.len() == model.len() && r.iter().zip(&model).all(|(r, x)| and(eqs(&r.uri, &x.1), eqo(r.name.as_deref(), x.2.as_deref()))), "the roots are not those registered and not unregistered, in order");
                check(n.load(SeqCst) == changes, "a change of the roots is not announced once");
                check(m.has_roots().await == !model.is_empty(), "roots are reported present or absent wrongly");
                if model.len() < changes { cover("removed"); }
            }
        });
    }
    h_c20_client {
        let m = RootsManager::new();
        let n = pick("n", 3);
        let roots: Vec<_> = (0..n).map(|_| if fixb(any_bool("named")) { json!({"uri": ascii("u", 2), "name": ascii("name", 1)}) } else { json!({"uri": ascii("u", 2)}) }).collect();
        let v = json!({"roots": roots});
        let asked = std::cell::Cell::new(0);
        let r = block_on(m.request_client_roots(|q| { check(matches!(q, ServerRequest::ListRoots), "the client is asked for something else"); asked.set(asked.get() + 1); let v = v.clone(); async move { Ok(v) } }));
        match r { Ok(l) => check(veq(&serde_json::to_value(l).unwrap(), &v), "the client's roots change on the way"), Err(_) => check(false, "the client's roots are refused") }
        check(asked.get() == 1, "the client is not asked once");
        let bad = [json!(null), json!({}), json!({"roots": 1}), json!({"roots": [{"name": "x"}]})][pick("bad", 4)].clone();
        check(block_on(m.request_client_roots(|_| async move { Ok(bad) })).is_err(), "a malformed answer is taken for roots");
        check(block_on(m.request_client_roots(|_| async move { Err(pmcp::Error::internal("x")) })).is_err(), "an error is taken for roots");
    }
}
