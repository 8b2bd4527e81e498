//! C24: access tokens.
//! bound: histories of up to 4 operations (thorough 5) over up to 3 tokens: issue, check, refresh, revoke (by access or refresh token), unknown tokens, each at any second of a 256 s window around the expiry of the first token
//! bound: every interleaving at lock granularity (up to 8 scheduling decisions, thorough 12) of three operations on one token: issue, refresh, revoke, check
//! bound: two threads: every pair of issuing, refreshing, revoking (by either token) and checking, the second running at once before any atomic read-modify-write of the first (so between any two of its lock regions), or after it; no deadlock, and the outcome must be that of one of the two orders
//! outside: collisions of random tokens; a clock that goes backwards
use pmcp::server::auth::oauth2::*;
use std::cell::RefCell;
use vph::*;

struct Tok { access: String, refresh: String, client: String, user: String, scopes: Vec<String>, until: u64, live: bool, fresh: bool }
const T0: u64 = 1_700_000_000;
async fn issue(p: &InMemoryOAuthProvider, now: u64) -> Tok {
    let (client, user) = (ascii("client", 1), ascii("user", 1));
    let scopes: Vec<String> = (0..pick("scopes", 3)).map(|_| ascii("scope", 1)).collect();
    let t = p.create_access_token(&client, &user, scopes.clone()).await.expect("a token is not issued");
    check(eqs(t.scope.as_deref().unwrap_or("?"), &scopes.join(" ")) && t.expires_in == Some(3600), "a token is issued with other scopes or life");
    Tok { access: t.access_token, refresh: t.refresh_token.expect("no refresh token"), client, user, scopes, until: now + 3600, live: true, fresh: true }
}
async fn verify(p: &InMemoryOAuthProvider, t: &Tok, now: u64) {
    match p.validate_token(&t.access).await {
        Ok(i) => {
            check(t.live, "a revoked or replaced token is accepted");
            check(now <= t.until, "an expired token is accepted");
            check(i.token == t.access && and(eqs(&i.client_id, &t.client), eqs(&i.user_id, &t.user)) && i.scopes.len() == t.scopes.len() && i.scopes.iter().zip(&t.scopes).all(|(a, b)| eqs(a, b)), "a token speaks for another client, user or scopes");
            cover("accepted");
        }
        Err(_) => { check(!t.live || fixb(now > t.until), "a live token is refused"); cover("refused"); }
    }
}
struct W { p: InMemoryOAuthProvider, t: (String, String), made: RefCell<Vec<String>> }
fn act(w: &W, op: usize) -> bool {
    let keep = |r: pmcp::Result<AccessToken>| match r { Ok(t) => { w.made.borrow_mut().push(t.access_token); true } Err(_) => false };
    match op {
        0 => keep(once(w.p.create_access_token("c", "u", vec![]))),
        1 => keep(once(w.p.refresh_token(&w.t.1))),
        2 => once(w.p.revoke_token(&w.t.0)).is_ok(),
        3 => once(w.p.revoke_token(&w.t.1)).is_ok(),
        _ => once(w.p.validate_token(&w.t.0)).is_ok(),
    }
}
harness! {
    h_c24_threads {
        clock_real(T0, 0);
        threads(5, || {
            let p = InMemoryOAuthProvider::new("x");
            let t = once(p.create_access_token("c", "u", vec![])).ok().unwrap();
            W { p, t: (t.access_token, t.refresh_token.unwrap()), made: RefCell::new(Vec::with_capacity(4)) }
        }, act, |w| {
            let mut made: Vec<bool> = w.made.borrow().iter().map(|t| once(w.p.validate_token(t)).is_ok()).collect();
            made.sort();
            (act(w, 4), made, act(w, 1))
        });
    }
    h_c24_history {
        clock_real(T0, 0);
        let p = InMemoryOAuthProvider::new("x");
        block_on(async {
            let mut now = T0;
            let mut ts = vec![issue(&p, now).await];
            for k in 0..tier(4, 5) {
                if k % 2 == 0 { let d = T0 + 3500 + any_u8("t") as u64; assume(d >= now); now = d; clock_real(now, 0); }
                let i = if ts.len() == 1 { 0 } else { pick("token", ts.len() as u64) };
                match pick("op", 5) {
                    0 if ts.len() < 3 => ts.push(issue(&p, now).await),
                    1 => match p.refresh_token(&ts[i].refresh).await {
                        Ok(n) => {
                            check(ts[i].live && ts[i].fresh, "a refresh token that was used, replaced or revoked gives a token");
                            let o = &mut ts[i]; o.live = false; o.fresh = false;
                            check(eqs(n.scope.as_deref().unwrap_or("?"), &o.scopes.join(" ")), "a refreshed token has other scopes");
                            let t = Tok { access: n.access_token, refresh: n.refresh_token.expect("no refresh token"), client: o.client.clone(), user: o.user.clone(), scopes: o.scopes.clone(), until: now + 3600, live: true, fresh: true };
                            check(ts.iter().all(|o| o.access != t.access && o.refresh != t.refresh), "a token is issued twice");
                            ts.push(t); cover("refreshed");
                        }
                        Err(_) => { check(!(ts[i].live && ts[i].fresh), "a refresh token in force is refused"); cover("no refresh"); }
                    },
                    2 => { check(p.revoke_token(&ts[i].access).await.is_ok(), "revoking fails"); ts[i].live = false; }
                    3 => { check(p.revoke_token(&ts[i].refresh).await.is_ok(), "revoking fails"); if ts[i].fresh { ts[i].live = false; ts[i].fresh = false; } cover("revoked"); }
                    _ => {
                        let x = ascii("x", 2);
                        check(p.validate_token(&x).await.is_err() && p.refresh_token(&x).await.is_err(), "an unknown token is accepted");
                        check(p.validate_token(&ts[i].refresh).await.is_err() && p.refresh_token(&ts[i].access).await.is_err(), "a token is accepted in the other's place");
                        let _ = p.revoke_token(&x).await;
                    }
                }
                for t in &ts { verify(&p, t, now).await; }
            }
        });
    }
    h_c24_race {
        // operations that run at the same time, every lock acquisition a scheduling point
        rt(async {
            clock_real(T0, 0);
            let p = InMemoryOAuthProvider::new("x");
            let t = p.create_access_token("c", "u", vec!["s".into()]).await.unwrap();
            let n = 3;
            let ops: Vec<usize> = (0..n).map(|_| pick("op", 5)).collect();
            assume(ops.windows(2).all(|w| w[0] <= w[1])); // the tasks are alike
            let got = RefCell::new(vec![]);
            let refresh = t.refresh_token.clone().unwrap();
            let mut s = Sched::new();
            for &o in &ops {
                let (p, got, a, r) = (&p, &got, t.access_token.clone(), refresh.clone());
                s.spawn(async move {
                    match o {
                        0 => { let x = p.create_access_token("d", "v", vec![]).await; match x { Ok(x) => got.borrow_mut().push((x, "d", "v")), Err(_) => check(false, "a token is not issued") } }
                        1 => { if let Ok(x) = p.refresh_token(&r).await { got.borrow_mut().push((x, "c", "u")); } }
                        2 => check(p.revoke_token(&a).await.is_ok(), "revoking fails"),
                        3 => check(p.revoke_token(&r).await.is_ok(), "revoking fails"),
                        _ => { if let Ok(i) = p.validate_token(&a).await { check(i.client_id == "c" && i.user_id == "u", "a token speaks for another client, user or scopes"); } }
                    }
                });
            }
            check(s.run_tight("next", tier(8, 12)).await, "token operations block each other for ever");
            drop(s);
            let got = got.into_inner();
            let (mut fresh, mut issued) = (0, 0);
            for (x, c, u) in &got {
                if *c == "c" { fresh += 1; } else { issued += 1; }
                match p.validate_token(&x.access_token).await { Ok(i) => check(i.client_id == *c && i.user_id == *u, "a token speaks for another client, user or scopes"), Err(_) => check(false, "a token just issued is refused") }
            }
            check(fresh <= 1, "one refresh token gives two tokens");
            check(issued == ops.iter().filter(|o| **o == 0).count(), "a token is not issued");
            let ended = ops.iter().any(|o| (1..4).contains(o));
            check(p.validate_token(&t.access_token).await.is_ok() != ended, "a replaced or revoked token is accepted, or one in force refused");
            check(!ended || p.refresh_token(&refresh).await.is_err(), "a used or revoked refresh token gives a token");
            if ops.iter().any(|o| *o == 1) && !ops.iter().any(|o| *o == 2 || *o == 3) { check(fresh == 1, "a refresh token in force is refused"); cover("raced"); }
        });
    }
}
