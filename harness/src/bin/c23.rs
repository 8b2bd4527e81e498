//! C23: authorization codes.
//! bound: codes for any client, redirect address, user and scopes of one byte each, without challenge, with any plain challenge of up to one byte (method named or left out), with the S256 challenge of a fixed verifier, with a challenge of one wrong byte or with an unknown method; exchanges with every present or absent client, address and (for plain challenges) verifier of up to two bytes, every grant type, the right, another or no code, at any second of a 256 s window around the expiry, followed by a second exchange that has everything right
//! bound: six spellings of the challenge method with four challenges and five verifiers
//! bound: two exchanges of one code at the same time, every interleaving at lock granularity (up to 10 decisions)
//! bound: two threads: every pair of the right exchange of a code, one by another client, issuing and exchanging another code and revoking what was granted, the second running at once before any atomic read-modify-write of the first (so between any two of its lock regions), or after it; no deadlock, and the outcome must be that of one of the two orders
//! bound: authorization requests for known and unknown clients with up to 2 registered addresses, any requested address of one byte, both response types, scope texts of up to 3 of the bytes r, w, blank
//! outside: client secrets and a client's own allowed scopes and grant types, which the provider does not consult; collisions of random codes
use pmcp::server::auth::oauth2::*;
use std::cell::RefCell;
use std::collections::HashMap;
use vph::*;

const T0: u64 = 1_700_000_000;
const VERIFIER: &str = "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk";
const S256: &str = "E9Melhoa2OwvFrEMTJguCHaoeK1t8URWbuGJSstw-cM"; // RFC 7636, appendix B
fn maybe(n: &str) -> Option<String> { if fixb(any_bool("present")) { Some(ascii_upto(n, 2)) } else { None } }
fn request(grant: GrantType, code: Option<String>, redirect: Option<String>, client: Option<String>, verifier: Option<String>) -> TokenRequest { TokenRequest { grant_type: grant, code, redirect_uri: redirect, client_id: client, client_secret: None, refresh_token: None, username: None, password: None, scope: None, code_verifier: verifier } }
struct W { p: InMemoryOAuthProvider, right: TokenRequest, wrong: TokenRequest, made: RefCell<Vec<String>> }
fn act(w: &W, op: usize) -> bool {
    match op {
        0 | 4 => { let t = once(w.p.exchange_code(&w.right)); let ok = t.is_ok(); if let Ok(t) = t { w.made.borrow_mut().push(t.access_token); } ok }
        1 => once(w.p.exchange_code(&w.wrong)).is_ok(),
        2 => { let c = once(w.p.create_authorization_code("c", "u", "r", vec![], None, None)).ok().unwrap(); let q = TokenRequest { code: Some(c), ..w.right.clone() }; let t = once(w.p.exchange_code(&q)); let ok = t.is_ok(); if let Ok(t) = t { w.made.borrow_mut().push(t.access_token); } ok }
        _ => { let t: Option<String> = w.made.borrow().first().cloned(); t.is_some_and(|t| once(w.p.revoke_token(&t)).is_ok()) }
    }
}
harness! {
    h_c23_methods {
        // every method over the same few texts, each as challenge and as verifier
        let p = InMemoryOAuthProvider::new("x");
        block_on(async {
            let texts = ["", "p", VERIFIER, S256];
            let (c, v) = (texts[pick("challenge", 4)], [None, Some(""), Some("p"), Some(VERIFIER), Some(S256)][pick("verifier", 5)]);
            let method = [None, Some("plain"), Some("S256"), Some("PLAIN"), Some("s256"), Some("")][pick("method", 6)];
            let code = p.create_authorization_code("c", "u", "r", vec![], Some(c.into()), method.map(|m| m.into())).await.ok().unwrap();
            let ok = p.exchange_code(&request(GrantType::AuthorizationCode, Some(code), Some("r".into()), Some("c".into()), v.map(|v| v.into()))).await.is_ok();
            let want = match method { None | Some("plain") => v == Some(c), Some("S256") => c == S256 && v == Some(VERIFIER), _ => false };
            check(ok == want, "a code is exchanged without the verifier of its challenge, or refused with it");
            cover(if ok { "verified" } else { "not verified" });
        });
    }
    h_c23_exchange {
        clock_real(T0, 0);
        let p = InMemoryOAuthProvider::new("x");
        block_on(async {
            let (client, user, redirect) = (ascii("client", 1), ascii("user", 1), ascii("redirect", 1));
            let scopes: Vec<String> = (0..pick("scopes", 3)).map(|_| ascii("scope", 1)).collect();
            let kind = pick("challenge", 6);
            let plain = if kind == 1 || kind == 2 { ascii_upto("plain", 1) } else { "p".to_string() };
            let mut wrong = S256.as_bytes().to_vec(); let bad = any_u8("bad"); assume(bad < 128 && bad != wrong[20]); wrong[20] = bad;
            let (challenge, method, right): (Option<String>, Option<&str>, Option<String>) = match kind { 0 => (None, None, None), 1 => (Some(plain.clone()), None, Some(plain.clone())), 2 => (Some(plain.clone()), Some("plain"), Some(plain.clone())), 3 => (Some(S256.into()), Some("S256"), Some(VERIFIER.into())), 4 => (Some(String::from_utf8(wrong).unwrap()), Some("S256"), None), _ => (Some(plain.clone()), Some("s256"), None) };
            let code = p.create_authorization_code(&client, &user, &redirect, scopes.clone(), challenge, method.map(|m| m.into())).await.expect("a code is not issued");
            let now = T0 + 500 + any_u8("t") as u64; clock_real(now, 0);
            // the attempt
            let grant = [GrantType::AuthorizationCode, GrantType::RefreshToken, GrantType::ClientCredentials, GrantType::Password][pick("grant", 4)].clone();
            let which = if grant == GrantType::AuthorizationCode { pick("code", 3) } else { 0 };
            let (c, r) = (maybe("c"), maybe("r"));
            let v = match pick("verifier", 3) { 0 => None, 1 => Some(if kind == 3 || kind == 4 { "x".to_string() } else { ascii_upto("v", 2) }), _ => Some(VERIFIER.to_string()) };
            let sent = match which { 0 => Some(code.clone()), 1 => Some(ascii("other", 2)), _ => None };
            let res = p.exchange_code(&request(grant.clone(), sent, r.clone(), c.clone(), v.clone())).await;
            let used = grant == GrantType::AuthorizationCode && which == 0;
            let proof = match (kind, &right) { (0, _) => true, (_, Some(w)) => eqo(v.as_deref(), Some(w)), _ => kind >= 4 && false };
            let ok = and(used, and(now <= T0 + 600, and(eqo(c.as_deref(), Some(&client)), and(eqo(r.as_deref(), Some(&redirect)), proof))));
            check(res.is_ok() == ok, "a code is exchanged without all that is required, or refused with it");
            let first = res.is_ok();
            if let Ok(t) = res {
                check(eqs(t.scope.as_deref().unwrap_or("?"), &scopes.join(" ")) && t.refresh_token.is_some(), "a token has other scopes than authorized");
                match p.validate_token(&t.access_token).await { Ok(i) => check(and(eqs(&i.client_id, &client), eqs(&i.user_id, &user)) && i.scopes.len() == scopes.len() && i.scopes.iter().zip(&scopes).all(|(a, b)| eqs(a, b)), "a token is for another client, user or scopes than authorized"), Err(_) => check(false, "a token just granted is refused") }
                cover("exchanged");
            } else { cover("refused"); }
            // and one with everything right
            let again = p.exchange_code(&request(GrantType::AuthorizationCode, Some(code), Some(redirect), Some(client), right.clone())).await;
            check(!(first && again.is_ok()), "a code is exchanged twice");
            if !used { let fine = kind == 0 || right.is_some(); check(again.is_ok() == and(fine, now <= T0 + 600), "a code is spoiled by a request that does not present it"); cover("second"); }
        });
    }
    h_c23_race {
        rt(async {
            clock_real(T0, 0);
            let p = InMemoryOAuthProvider::new("x");
            let code = p.create_authorization_code("c", "u", "r", vec![], None, None).await.unwrap();
            let got = RefCell::new(vec![]);
            let q = request(GrantType::AuthorizationCode, Some(code), Some("r".into()), Some("c".into()), None);
            let mut s = Sched::new();
            for _ in 0..2 { let (p, got, q) = (&p, &got, q.clone()); s.spawn(async move { if let Ok(t) = p.exchange_code(&q).await { got.borrow_mut().push(t); } }); }
            s.spawn(async { let _ = p.create_authorization_code("d", "v", "r", vec![], None, None).await; });
            check(s.run_tight("next", 10).await, "exchanges block each other for ever");
            drop(s);
            let got = got.into_inner();
            check(got.len() == 1, "a code is exchanged twice, or not at all");
            check(p.validate_token(&got[0].access_token).await.is_ok(), "a token just granted is refused");
            cover("raced");
        });
    }
    h_c23_threads {
        clock_real(T0, 0);
        threads(4, || {
            let p = InMemoryOAuthProvider::new("x");
            let code = once(p.create_authorization_code("c", "u", "r", vec![], None, None)).ok().unwrap();
            W { right: request(GrantType::AuthorizationCode, Some(code.clone()), Some("r".into()), Some("c".into()), None), wrong: request(GrantType::AuthorizationCode, Some(code), Some("r".into()), Some("d".into()), None), p, made: RefCell::new(Vec::with_capacity(4)) }
        }, act, |w| {
            let live = w.made.borrow().iter().filter(|t| once(w.p.validate_token(t)).is_ok()).count();
            (live, act(w, 0), act(w, 4))
        });
    }
    h_c23_authorize {
        block_on(async {
            let p = InMemoryOAuthProvider::new("x");
            let uris: Vec<String> = (0..pick("uris", 3)).map(|_| ascii("uri", 1)).collect();
            let types = [vec![], vec![ResponseType::Code], vec![ResponseType::Token], vec![ResponseType::Code, ResponseType::Token]][pick("types", 4)].clone();
            let given = fixb(any_bool("id given"));
            let reg = p.register_client(OAuthClient { client_id: if given { "c".into() } else { String::new() }, client_secret: None, client_name: "n".into(), redirect_uris: uris.clone(), grant_types: vec![], response_types: types.clone(), scopes: vec![], metadata: HashMap::new() }).await.expect("a client is not registered");
            check(!reg.client_id.is_empty() && reg.client_secret.as_ref().is_some_and(|s| !s.is_empty()) && (!given || reg.client_id == "c"), "a client is registered without id or secret");
            let known = fixb(any_bool("known"));
            let (uri, ty) = (ascii("redirect", 1), if fixb(any_bool("code")) { ResponseType::Code } else { ResponseType::Token });
            let scope = match pick("scope", 5) { 0 => "".to_string(), 1 => "read".into(), 2 => "write  read".into(), 3 => "read admin".into(), _ => over("s", 3, b"rw ") };
            let r = p.validate_authorization(&AuthorizationRequest { response_type: ty.clone(), client_id: if known { reg.client_id.clone() } else { format!("{}x", reg.client_id) }, redirect_uri: uri.clone(), scope: scope.clone(), state: None, code_challenge: None, code_challenge_method: None }).await;
            let listed = uris.iter().fold(false, |a, u| or(a, eqs(u, &uri)));
            let scopes = scope.split_whitespace().all(|s| s == "read" || s == "write");
            check(r.is_ok() == and(and(known, listed), types.contains(&ty) && scopes), "an authorization request is accepted without all that is required, or refused with it");
            if r.is_ok() { cover("authorized"); }
            match p.get_client(&reg.client_id).await { Ok(Some(c)) => check(c.client_secret == reg.client_secret && c.client_id == reg.client_id && c.redirect_uris.len() == uris.len(), "a client is stored with other data"), _ => check(false, "a registered client is unknown") }
        });
    }
}
