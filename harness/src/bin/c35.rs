//! C35: OIDC discovery and token requests.
//! bound: discovery with up to 3 (thorough 4) attempts allowed, or none, any waiting time of three, four forms of issuer address; each answer one of: none, any status (100 to 599) with a good document, a document cut short, or one without a required field; every letter in the document
//! bound: code exchange and refresh with any one character (thorough two) as code or refresh token, redirect address, verifier or scope (one of them at a time), any letter as client id and secret; with and without secret, verifier, scope; any status, with a token with and without each optional field, a token cut short or another text, or no answer
//! outside: the HTTP client library itself, redirects, TLS (a stand-in takes the requests and gives the answers, and writes forms and basic credentials); the document naming another issuer than asked; an answer lost half-way; addresses that themselves contain the words by which network failures are told (CORS, network, timeout, connection)
//! stub: reqwest's Client, RequestBuilder and Response (src/vp_http.rs, compiled under --cfg pmcp_vp)
use axum::http::HeaderMap;
use pmcp::client::auth::*;
use pmcp::vp_http::{Reply, Seen, HANDLER};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::mpsc::unbounded_channel;
use vph::*;

type Net = Arc<Mutex<Vec<Seen>>>;
/// A server that gives these answers in turn (`None`: cannot be reached).
fn net(answers: Vec<Option<(u16, String)>>) -> Net {
    let n: Net = Default::default();
    let m = n.clone();
    let mut answers = answers.into_iter();
    *HANDLER.lock() = Some(Box::new(move |s| {
        m.lock().unwrap().push(s);
        let reply = answers.next().flatten().map(|(status, body)| {
            let (tx, rx) = unbounded_channel();
            let b = body.into_bytes();
            let half = b.len() / 2;
            tx.send(Ok(b[..half].to_vec())).ok();
            tx.send(Ok(b[half..].to_vec())).ok();
            Reply { status, headers: HeaderMap::new(), body: rx }
        });
        Box::pin(async move { tokio::task::yield_now().await; reply })
    }));
    n
}
fn letter(n: &str) -> char { let b = any_u8(n); assume(b >= b'a' && b <= b'z'); b as char }
fn header(s: &Seen, name: &str, want: Option<&str>) -> bool {
    let all: Vec<_> = s.headers.get_all(name).iter().collect();
    match want { None => all.is_empty(), Some(w) => all.len() == 1 && eqs(all[0].to_str().unwrap_or("?"), w) }
}
/// The pairs of a posted form.
fn form(body: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
    fn hex(b: u8) -> u8 { if b >= b'a' { b - b'a' + 10 } else if b >= b'A' { b - b'A' + 10 } else { b - b'0' } }
    let mut all = vec![(vec![], vec![])];
    let (mut i, mut value) = (0, false);
    while i < body.len() {
        let last = all.last_mut().unwrap();
        let to = if value { &mut last.1 } else { &mut last.0 };
        match body[i] {
            b'=' if !value => value = true,
            b'&' => { all.push((vec![], vec![])); value = false; }
            b'+' => to.push(b' '),
            b'%' => { to.push(hex(body[i + 1]) * 16 + hex(body[i + 2])); i += 2; }
            b => to.push(b),
        }
        i += 1;
    }
    all
}
fn base64(b: &[u8]) -> String {
    let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 { o.push(if k <= c.len() { t[(n >> (18 - 6 * k) & 63) as usize] as char } else { '=' }); }
    }
    o
}
fn one(s: &Option<String>, c: Option<char>) -> bool { let c = c.map(|c| c.to_string()); eqo(s.as_deref(), c.as_deref()) }

harness! {
    h_c35_discover {
        rt(async {
            let max = pick("retries", 4 + tier(0, 1) as u64);
            let allowed = max.max(1);
            let wait = [0u64, 1, 500][pick("delay", 3)];
            let (issuer, base) = [("http://h", "http://h"), ("http://h/", "http://h"), ("http://h/a//", "http://h/a"), ("https://h:1/a/b", "https://h:1/a/b")][pick("issuer", 4)];
            // how many times the server cannot be reached, and the answer after that
            let away = pick("away", allowed as u64 + 1);
            let (a, b, opt) = (letter("issuer"), letter("endpoint"), pick("optional", 2) == 1);
            let mut doc = format!(r#"{{"issuer":"{a}","authorization_endpoint":"{b}","token_endpoint":"t{b}",{}"response_types_supported":["code"],"grant_types_supported":["authorization_code","refresh_token"],"scopes_supported":["{a}"],"token_endpoint_auth_methods_supported":[],"code_challenge_methods_supported":["S256"]}}"#, if opt { format!(r#""jwks_uri":"{a}{b}","#) } else { String::new() });
            let form = pick("form", 3);
            if form == 1 { doc.pop(); }
            if form == 2 { doc = doc.replace("token_endpoint\":", "token_point\":"); }
            let status = if form == 0 && away < allowed { any_in("status", 100, 599) as u16 } else { 200 };
            let mut answers: Vec<Option<(u16, String)>> = vec![None; away];
            answers.push(Some((status, doc)));
            let n = net(answers);
            let began = tokio::time::Instant::now();
            let r = if max == 3 && wait == 500 && pick("default", 2) == 1 { OidcDiscoveryClient::new() } else { OidcDiscoveryClient::with_settings(max, Duration::from_millis(wait)) }.discover(issuer).await;
            let g = n.lock().unwrap();
            check(g.len() <= allowed, "discovery asks more often than allowed");
            check(g.len() == (away + 1).min(allowed), "discovery gives up although the server could not be reached, or asks again although it answered");
            check(began.elapsed() == Duration::from_millis(wait * (g.len() as u64 - 1)), "discovery does not wait between its attempts");
            for s in g.iter() { check(s.method.as_str() == "GET" && eqs(&s.url, &format!("{base}/.well-known/openid-configuration")) && s.body.is_empty() && header(s, "accept", Some("application/json")), "discovery asks for something else than the issuer's document"); }
            let good = away < allowed && form == 0 && status >= 200 && status < 300;
            check(r.is_ok() == good, "discovery gives a document that was not answered, or none although it was");
            if let Ok(d) = r {
                let u = |x: &str, w: String| eqs(x, &w);
                check(u(&d.issuer, a.to_string()) && u(&d.authorization_endpoint, b.to_string()) && u(&d.token_endpoint, format!("t{b}")) && eqo(d.jwks_uri.as_deref(), if opt { Some(format!("{a}{b}")) } else { None }.as_deref()) && d.scopes_supported.len() == 1 && u(&d.scopes_supported[0], a.to_string()) && d.grant_types_supported.len() == 2 && d.code_challenge_methods_supported == ["S256"] && d.userinfo_endpoint.is_none() && d.registration_endpoint.is_none(), "discovery gives another document than was answered");
                cover("document");
            } else { cover("none"); }
        });
    }
    h_c35_token {
        rt(async {
            let refresh = pick("refresh", 2) == 1;
            let sent = pick("answer", 4);
            let which = if sent == 0 { ["code", "redirect", "extra"][pick("text", 3)] } else { "" };
            let text = |n: &str| if n == which { ascii(n, tier(1, 2)) } else { "x y&=%+".to_string() };
            let (code, to) = (text("code"), if refresh { String::new() } else { text("redirect") });
            let extra = if pick("extra", 2) == 1 { Some(text("extra")) } else { None };
            let (id, secret) = (letter("client").to_string(), if pick("secret", 2) == 1 { Some(letter("secret").to_string()) } else { None });
            let (a, b) = (letter("token"), letter("other"));
            let opt = if sent == 1 { pick("fields", 8) } else { 7 };
            let f = |k: usize, t: String| if opt >> k & 1 == 1 { t } else { String::new() };
            let mut body = format!(r#"{{"access_token":"{a}","token_type":"{b}"{}{}{}}}"#, f(0, r#","expires_in":3600"#.into()), f(1, format!(r#","refresh_token":"{b}""#)), f(2, format!(r#","scope":"{a}""#)));
            if sent == 2 { if pick("short", 2) == 1 { body.pop(); } else { body = format!("{a}{b}"); } }
            let status = if sent == 1 { any_in("status", 100, 599) as u16 } else { 200 };
            let n = net(vec![if sent == 3 { None } else { Some((status, body.clone())) }, Some((200, "{}".into()))]);
            let c = TokenExchangeClient::new();
            let r = if refresh { c.refresh_token("http://h/t", &code, &id, secret.as_deref(), extra.as_deref()).await } else { c.exchange_code("http://h/t", &code, &id, secret.as_deref(), &to, extra.as_deref()).await };
            let g = n.lock().unwrap();
            check(g.len() == 1, "a grant is presented other than once");
            check(g[0].method.as_str() == "POST" && g[0].url == "http://h/t" && header(&g[0], "content-type", Some("application/x-www-form-urlencoded")) && header(&g[0], "accept", Some("application/json")), "a grant is not posted as a form to the address given");
            let mut want: Vec<(&str, &str)> = vec![("client_id", &id)];
            if refresh { want.extend([("grant_type", "refresh_token"), ("refresh_token", code.as_str())]); if let Some(e) = &extra { want.push(("scope", e)); } }
            else { want.extend([("grant_type", "authorization_code"), ("code", code.as_str()), ("redirect_uri", to.as_str())]); if let Some(e) = &extra { want.push(("code_verifier", e)); } }
            let got = form(&g[0].body);
            let mut fine = got.len() == want.len();
            for (k, v) in &want { fine = fine && got.iter().filter(|p| p.0 == k.as_bytes()).count() == 1 && got.iter().any(|p| p.0 == k.as_bytes() && eq(&p.1, v.as_bytes())); }
            check(fine, "another grant is presented than was asked for");
            let basic = secret.as_ref().map(|s| format!("Basic {}", base64(format!("{id}:{s}").as_bytes())));
            check(header(&g[0], "authorization", basic.as_deref()), "the client's credentials are not presented, or others");
            let good = sent < 2 && status >= 200 && status < 300;
            check(r.is_ok() == good, "a token is given that was not answered, or none although it was");
            match r {
                Ok(t) => { check(one(&Some(t.access_token), Some(a)) && one(&Some(t.token_type), Some(b)) && t.expires_in == (opt & 1 == 1).then_some(3600) && one(&t.refresh_token, (opt & 2 != 0).then_some(b)) && one(&t.scope, (opt & 4 != 0).then_some(a)), "another token is given than was answered"); cover("token"); }
                Err(e) => { if sent == 1 { check(has(&e.to_string(), &body), "the answer's error text is lost"); } cover("error"); }
            }
        });
    }
}
