//! C25: authentication middleware.
//! bound: every scheme, token absent, any two bytes, or one of three issued tokens (live, revoked, expired at any second of a 256 s window around its expiry); required or optional
//! bound: required and granted scopes: up to 2 each of one byte, all or any; inner check failing or not
//! bound: client id and secret absent, any byte, the right one or not a string, for clients registered with and without a secret and one of which the provider stores none
//! bound: combinations of up to 3 checks with every outcome, with and without the rule that one must succeed
//! outside: other providers than the in-memory one; timing of the secret comparison
use async_trait::async_trait;
use pmcp::error::{Error, ErrorCode};
use pmcp::server::auth::middleware::*;
use pmcp::server::auth::oauth2::*;
use pmcp::types::auth::*;
use serde_json::json;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use vph::*;

const T0: u64 = 1_700_000_000;
fn info(scheme: AuthScheme, token: Option<String>) -> AuthInfo { AuthInfo { scheme, token, oauth: None, params: HashMap::new() } }
fn texts(n: &str) -> Vec<String> { (0..pick("count", 3)).map(|_| ascii(n, 1)).collect() }
/// A check with a fixed outcome that counts its calls.
struct Fixed(Option<AuthContext>, Arc<AtomicUsize>, bool);
#[async_trait]
impl AuthMiddleware for Fixed {
    async fn authenticate(&self, _: Option<&AuthInfo>) -> pmcp::Result<AuthContext> { self.1.fetch_add(1, SeqCst); self.0.clone().ok_or_else(|| Error::protocol(ErrorCode::AUTHENTICATION_REQUIRED, "no")) }
    fn is_required(&self) -> bool { self.2 }
}
fn ctx(c: &str, scopes: Vec<String>) -> AuthContext { AuthContext { client_id: c.into(), user_id: "u".into(), scopes, metadata: Default::default() } }
fn count() -> Arc<AtomicUsize> { Arc::new(AtomicUsize::new(0)) }
fn client(id: &str, secret: Option<&str>, scopes: Vec<String>) -> OAuthClient { OAuthClient { client_id: id.into(), client_secret: secret.map(|s| s.into()), client_name: "n".into(), redirect_uris: vec![], grant_types: vec![], response_types: vec![], scopes, metadata: HashMap::new() } }
/// The in-memory provider, which knows a client "q" without a secret besides.
struct Public(Arc<InMemoryOAuthProvider>);
#[async_trait]
impl OAuthProvider for Public {
    async fn register_client(&self, c: OAuthClient) -> pmcp::Result<OAuthClient> { self.0.register_client(c).await }
    async fn get_client(&self, id: &str) -> pmcp::Result<Option<OAuthClient>> { if id == "q" { Ok(Some(client("q", None, vec![]))) } else { self.0.get_client(id).await } }
    async fn validate_authorization(&self, r: &AuthorizationRequest) -> pmcp::Result<()> { self.0.validate_authorization(r).await }
    async fn create_authorization_code(&self, c: &str, u: &str, r: &str, s: Vec<String>, h: Option<String>, m: Option<String>) -> pmcp::Result<String> { self.0.create_authorization_code(c, u, r, s, h, m).await }
    async fn exchange_code(&self, r: &TokenRequest) -> pmcp::Result<AccessToken> { self.0.exchange_code(r).await }
    async fn create_access_token(&self, c: &str, u: &str, s: Vec<String>) -> pmcp::Result<AccessToken> { self.0.create_access_token(c, u, s).await }
    async fn refresh_token(&self, t: &str) -> pmcp::Result<AccessToken> { self.0.refresh_token(t).await }
    async fn revoke_token(&self, t: &str) -> pmcp::Result<()> { self.0.revoke_token(t).await }
    async fn validate_token(&self, t: &str) -> pmcp::Result<TokenInfo> { self.0.validate_token(t).await }
    async fn metadata(&self) -> pmcp::Result<OAuthMetadata> { self.0.metadata().await }
}
harness! {
    h_c25_bearer {
        clock_real(T0, 0);
        let p = Arc::new(InMemoryOAuthProvider::new("x"));
        block_on(async {
            let scopes = texts("scope");
            let a = p.create_access_token("c1", "u1", scopes.clone()).await.unwrap();
            let b = p.create_access_token("c2", "u2", vec![]).await.unwrap();
            p.revoke_token(&b.access_token).await.unwrap();
            let now = T0 + 3500 + any_u8("t") as u64; clock_real(now, 0);
            let required = fixb(any_bool("required"));
            let m = BearerTokenMiddleware::new(p.clone()).with_required(required);
            check(m.is_required() == required, "a check reports wrongly whether it is required");
            let which = pick("token", 5);
            let token = match which { 0 => None, 1 => Some(ascii("tok", 2)), 2 => Some(a.access_token.clone()), 3 => Some(b.access_token.clone()), _ => a.refresh_token.clone() };
            let s = pick("scheme", 5);
            let i = match s { 0 => None, 1 => Some(info(AuthScheme::Bearer, token)), 2 => Some(info(AuthScheme::None, token)), 3 => Some(info(AuthScheme::OAuth2, token)), _ => Some(info(AuthScheme::Custom("bearer".into()), token)) };
            match m.authenticate(i.as_ref()).await {
                Ok(c) => {
                    if i.is_none() { check(!required, "a request without credentials is admitted"); check(c.client_id == "anonymous" && c.user_id == "anonymous" && c.scopes.is_empty(), "an anonymous request has an identity or scopes"); cover("anonymous"); }
                    else {
                        check(s == 1 && which == 2, "a request is admitted without a valid token");
                        check(now <= T0 + 3600, "a request is admitted with an expired token");
                        check(c.client_id == "c1" && c.user_id == "u1" && c.scopes.len() == scopes.len() && c.scopes.iter().zip(&scopes).all(|(x, y)| eqs(x, y)), "a request is admitted under another identity or scopes");
                        cover("admitted");
                    }
                }
                Err(_) => { check(!(i.is_none() && !required) && !(s == 1 && which == 2 && fixb(now <= T0 + 3600)), "a request with valid credentials is refused"); cover("refused"); }
            }
        });
    }
    h_c25_scope {
        let (need, have) = (texts("need"), texts("have"));
        let all = fixb(any_bool("all")); let inner = fixb(any_bool("inner")); let req = fixb(any_bool("required"));
        let n = count();
        let f: Box<dyn AuthMiddleware> = Box::new(Fixed(if inner { Some(ctx("c", have.clone())) } else { None }, n.clone(), req));
        let m = if all { ScopeMiddleware::all(f, need.clone()) } else { ScopeMiddleware::any(f, need.clone()) };
        check(m.is_required() == req, "a check reports wrongly whether it is required");
        let has = |s: &String| have.iter().fold(false, |a, h| or(a, eqs(h, s)));
        let met = if all { need.iter().fold(true, |a, s| and(a, has(s))) } else { need.iter().fold(false, |a, s| or(a, has(s))) };
        match block_on(m.authenticate(None)) {
            Ok(c) => { check(inner, "a request the inner check refused is admitted"); check(met, "a request is admitted without the required scopes"); check(c.client_id == "c" && c.scopes.len() == have.len(), "a request is admitted under another identity or scopes"); cover("scopes"); }
            Err(_) => { check(!inner || !fixb(met), "a request with the required scopes is refused"); cover("no scopes"); }
        }
        check(n.load(SeqCst) == 1, "the inner check does not run once");
        let c = ctx("c", have.clone());
        let refs: Vec<&str> = need.iter().map(|s| s.as_str()).collect();
        check((if all { c.has_all_scopes(&refs) } else { c.has_any_scope(&refs) }) == met, "scopes are compared wrongly");
    }
    h_c25_client {
        let p = Arc::new(InMemoryOAuthProvider::new("x"));
        block_on(async {
            let secret = ascii("secret", 2);
            p.register_client(client("a", Some(&secret), vec!["s".into()])).await.unwrap();
            let auto = p.register_client(client("b", None, vec![])).await.unwrap();
            let m = ClientCredentialsMiddleware::new(Arc::new(Public(p.clone())));
            check(m.is_required(), "client credentials are optional");
            check(m.authenticate(None).await.is_err(), "a request without credentials is admitted");
            let mut i = info([AuthScheme::OAuth2, AuthScheme::Bearer][pick("scheme", 2)].clone(), None);
            let (ci, si) = (pick("client", 6), pick("secret", 5));
            let c = ascii("c", 1); let s = ascii_upto("s", 2);
            match ci { 0 => {} 1 => { i.params.insert("client_id".into(), json!(c)); } 2 => { i.params.insert("client_id".into(), json!("a")); } 3 => { i.params.insert("client_id".into(), json!("b")); } 4 => { i.params.insert("client_id".into(), json!("q")); } _ => { i.params.insert("client_id".into(), json!(7)); } }
            match si { 0 => {} 1 => { i.params.insert("client_secret".into(), json!(s)); } 2 => { i.params.insert("client_secret".into(), json!(secret)); } 3 => { i.params.insert("client_secret".into(), json!(auto.client_secret)); } _ => { i.params.insert("client_secret".into(), json!(null)); } }
            let name = match ci { 1 => Some(c.as_str()), 2 => Some("a"), 3 => Some("b"), 4 => Some("q"), _ => None };
            let said = match si { 1 => Some(s.as_str()), 2 => Some(secret.as_str()), 3 => auto.client_secret.as_deref(), _ => None };
            let ok = or(and(eqo(name, Some("a")), eqo(said, Some(&secret))), and(eqo(name, Some("b")), eqo(said, auto.client_secret.as_deref())));
            let r = m.authenticate(Some(&i)).await;
            check(r.is_ok() == ok, "wrong client credentials are admitted, or the right ones refused");
            if let Ok(x) = r { check(eqo(Some(&x.client_id), name) && x.user_id == x.client_id && x.scopes.len() == (x.client_id == "a") as usize, "a client is admitted under another identity or scopes"); cover("client"); }
        });
    }
    h_c25_composite {
        let k = pick("members", 4);
        let outs: Vec<(bool, bool)> = (0..k).map(|_| (fixb(any_bool("ok")), fixb(any_bool("required")))).collect();
        let any = fixb(any_bool("require any"));
        let ns: Vec<_> = (0..k).map(|_| count()).collect();
        let m = CompositeMiddleware::new(outs.iter().enumerate().map(|(j, o)| Box::new(Fixed(if o.0 { Some(ctx(["m0", "m1", "m2"][j], vec!["s".into()])) } else { None }, ns[j].clone(), o.1)) as Box<dyn AuthMiddleware>).collect());
        let m = if any || fixb(any_bool("set")) { m.with_require_any(any) } else { m.with_require_any(false) };
        let i = info(AuthScheme::Bearer, None);
        let first = outs.iter().position(|o| o.0);
        match block_on(m.authenticate(if fixb(any_bool("info")) { Some(&i) } else { None })) {
            Ok(c) => match first { Some(f) => { check(c.client_id == ["m0", "m1", "m2"][f], "a request is admitted under another identity or scopes"); cover("one of"); } None => { check(!any, "a request every check refused is admitted"); check(c.client_id == "anonymous" && c.scopes.is_empty(), "an anonymous request has an identity or scopes"); } },
            Err(_) => { check(first.is_none() && any, "a request one check admits is refused"); cover("none of"); }
        }
        for (j, n) in ns.iter().enumerate() { check(n.load(SeqCst) == (first.map_or(true, |f| j <= f)) as usize, "the checks are not tried in order until one admits"); }
        check(m.is_required() == (any && outs.iter().any(|o| o.1)), "a check reports wrongly whether it is required");
    }
}
