//! C13: middleware chains.
//! bound: chains of 0 to 4 members (thorough 5), each of which appends an arbitrary byte, suspends first or not, fails on an arbitrary byte of the message or not, or is one of the built-in members or the one before once more; seven kinds of error; all four directions; two messages in a row through one chain
//! outside: longer chains; members that run for ever
use async_trait::async_trait;
use pmcp::error::Error;
use pmcp::shared::{AuthMiddleware, LoggingMiddleware, Middleware, MiddlewareChain, RetryMiddleware, TransportMessage};
use pmcp::types::jsonrpc::*;
use std::sync::{Arc, Mutex};
use vph::*;

struct M { n: usize, add: u8, fail: bool, wait: bool, log: Arc<Mutex<Vec<(usize, u8)>>>, what: Arc<Mutex<Option<String>>> }
fn error(what: usize, n: usize) -> Error {
    match what { 0 => Error::validation(format!("member {n}")), 1 => Error::Cancelled, 2 => Error::Timeout(n as u64), 3 => Error::internal(format!("member {n}")), 4 => Error::protocol(pmcp::error::ErrorCode::METHOD_NOT_FOUND, format!("member {n}")), 5 => Error::Transport(pmcp::error::TransportError::ConnectionClosed), _ => Error::Authentication(format!("member {n}")) }
}
struct Yield(bool);
impl std::future::Future for Yield { type Output = (); fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> { if self.0 { std::task::Poll::Ready(()) } else { self.0 = true; cx.waker().wake_by_ref(); std::task::Poll::Pending } } }
impl M {
    async fn go(&self, dir: u8) -> pmcp::Result<()> {
        if self.wait { Yield(false).await; }
        self.log.lock().unwrap().push((self.n, dir));
        if self.fail { { let w = pick("error", 7); *self.what.lock().unwrap() = Some(error(w, self.n).to_string()); Err(error(w, self.n)) } } else { Ok(()) }
    }
}
#[async_trait]
impl Middleware for M {
    async fn on_request(&self, r: &mut JSONRPCRequest) -> pmcp::Result<()> { let x = self.go(0).await; r.method.push(self.add as char); x }
    async fn on_response(&self, r: &mut JSONRPCResponse) -> pmcp::Result<()> { let x = self.go(1).await; if let RequestId::String(s) = &mut r.id { s.push(self.add as char); } x }
    async fn on_send(&self, _: &TransportMessage) -> pmcp::Result<()> { self.go(2).await }
    async fn on_receive(&self, _: &TransportMessage) -> pmcp::Result<()> { self.go(3).await }
}
fn request(m: &str) -> JSONRPCRequest { JSONRPCRequest { jsonrpc: "2.0".into(), id: RequestId::from(1i64), method: m.into(), params: None } }
harness! {
    h_c13_chain {
        let n = pick("members", tier(5, 6) as u64);
        let log = Arc::new(Mutex::new(vec![]));
        let mut c = MiddlewareChain::new();
        let mut plan = vec![]; // (index, byte, fails)
        let what = Arc::new(Mutex::new(None));
        let mut last: Option<Arc<M>> = None;
        for i in 0..n {
            match pick("kind", 3 + last.is_some() as u64) {
                0 => c.add(match i % 3 { 0 => Arc::new(LoggingMiddleware::default()) as Arc<dyn Middleware>, 1 => Arc::new(AuthMiddleware::new("t".into())), _ => Arc::new(RetryMiddleware::default()) }),
                3 => { let m = last.clone().unwrap(); plan.push((m.n, m.add, m.fail)); c.add(m) } // the same one again
                k => {
                    let (add, fail) = (any_u8("byte"), any_bool("fails"));
                    assume(add < 128);
                    plan.push((i, add, fail));
                    let m = Arc::new(M { n: i, add, fail, wait: k == 2, log: log.clone(), what: what.clone() }); last = Some(m.clone()); c.add(m);
                }
            }
        }
        for dir in [pick("direction", 4), pick("direction", 4)] {
            log.lock().unwrap().clear();
            let first = ascii("first", 1);
            let (mut rq, mut rs) = (request(&first), JSONRPCResponse { jsonrpc: "2.0".into(), id: RequestId::String(first.clone()), payload: ResponsePayload::Result(serde_json::Value::Null) });
            let tm = TransportMessage::Response(rs.clone());
            let r = block_on(async { match dir { 0 => c.process_request(&mut rq).await, 1 => c.process_response(&mut rs).await, 2 => c.process_send(&tm).await, _ => c.process_receive(&tm).await } });
            let stop = plan.iter().position(|p| fixb(p.2));
            let ran = &plan[..stop.map_or(plan.len(), |k| k + 1)];
            let l = log.lock().unwrap().clone();
            check(l == ran.iter().map(|p| (p.0, dir as u8)).collect::<Vec<_>>(), "the members do not run once each in order up to the first failure");
            match (&r, stop) { (Ok(()), None) => cover("passed"), (Err(e), Some(_)) => { check(Some(e.to_string()) == *what.lock().unwrap(), "the error is not that of the failing member"); cover("stopped"); } _ => check(false, "the result is not that of the members") }
            let mut want = first.clone().into_bytes(); want.extend(ran.iter().map(|p| p.1));
            let seen = match dir { 0 => rq.method.into_bytes(), 1 => match rs.id { RequestId::String(s) => s.into_bytes(), _ => vec![] }, _ => want.clone() };
            check(eq(&seen, &want), "a member does not see what the one before it left");
            check(l.len() == ran.len(), "a member runs more than once");
        }
    }
}
