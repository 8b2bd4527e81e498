//! C15: batches.
//! bound: batches of 1 to 3 requests (thorough 4) with arbitrary one-byte ids and methods, handlers that answer at once or after 10, 20 or 40 ms with a result or an error, limits of 1 to 3 at once, no timeout or one of 30 ms, with and without the metrics wrapper
//! bound: batch texts of 0 to 2 members with arbitrary ids and methods (2 bytes), members that are no requests
//! outside: a limit of 0 (nothing may run); handlers that answer under another id than their request's; real parallelism (the futures are joined on one task)
use pmcp::shared::batch::*;
use pmcp::types::jsonrpc::*;
use pmcp::utils::parallel_batch::*;
use serde_json::json;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vph::*;

fn req(id: RequestId, m: String) -> JSONRPCRequest { JSONRPCRequest { jsonrpc: "2.0".into(), id, method: m, params: None } }
fn eqid(a: &RequestId, b: &RequestId) -> bool { match (a, b) { (RequestId::Number(a), RequestId::Number(b)) => a == b, (RequestId::String(a), RequestId::String(b)) => eqs(a, b), _ => false } }
#[derive(Default)]
struct St { now: usize, most: usize, started: Vec<usize> }
harness! {
    h_c15_order {
        let n = 1 + pick("n", tier(3, 4) as u64);
        let limit = 1 + pick("limit", 3);
        let to = fixb(any_bool("timeout"));
        let wrap = pick("wrap", 2);
        // (delay in steps of 10 ms, succeeds)
        let plan: Vec<(u64, bool)> = (0..n).map(|_| ([0, 1, 2, 4][pick("delay", 4)], fixb(any_bool("ok")))).collect();
        let reqs: Vec<JSONRPCRequest> = (0..n).map(|i| { let b = any_u8("id"); req(if i % 2 == 0 { RequestId::Number(b as i64) } else { assume(b < 128); RequestId::String((b as char).to_string()) }, format!("{i}{}", ascii("m", 1))) }).collect();
        let st = Arc::new(Mutex::new(St::default()));
        let (p2, s2) = (Arc::new(plan.clone()), st.clone());
        let handler = move |r: JSONRPCRequest| { let (p, s) = (p2.clone(), s2.clone()); async move {
            let i = (r.method.as_bytes()[0] - b'0') as usize;
            { let mut g = s.lock().unwrap(); g.now += 1; g.most = g.most.max(g.now); g.started.push(i); }
            struct Down(Arc<Mutex<St>>); impl Drop for Down { fn drop(&mut self) { self.0.lock().unwrap().now -= 1; } }
            let _d = Down(s);
            if p[i].0 > 0 { tokio::time::sleep(Duration::from_millis(10 * p[i].0)).await; }
            let payload = if p[i].1 { ResponsePayload::Result(json!(r.method)) } else { ResponsePayload::Error(JSONRPCError { code: -32000 - i as i32, message: r.method, data: None }) };
            JSONRPCResponse { jsonrpc: "2.0".into(), id: r.id, payload }
        } };
        let cfg = ParallelBatchConfig { max_concurrency: limit, fail_fast: false, request_timeout_ms: if to { Some(30) } else { None } };
        let rs = reqs.clone();
        let (out, met) = rt(async move { if wrap == 0 { (process_batch_parallel(rs, handler, cfg).await, None) } else { let b = BatchProcessor::new(cfg); let r = b.process(rs, handler).await; (r, Some(b.metrics().await)) } });
        let out = out.unwrap();
        check(out.len() == n, "a batch does not give one response per request");
        let (mut good, mut late) = (0, 0);
        for i in 0..n {
            check(eqid(&out[i].id, &reqs[i].id), "a response does not carry its request's id");
            let timed = to && plan[i].0 > 3;
            match &out[i].payload {
                ResponsePayload::Result(v) => { good += 1; check(!timed && plan[i].1 && v.as_str().is_some_and(|s| eqs(s, &reqs[i].method)), "a request gets another request's result") }
                ResponsePayload::Error(e) if timed => { late += 1; check(e.code == -32603 && e.data.is_none(), "a request that ran out of time is not reported so"); cover("late") }
                ResponsePayload::Error(e) => { check(!plan[i].1 && e.code == -32000 - i as i32 && eqs(&e.message, &reqs[i].method), "a request gets another request's error"); cover("failed") }
            }
        }
        let g = st.lock().unwrap();
        check(g.most <= limit, "more handlers run at once than allowed");
        check(g.started == (0..n).collect::<Vec<_>>(), "a handler does not run exactly once");
        check(g.now == 0, "a handler is left running");
        if let Some(m) = met { check(m.total_requests == n as u64 && m.successful_responses == good && m.timeout_responses == late && m.error_responses == n as u64 - good - late, "the metrics do not add up"); }
        cover("order");
    }
    h_c15_process {
        let form = pick("form", 4); // single, batch of 0, 1, 2
        let n = [1, 0, 1, 2][form];
        let reqs: Vec<JSONRPCRequest> = (0..n).map(|_| req(RequestId::String(ascii("id", 2)), ascii("m", 1))).collect();
        let b = if form == 0 { BatchRequest::Single(reqs[0].clone()) } else { BatchRequest::Batch(reqs.clone()) };
        check(b.len() == n && b.is_empty() == (form == 1) && b.is_batch() == (form != 0), "the size of a batch is wrong");
        let r = rt(process_batch_request(b, |r: JSONRPCRequest| async move { JSONRPCResponse { jsonrpc: "2.0".into(), id: r.id, payload: ResponsePayload::Result(json!(r.method)) } })).unwrap();
        let v = r.to_value().unwrap();
        check(if n == 1 { v.is_object() } else { v.as_array().is_some_and(|a| a.len() == n) }, "the answer to a batch has the wrong form");
        let out = r.into_responses();
        check(out.len() == n, "a batch does not give one response per request");
        for (o, q) in out.iter().zip(&reqs) { check(eqid(&o.id, &q.id) && matches!(&o.payload, ResponsePayload::Result(v) if v.as_str().is_some_and(|s| eqs(s, &q.method))), "a response is not that of its request"); }
        cover("process");
    }
    h_c15_wire {
        let n = pick("n", 3);
        let single = n == 1 && fixb(any_bool("single"));
        let items: Vec<serde_json::Value> = (0..n).map(|_| if fixb(any_bool("number")) { json!({"jsonrpc": "2.0", "id": any_u8("id") as i64 - 128, "method": ascii("m", 2), "params": {"a": ascii("p", 1)}}) } else { json!({"jsonrpc": "2.0", "id": ascii("ids", 2), "method": ascii("m", 2)}) }).collect();
        let v = if single { items[0].clone() } else { json!(items) };
        match BatchRequest::from_value(v.clone()) {
            Err(_) => check(false, "a batch of requests is refused"),
            Ok(b) => {
                check(veq(&b.to_value().unwrap(), &v), "a batch does not serialise as the list of its members");
                check(b.is_batch() != single && b.len() == n, "the size of a batch is wrong");
                let l = b.into_requests();
                check(l.len() == n && l.iter().zip(&items).fold(true, |r, (q, i)| and(r, veq(&serde_json::to_value(q).unwrap(), i))), "the members of a batch change");
                cover("wire");
            }
        }
        let bad = [json!(null), json!(1), json!(ascii("s", 2)), json!({"jsonrpc": "2.0", "method": ascii("m", 1)}), json!({"id": any_u8("id") as i64 - 128, "jsonrpc": "2.0"}), json!(true)][pick("bad", 6)].clone();
        let mut l = items.clone(); l.push(bad.clone());
        check(BatchRequest::from_value(bad).is_err() && BatchRequest::from_value(json!(l)).is_err(), "something that is no request is taken for one");
    }
    h_c15_resp {
        let n = pick("n", 3);
        let rs: Vec<JSONRPCResponse> = (0..n).map(|_| JSONRPCResponse { jsonrpc: "2.0".into(), id: RequestId::Number(any_u8("id") as i64 - 128), payload: if fixb(any_bool("ok")) { ResponsePayload::Result(json!(ascii("r", 1))) } else { ResponsePayload::Error(JSONRPCError { code: any_u8("code") as i32 - 200, message: ascii("e", 1), data: None }) } }).collect();
        let b = BatchResponse::from_responses(rs.clone());
        let v = b.to_value().unwrap();
        let want = if n == 1 { serde_json::to_value(&rs[0]).unwrap() } else { serde_json::to_value(&rs).unwrap() };
        check(veq(&v, &want), "a batch of responses does not serialise as the list of its members");
        match serde_json::from_value::<BatchResponse>(v.clone()) { Err(_) => check(false, "a batch of responses is refused"), Ok(c) => check(veq(&c.to_value().unwrap(), &want), "a batch of responses changes on the way") }
        let l = b.into_responses();
        check(l.len() == n && l.iter().zip(&rs).fold(true, |r, (p, q)| and(r, veq(&serde_json::to_value(p).unwrap(), &serde_json::to_value(q).unwrap()))), "the members of a batch of responses change");
    }
}
