//! C28: the client.
//! bound: every operation with any one-character text and any one-byte argument, before the handshake, after a failed one and after a successful one, with all, none, all but one or only one of the server's capabilities declared (resources with and without subscriptions)
//! bound: answers: the result, an error with any one-byte code, a result of another shape, a request instead, the end of the connection, each after up to 2 messages that are not the answer (notification, response to another or an earlier request); a message of the client may fail to be sent
//! bound: two operations at the same time on clones of one client, answered in order; every interleaving (up to 10 decisions)
//! outside: a server that never answers (the operation waits); cancelling an operation that waits; answers of other versions of the result types
use pmcp::error::{Error, ErrorCode, Result, TransportError};
use pmcp::shared::{Transport, TransportMessage};
use pmcp::types::jsonrpc::{JSONRPCError, JSONRPCResponse, ResponsePayload};
use pmcp::types::*;
use pmcp::Client;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use vph::*;

/// what the peer does when asked for a message; `id` stands for the last request's
enum In { Result(Value), Error(i32), Note, Other, Request, Closed }
#[derive(Default)]
struct State { sent: Vec<TransportMessage>, inn: VecDeque<In>, ids: Vec<RequestId>, fail: Option<usize>, echo: bool }
#[derive(Clone, Default)]
struct Link(Arc<Mutex<State>>);
impl std::fmt::Debug for Link { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Link") } }
fn answer(id: RequestId, payload: ResponsePayload<Value, JSONRPCError>) -> TransportMessage { TransportMessage::Response(JSONRPCResponse { jsonrpc: "2.0".into(), id, payload }) }
#[async_trait::async_trait]
impl Transport for Link {
    async fn send(&mut self, m: TransportMessage) -> Result<()> {
        if self.0.lock().unwrap().echo { tokio::task::yield_now().await; }
        let mut s = self.0.lock().unwrap();
        if s.fail == Some(s.sent.len()) { return Err(Error::Transport(TransportError::Io("x".into()))); }
        if let TransportMessage::Request { id, .. } = &m { s.ids.push(id.clone()); }
        s.sent.push(m); Ok(())
    }
    async fn receive(&mut self) -> Result<TransportMessage> {
        loop {
            {
                let mut s = self.0.lock().unwrap();
                if s.echo { // the name asked for comes back, oldest request first
                    if !s.ids.is_empty() {
                        let id = s.ids.remove(0);
                        let r = s.sent.iter().find_map(|m| match m { TransportMessage::Request { id: i, request } if *i == id => Some(serde_json::to_value(request).unwrap()), _ => None }).unwrap();
                        return Ok(answer(id, ResponsePayload::Result(json!({"content": [{"type": "text", "text": r["params"]["name"]}]}))));
                    }
                } else {
                    let id = s.ids.last().cloned();
                    let i = s.inn.pop_front();
                    return Ok(match (i, id) {
                        (Some(In::Result(v)), Some(id)) => answer(id, ResponsePayload::Result(v)),
                        (Some(In::Error(c)), Some(id)) => answer(id, ResponsePayload::Error(JSONRPCError { code: c, message: "no".into(), data: None })),
                        (Some(In::Note), _) => TransportMessage::Notification(Notification::Server(ServerNotification::ToolsChanged)),
                        (Some(In::Other), id) => { let first = s.ids[0].clone(); let o = if s.ids.len() > 1 && Some(&first) != id.as_ref() { first } else { RequestId::String("other".into()) }; answer(o, ResponsePayload::Result(json!({"tools": [{"name": "stale", "inputSchema": {}}], "prompts": [], "resources": [], "protocolVersion": "2024-11-05", "capabilities": {}, "serverInfo": {"name": "stale", "version": "0"}}))) }
                        (Some(In::Request), _) => TransportMessage::Request { id: RequestId::Number(77), request: Request::Server(Box::new(ServerRequest::ListRoots)) },
                        _ => return Err(Error::Transport(TransportError::ConnectionClosed)),
                    });
                }
            }
            tokio::task::yield_now().await;
        }
    }
    async fn close(&mut self) -> Result<()> { Ok(()) }
}
impl Link {
    fn next(&self, i: Vec<In>) { self.0.lock().unwrap().inn = i.into(); }
    fn sent(&self) -> Vec<TransportMessage> { self.0.lock().unwrap().sent.clone() }
    fn count(&self) -> usize { self.0.lock().unwrap().sent.len() }
}
const NONE: usize = 6;
/// which of tools, prompts, resources, logging, completions, sampling are declared, and subscriptions
struct Caps([bool; 6], bool);
fn caps() -> Caps {
    let mut c = [false; 6];
    let k = pick("declared", 2); let i = pick("which", 7);
    for j in 0..6 { c[j] = (k == 0) != (i == j); }
    Caps(c, c[2] && fixb(any_bool("subscriptions")))
}
fn handshake(c: &Caps, v: &str) -> Value {
    let mut o = json!({});
    for (i, k) in ["tools", "prompts", "resources", "logging", "completions", "sampling"].iter().enumerate() { if c.0[i] { o[*k] = if i == 2 && c.1 { json!({"subscribe": true}) } else { json!({}) }; } }
    json!({"protocolVersion": v, "capabilities": o, "serverInfo": {"name": "srv", "version": "9"}, "instructions": "do"})
}
fn client_caps(roots: usize) -> ClientCapabilities { ClientCapabilities { roots: match roots { 0 => None, n => Some(RootsCapabilities { list_changed: n == 2 }) }, ..Default::default() } }
const OPS: [(&str, usize); 14] = [("ping", NONE), ("logging/setLevel", 3), ("tools/list", 0), ("tools/call", 0), ("prompts/list", 1), ("prompts/get", 1), ("resources/list", 2), ("resources/templates/list", 2), ("resources/read", 2), ("resources/subscribe", 2), ("resources/unsubscribe", 2), ("completion/complete", 4), ("sampling/createMessage", 5), ("roots", NONE)];
/// the operation, its parameters, a result and that result as returned
fn parts(op: usize, t: &str, n: u8) -> (Value, Value) {
    match op {
        0 => (Value::Null, json!({})),
        1 => (json!({"level": "error"}), json!({})),
        2 => (json!({"cursor": t}), json!({"tools": [{"name": t, "inputSchema": {"n": n}}], "nextCursor": t})),
        3 => (json!({"name": t, "arguments": {"n": n}}), json!({"content": [{"type": "text", "text": t}], "isError": true})),
        4 => (json!({"cursor": t}), json!({"prompts": [{"name": t}]})),
        5 => (json!({"name": t, "arguments": {"k": t}}), json!({"description": t, "messages": [{"role": "user", "content": {"type": "text", "text": t}}]})),
        6 => (json!({"cursor": t}), json!({"resources": [{"uri": t, "name": "n"}], "nextCursor": t})),
        7 => (json!({"cursor": t}), json!({"resourceTemplates": [{"uriTemplate": t, "name": "n"}]})),
        8 => (json!({"uri": t}), json!({"contents": [{"type": "text", "text": t}]})),
        9 | 10 => (json!({"uri": t}), json!({})),
        11 => (json!({"ref": {"type": "ref/prompt", "name": t}, "argument": {"name": "a", "value": t}}), json!({"completion": {"values": [t], "total": n, "hasMore": true}})),
        _ => (json!({"messages": [{"role": "user", "content": {"type": "text", "text": t}}], "includeContext": "none", "maxTokens": n}), json!({"content": {"type": "text", "text": t}, "model": "m"})),
    }
}
async fn call(c: &Client<Link>, op: usize, t: &str, n: u8) -> Result<Value> {
    let t = t.to_string(); let cur = Some(t.clone());
    let unit = json!({});
    Ok(match op {
        0 => { c.ping().await?; unit }
        1 => { c.set_logging_level(LoggingLevel::Error).await?; unit }
        2 => serde_json::to_value(c.list_tools(cur).await?).unwrap(),
        3 => serde_json::to_value(c.call_tool(t, json!({"n": n})).await?).unwrap(),
        4 => serde_json::to_value(c.list_prompts(cur).await?).unwrap(),
        5 => serde_json::to_value(c.get_prompt(t.clone(), [("k".to_string(), t)].into_iter().collect()).await?).unwrap(),
        6 => serde_json::to_value(c.list_resources(cur).await?).unwrap(),
        7 => serde_json::to_value(c.list_resource_templates(cur).await?).unwrap(),
        8 => serde_json::to_value(c.read_resource(t).await?).unwrap(),
        9 => { c.subscribe_resource(t).await?; unit }
        10 => { c.unsubscribe_resource(t).await?; unit }
        11 => serde_json::to_value(c.complete(CompleteRequest { r#ref: CompletionReference::Prompt { name: t.clone() }, argument: CompletionArgument { name: "a".into(), value: t } }).await?).unwrap(),
        12 => serde_json::to_value(c.create_message(CreateMessageParams { messages: vec![SamplingMessage { role: Role::User, content: Content::Text { text: t } }], model_preferences: None, system_prompt: None, include_context: Default::default(), temperature: None, max_tokens: Some(n as u32), stop_sequences: None, metadata: None }).await?).unwrap(),
        _ => { c.send_roots_list_changed().await?; unit }
    })
}
fn wire(m: &TransportMessage) -> (Option<RequestId>, Value) { match m { TransportMessage::Request { id, request } => (Some(id.clone()), serde_json::to_value(request).unwrap()), TransportMessage::Notification(n) => (None, serde_json::to_value(n).unwrap()), TransportMessage::Response(_) => (None, Value::Null) } }
harness! {
    h_c28_operation {
        block_on(async {
            let link = Link::default();
            let mut c = Client::new(link.clone());
            let (op, d, roots) = (pick("op", 14), caps(), pick("roots", 3));
            if op != 13 { assume(roots == 0); }
            link.next(vec![In::Result(handshake(&d, "2025-03-26"))]);
            check(c.initialize(client_caps(roots)).await.is_ok(), "a good handshake fails");
            let before = link.count();
            let (t, n) = (ascii("t", 1), any_u8("n"));
            let (params, res) = parts(op, &t, n);
            // what the server does: up to two other messages, then its answer
            let other = pick("before it", 5);
            let mut inn = match other { 0 => vec![], 1 => vec![In::Note], 2 => vec![In::Other], 3 => vec![In::Other, In::Note], _ => vec![In::Note, In::Other] };
            let a = pick("answer", 5);
            inn.push(match a { 0 => In::Result(res.clone()), 1 => In::Error(any_u8("code") as i32), 2 => In::Result(json!([1])), 3 => In::Request, _ => In::Closed });
            link.next(inn);
            let allowed = match op { 9 => d.1, 13 => roots == 2, _ => OPS[op].1 == NONE || d.0[OPS[op].1] };
            let fail = allowed && fixb(any_bool("send fails"));
            if fail { link.0.lock().unwrap().fail = Some(before); }
            let r = call(&c, op, &t, n).await;
            let sent = link.sent();
            if !allowed { check(r.is_err() && sent.len() == before, "an operation without its capability is sent or succeeds"); cover("not permitted"); return; }
            if fail { check(r.is_err() && sent.len() == before, "an operation that could not be sent succeeds"); return; }
            check(sent.len() == before + 1, "an operation is not sent once");
            let (id, w) = wire(&sent[before]);
            if op == 13 { check(id.is_none() && w == json!({"method": "notifications/roots/list_changed"}) && r.is_ok(), "the change is not announced"); cover("announced"); return; }
            check(w["method"] == json!(OPS[op].0) && veq(&w["params"], &params), "what is sent is not the operation");
            check(id.is_some() && sent[..before].iter().all(|m| wire(m).0 != id), "an operation has no id of its own");
            let unit = matches!(op, 0 | 1 | 9 | 10);
            match (a, r) {
                (0, Ok(v)) => { check(veq(&v, &res), "an operation does not return the server's result"); cover("result"); }
                (0, Err(_)) => check(false, "an operation fails though the server answered"),
                (1, Err(e)) => { check(matches!(&e, Error::Protocol { message, .. } if message == "no"), "an operation does not return the server's error"); cover("error"); }
                (2, r) => { check(unit || r.is_err(), "an operation succeeds on another answer"); cover("other shape"); }
                (_, r) => { check(r.is_err(), "an operation succeeds without an answer"); cover("no answer"); }
            }
            // the next operation is not confused by what came before
            link.next(vec![In::Result(json!({}))]);
            check(c.ping().await.is_ok(), "an operation fails after another one");
            let all = link.sent(); let id2 = wire(&all[all.len() - 1]).0;
            check(id2.is_some() && id2 != id, "two operations have one id");
        });
    }
    h_c28_handshake {
        block_on(async {
            let link = Link::default();
            let mut c = Client::new(link.clone());
            let op = pick("op", 14);
            let d = Caps([true; 6], true);
            if fixb(any_bool("early")) { check(call(&c, op, "x", 1).await.is_err() && link.count() == 0, "an operation is sent before the handshake"); cover("early"); }
            const V: [&str; 4] = ["2024-10-07", "2024-11-05", "2025-03-26", "2025-06-18"];
            let k = pick("answer", 7);
            let v = match k { 0 => V[pick("version", 4)].to_string(), 1 => { let mut b = V[pick("version", 4)].as_bytes().to_vec(); let x = any_u8("c"); assume(x < 128); b[9] = x; String::from_utf8(b).unwrap() } _ => "2025-03-26".into() };
            link.next(vec![match k { 0 | 1 | 6 => In::Result(handshake(&d, &v)), 2 => In::Error(5), 3 => In::Result(json!({})), 4 => In::Request, _ => In::Closed }]);
            if k == 6 { link.0.lock().unwrap().fail = Some(pick("fails", 2)); }
            let r = c.initialize(client_caps(2)).await;
            let good = fixb(k <= 1 && V.iter().fold(false, |a, w| or(a, eqs(w, &v))));
            check(r.is_ok() == good, "a handshake succeeds without a supported answer, or fails with one");
            let sent = link.sent();
            if k != 6 || !sent.is_empty() {
                let (id, w) = wire(&sent[0]);
                check(id.is_some() && w["method"] == json!("initialize") && V.contains(&w["params"]["protocolVersion"].as_str().unwrap_or("?")) && w["params"]["capabilities"]["roots"]["listChanged"] == json!(true) && w["params"]["clientInfo"]["name"] == json!("pmcp-client"), "the handshake is not asked for");
            }
            if good {
                check(sent.len() == 2 && wire(&sent[1]) == (None, json!({"method": "notifications/initialized"})), "the handshake is not completed");
                let i = r.unwrap();
                check(i.server_info.name == "srv" && c.get_instructions() == Some("do") && c.get_server_version().is_some_and(|s| s.version == "9") && c.get_server_capabilities().is_some_and(|s| s.sampling.is_some() && s.tools.is_some()), "what the server announced is not kept");
                check(c.initialize(client_caps(2)).await.is_err() && link.count() == 2, "a second handshake is made");
                cover("good");
            } else {
                link.0.lock().unwrap().fail = None;
                let n = link.count();
                check(call(&c, op, "x", 1).await.is_err() && link.count() == n, "an operation is sent after a failed handshake");
                link.next(vec![In::Result(handshake(&d, "2025-06-18"))]);
                check(c.initialize(client_caps(2)).await.is_ok(), "a handshake cannot be repeated after a failed one");
                cover("failed");
            }
        });
    }
    h_c28_two {
        rt(async {
            let link = Link::default();
            let mut c = Client::new(link.clone());
            link.next(vec![In::Result(handshake(&Caps([true; 6], true), "2025-03-26"))]);
            check(c.initialize(client_caps(0)).await.is_ok(), "a good handshake fails");
            { let mut s = link.0.lock().unwrap(); s.ids.clear(); s.echo = true; }
            let got = RefCell::new(vec![]);
            let mut s = Sched::new();
            for n in ["x", "y"] { let (c, got) = (c.clone(), &got); s.spawn(async move { let r = c.call_tool(n.to_string(), json!({})).await; got.borrow_mut().push((n, r.map(|r| serde_json::to_value(r).unwrap()).unwrap_or(Value::Null))); }); }
            check(s.run_all("next", 10), "operations wait for each other for ever");
            drop(s);
            check(got.borrow().iter().all(|(n, v)| v["content"][0]["text"] == json!(n)), "an operation returns the answer to another one");
            cover("both");
        });
    }
}
