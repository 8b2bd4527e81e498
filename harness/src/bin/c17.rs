//! C17: request dispatch of the server.
//! bound: one request of every client and server request type under any one-byte numeric or one-character text id, any one-character tool, prompt, resource or cursor text and any one-byte argument, against a server with 2 answering and one failing tool and prompt, with and without (answering or failing) resource and sampling handlers, before or after initialisation
//! bound: connections of 3 (thorough 4) items, each a request (initialise, tool call, list, ping, request meant for a client), a notification, a response, a message that cannot be read; the connection then ends, is lost, or stays open; a message of the server may fail to be sent
//! bound: initialisation asking for any supported version, any version text of up to 2 characters, or a supported one with any one character replaced
//! outside: subscribe, unsubscribe, complete and setLevel, which are acknowledged without a handler; handlers that panic or never return (requests of one connection are handled one after another); notifications sent by the server while it waits for a message
use pmcp::error::{Error, Result, TransportError};
use pmcp::shared::{Transport, TransportMessage};
use pmcp::types::jsonrpc::{JSONRPCResponse, ResponsePayload};
use pmcp::types::*;
use pmcp::{PromptHandler, RequestHandlerExtra, ResourceHandler, SamplingHandler, Server, ToolHandler};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::sync::{Arc, Mutex};
use vph::*;

#[derive(Clone, Default)]
struct Log(Arc<Mutex<Vec<(String, String, Value)>>>); // handler, request id, arguments
impl Log { fn put(&self, h: &str, x: &RequestHandlerExtra, a: Value) { self.0.lock().unwrap().push((h.to_string(), x.request_id.clone(), a)); } }
struct H(&'static str, bool, Log);
impl H { fn out<T>(&self, v: T) -> Result<T> { if self.1 { Err(Error::internal("no")) } else { Ok(v) } } }
#[async_trait::async_trait]
impl ToolHandler for H { async fn handle(&self, args: Value, x: RequestHandlerExtra) -> Result<Value> { self.2.put(self.0, &x, args); self.out(json!({"by": self.0})) } }
#[async_trait::async_trait]
impl PromptHandler for H { async fn handle(&self, args: HashMap<String, String>, x: RequestHandlerExtra) -> Result<GetPromptResult> { self.2.put(self.0, &x, json!(args)); self.out(GetPromptResult { description: Some(self.0.into()), messages: vec![] }) } }
#[async_trait::async_trait]
impl ResourceHandler for H {
    async fn read(&self, uri: &str, x: RequestHandlerExtra) -> Result<ReadResourceResult> { self.2.put("read", &x, json!(uri)); self.out(ReadResourceResult { contents: vec![Content::Text { text: "body".into() }] }) }
    async fn list(&self, cursor: Option<String>, x: RequestHandlerExtra) -> Result<ListResourcesResult> { self.2.put("list", &x, json!(cursor)); self.out(ListResourcesResult { resources: vec![], next_cursor: Some("more".into()) }) }
}
#[async_trait::async_trait]
impl SamplingHandler for H { async fn create_message(&self, p: CreateMessageParams, x: RequestHandlerExtra) -> Result<CreateMessageResult> { self.2.put("sample", &x, json!(p.system_prompt)); self.out(CreateMessageResult { content: Content::Text { text: "hi".into() }, model: "m".into(), usage: None, stop_reason: None }) } }

enum In { Msg(TransportMessage), Bad, Closed, Lost, Wait }
#[derive(Clone)]
struct Link { inn: Arc<Mutex<VecDeque<In>>>, out: Arc<Mutex<Vec<TransportMessage>>>, fail: Arc<Mutex<Option<usize>>> }
impl std::fmt::Debug for Link { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Link") } }
#[async_trait::async_trait]
impl Transport for Link {
    async fn send(&mut self, m: TransportMessage) -> Result<()> {
        let mut o = self.out.lock().unwrap();
        if *self.fail.lock().unwrap() == Some(o.len()) { return Err(Error::Transport(TransportError::Io("x".into()))); }
        o.push(m); Ok(())
    }
    async fn receive(&mut self) -> Result<TransportMessage> {
        let i = self.inn.lock().unwrap().pop_front();
        match i { Some(In::Msg(m)) => Ok(m), Some(In::Bad) => Err(Error::Transport(TransportError::InvalidMessage("x".into()))), Some(In::Closed) => Err(Error::Transport(TransportError::ConnectionClosed)), Some(In::Lost) => Err(Error::Transport(TransportError::Io("x".into()))), Some(In::Wait) | None => std::future::pending().await }
    }
    async fn close(&mut self) -> Result<()> { Ok(()) }
}
#[derive(Clone, Copy)]
struct Cfg { res: usize, sam: usize }
fn server(c: Cfg, l: &Log) -> Server {
    let mut b = Server::builder().name("srv").version("9").capabilities(ServerCapabilities::tools_only());
    for (n, f) in [("a", false), ("b", false), ("f", true)] { b = b.tool(n, H(n, f, l.clone())).prompt(n, H(["pa", "pb", "pf"][(n.as_bytes()[0] as usize - 97) % 3], f, l.clone())); }
    if c.res > 0 { b = b.resources(H("r", c.res == 2, l.clone())); }
    if c.sam > 0 { b = b.sampling(H("s", c.sam == 2, l.clone())); }
    b.build().unwrap()
}
/// runs the server on the given messages and gives back what it sent and how it ended
async fn run(s: Server, inn: Vec<In>, fail: Option<usize>) -> (Vec<TransportMessage>, Option<bool>) {
    let link = Link { inn: Arc::new(Mutex::new(inn.into())), out: Default::default(), fail: Arc::new(Mutex::new(fail)) };
    let l2 = link.clone();
    let end = RefCell::new(None);
    {
        let mut sc = Sched::new();
        let e = &end; sc.spawn(async move { let r = s.run(l2).await; *e.borrow_mut() = Some(r.is_ok()); });
        for _ in 0..24 { if sc.live().is_empty() { break; } sc.poll(0); tokio::task::yield_now().await; }
    }
    let o = link.out.lock().unwrap().clone();
    (o, end.into_inner())
}
fn req(id: RequestId, r: ClientRequest) -> In { In::Msg(TransportMessage::Request { id, request: Request::Client(Box::new(r)) }) }
fn init(v: &str) -> ClientRequest { ClientRequest::Initialize(InitializeRequest { protocol_version: v.into(), capabilities: ClientCapabilities::default(), client_info: Implementation { name: "c".into(), version: "1".into() } }) }
fn sampling(p: Option<String>) -> CreateMessageParams { CreateMessageParams { messages: vec![], model_preferences: None, system_prompt: p, include_context: Default::default(), temperature: None, max_tokens: None, stop_sequences: None, metadata: None } }
fn same_id(a: &RequestId, b: &RequestId) -> bool { match (a, b) { (RequestId::Number(x), RequestId::Number(y)) => x == y, (RequestId::String(x), RequestId::String(y)) => eqs(x, y), _ => false } }
fn any_id(n: &str) -> RequestId { if fixb(any_bool("number")) { RequestId::Number(any_u8(n) as i64) } else { RequestId::String(ascii(n, 1)) } }
fn response(m: &TransportMessage) -> Option<&JSONRPCResponse> { match m { TransportMessage::Response(r) => Some(r), _ => None } }
fn result(r: &JSONRPCResponse) -> Option<&Value> { match &r.payload { ResponsePayload::Result(v) => Some(v), ResponsePayload::Error(_) => None } }
fn names(v: &Value, k: &str) -> Vec<String> { let mut n: Vec<String> = v[k].as_array().map(|a| a.iter().map(|t| t["name"].as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default(); n.sort(); n }
harness! {
    h_c17_request {
        rt(async {
            let l = Log::default();
            let kind = pick("kind", 11);
            let c = Cfg { res: if kind >= 4 && kind <= 5 { pick("resources", 3) } else { 0 }, sam: if kind == 6 { pick("sampling", 3) } else { 0 } };
            let id = any_id("id");
            let name = ascii("name", 1);
            let n = any_u8("n");
            let text = if fixb(any_bool("text")) { Some(ascii("t", 1)) } else { None };
            let uri = name.clone();
            let r = match kind {
                0 => ClientRequest::CallTool(CallToolRequest { name: name.clone(), arguments: json!({"n": n}) }),
                1 => ClientRequest::GetPrompt(GetPromptRequest { name: name.clone(), arguments: text.iter().map(|t| ("k".to_string(), t.clone())).collect() }),
                2 => ClientRequest::ListTools(ListToolsRequest { cursor: text.clone() }),
                3 => ClientRequest::ListPrompts(ListPromptsRequest { cursor: text.clone() }),
                4 => ClientRequest::ReadResource(ReadResourceRequest { uri }),
                5 => ClientRequest::ListResources(ListResourcesRequest { cursor: text.clone() }),
                6 => ClientRequest::CreateMessage(sampling(text.clone())),
                7 => ClientRequest::ListResourceTemplates(ListResourceTemplatesRequest { cursor: text.clone() }),
                _ => ClientRequest::Ping,
            };
            let m = match kind { 9 => In::Msg(TransportMessage::Request { id: id.clone(), request: Request::Server(Box::new(ServerRequest::ListRoots)) }), 10 => In::Msg(TransportMessage::Request { id: id.clone(), request: Request::Server(Box::new(ServerRequest::CreateMessage(Box::new(sampling(None))))) }), _ => req(id.clone(), r) };
            let before = fixb(any_bool("initialised"));
            let mut inn = vec![]; if before { inn.push(req(RequestId::Number(1), init("2025-03-26"))); } inn.push(m); inn.push(In::Closed);
            let (out, end) = run(server(c, &l), inn, None).await;
            check(end == Some(true), "the server does not end with its connection");
            check(out.len() == 1 + before as usize, "a request does not get exactly one response");
            let Some(r) = out.last().and_then(response) else { check(false, "a request is answered with something else"); return };
            check(same_id(&r.id, &id), "a response has another id than its request");
            let calls = l.0.lock().unwrap().clone();
            let idt = match &id { RequestId::Number(n) => n.to_string(), RequestId::String(s) => s.clone() };
            let called = |h: &str, a: &Value| calls.len() == 1 && calls[0].0 == h && eqs(&calls[0].1, &idt) && veq(&calls[0].2, a);
            let none = |what: &str| { check(calls.is_empty() && result(r).is_none(), what); cover("no handler"); };
            match kind {
                0 | 1 => {
                    let which = ["a", "b", "f"].iter().position(|k| fixb(eqs(k, &name)));
                    let Some(w) = which else { none("a name without a handler is answered otherwise than with an error"); return };
                    let h = if kind == 0 { ["a", "b", "f"][w] } else { ["pa", "pb", "pf"][w] };
                    let args = if kind == 0 { json!({"n": n}) } else { match &text { Some(t) => json!({"k": t}), None => json!({}) } };
                    check(called(h, &args), "a request does not reach the handler of its name once with its arguments");
                    match result(r) {
                        Some(v) => { check(w != 2 && if kind == 0 { v["content"][0]["text"] == json!({"by": h}).to_string() && v["content"].as_array().map(|a| a.len()) == Some(1) && v["isError"] == json!(false) } else { v["description"] == json!(h) }, "a response is not the handler's result"); cover("handled"); }
                        None => { check(w == 2, "a handler's result is not returned"); cover("failed"); }
                    }
                }
                2 | 3 => check(result(r).is_some_and(|v| names(v, ["tools", "prompts"][kind - 2]) == ["a", "b", "f"]) && calls.is_empty(), "a list is not the registered handlers"),
                4 | 5 | 6 => {
                    let k = if kind == 6 { c.sam } else { c.res };
                    if k == 0 { if kind == 5 { check(result(r).is_some_and(|v| v["resources"] == json!([])), "a resource is listed without a handler"); } else { none("a request without a handler is answered otherwise than with an error"); } return; }
                    let (h, a) = match kind { 4 => ("read", json!(name)), 5 => ("list", json!(text)), _ => ("sample", json!(text)) };
                    check(called(h, &a), "a request does not reach its handler once with its arguments");
                    match result(r) {
                        Some(v) => { check(k == 1 && match kind { 4 => v["contents"][0]["text"] == json!("body"), 5 => v["nextCursor"] == json!("more"), _ => v["model"] == json!("m") }, "a response is not the handler's result"); cover("handled"); }
                        None => { check(k == 2, "a handler's result is not returned"); cover("failed"); }
                    }
                }
                7 => check(result(r).is_some_and(|v| v["resourceTemplates"] == json!([])), "a template is listed without a handler"),
                8 => { check(result(r).is_some_and(|v| *v == json!({})), "a ping is not answered"); cover("ping"); }
                _ => { check(result(r).is_none() && calls.is_empty(), "a request meant for a client is not refused"); cover("for a client"); }
            }
        });
    }
    h_c17_connection {
        rt(async {
            let l = Log::default();
            let mut want: Vec<(i64, usize)> = vec![];
            let mut inn = vec![];
            for k in 0..tier(3, 4) as i64 {
                let i = pick("item", 8);
                let id = RequestId::Number(10 + k);
                if i <= 4 { want.push((10 + k, i)); }
                inn.push(match i { 0 => req(id, init("2025-03-26")), 1 => req(id, ClientRequest::CallTool(CallToolRequest { name: "a".into(), arguments: json!(k) })), 2 => req(id, ClientRequest::ListTools(ListToolsRequest { cursor: None })), 3 => req(id, ClientRequest::Ping), 4 => In::Msg(TransportMessage::Request { id, request: Request::Server(Box::new(ServerRequest::ListRoots)) }), 5 => In::Msg(TransportMessage::Notification(Notification::Client(ClientNotification::Initialized))), 6 => In::Msg(TransportMessage::Response(JSONRPCResponse { jsonrpc: "2.0".into(), id, payload: ResponsePayload::Result(json!({})) })), _ => In::Bad });
            }
            let e = pick("end", 3);
            inn.push(match e { 0 => In::Closed, 1 => In::Lost, _ => In::Wait });
            let fail = match pick("fail", 3) { 0 => None, n => Some(n - 1) };
            let (out, end) = run(server(Cfg { res: 0, sam: 0 }, &l), inn, fail).await;
            let broken = fail.is_some_and(|f| f < want.len());
            let upto = if broken { fail.unwrap() } else { want.len() };
            check(out.len() == upto && out.iter().zip(&want).all(|(m, (id, i))| response(m).is_some_and(|r| r.id == RequestId::Number(*id) && result(r).is_some() == (*i != 4))), "requests are not answered once each, in order");
            let calls = l.0.lock().unwrap().clone();
            let expected: Vec<i64> = want.iter().take(if broken { upto + 1 } else { upto }).filter(|w| w.1 == 1).map(|w| w.0 - 10).collect();
            check(calls.iter().map(|c| c.2.as_i64().unwrap_or(-1)).collect::<Vec<_>>() == expected, "calls are not handled once each, in order");
            if broken { check(end == Some(false), "a server goes on although it cannot answer"); cover("cannot send"); }
            else { check(end == [Some(true), Some(false), None][e], "a server ends before its connection, or goes on after it"); cover(["closed", "lost", "open"][e]); }
        });
    }
    h_c17_version {
        rt(async {
            const V: [&str; 4] = ["2024-10-07", "2024-11-05", "2025-03-26", "2025-06-18"];
            let v = match pick("version", 3) { 0 => V[pick("which", 4)].to_string(), 1 => ascii_upto("v", 2), _ => { let mut b = V[pick("which", 4)].as_bytes().to_vec(); let c = any_u8("c"); assume(c < 128); b[pick("at", 10)] = c; String::from_utf8(b).unwrap() } };
            let (out, _) = run(server(Cfg { res: 0, sam: 0 }, &Log::default()), vec![req(RequestId::Number(1), init(&v)), In::Closed], None).await;
            let got = out.first().and_then(response).and_then(result).cloned().unwrap_or(Value::Null);
            let p = got["protocolVersion"].as_str().unwrap_or("?");
            let known = V.iter().fold(false, |a, k| or(a, eqs(k, &v)));
            if fixb(known) { check(eqs(p, &v), "a supported protocol version is not agreed to"); cover("agreed"); } else { check(V.contains(&p), "an unsupported protocol version is agreed to"); cover("other"); }
            check(got["serverInfo"]["name"] == json!("srv") && got["serverInfo"]["version"] == json!("9") && got["capabilities"]["tools"].is_object() && got["capabilities"]["prompts"].is_null(), "initialisation does not announce the server");
        });
    }
}
