//! C31: handlers added and removed at run time.
//! bound: every history of up to 4 (thorough 5) changes - adding or removing a tool or prompt, setting or removing the resource or sampling handler, reloading a configuration of nothing, of a tool and a prompt, of a tool and both handlers (thorough also of a prompt and a resource handler) - with names of any one byte or the name of the server's own entry, on a server with or without a tool, a prompt and a resource handler of its own
//! bound: two changes at the same time, every interleaving at lock granularity (up to 10 decisions)
//! bound: two threads: every pair of adding a tool (two handlers of one name), removing it, adding and removing a prompt, setting and removing the sampling handler and asking for the tool, on a manager with or without the tool, the second running at once before any atomic read-modify-write of the first (so between any two of its lock regions), or after it; no deadlock, and the outcome must be that of one of the two orders
//! outside: threads that interrupt each other in other ways, a reload interrupted; Server does not itself dispatch to the entries of the manager; what a reload without a resource or sampling handler leaves of an earlier one
use async_trait::async_trait;
use pmcp::server::dynamic::*;
use pmcp::types::*;
use pmcp::{PromptHandler, RequestHandlerExtra, ResourceHandler, SamplingHandler, Server, ToolHandler};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{atomic::{AtomicU32, Ordering::SeqCst}, Arc, Mutex};
use vph::*;

struct H(u32);
#[async_trait]
impl ToolHandler for H { async fn handle(&self, _: Value, _: RequestHandlerExtra) -> pmcp::Result<Value> { Ok(json!(self.0)) } }
#[async_trait]
impl PromptHandler for H { async fn handle(&self, _: HashMap<String, String>, _: RequestHandlerExtra) -> pmcp::Result<GetPromptResult> { Ok(GetPromptResult { description: Some(format!("{}", self.0)), messages: vec![] }) } }
#[async_trait]
impl ResourceHandler for H {
    async fn read(&self, _: &str, _: RequestHandlerExtra) -> pmcp::Result<ReadResourceResult> { Ok(ReadResourceResult { contents: vec![] }) }
    async fn list(&self, _: Option<String>, _: RequestHandlerExtra) -> pmcp::Result<ListResourcesResult> { Ok(ListResourcesResult { resources: vec![], next_cursor: None }) }
}
#[async_trait]
impl SamplingHandler for H { async fn create_message(&self, _: CreateMessageParams, _: RequestHandlerExtra) -> pmcp::Result<CreateMessageResult> { Err(pmcp::Error::internal("x")) } }
fn extra() -> RequestHandlerExtra { RequestHandlerExtra::new("x".into(), Default::default()) }
fn tool(n: &str) -> ToolInfo { ToolInfo { name: n.into(), description: None, input_schema: json!({}) } }
fn prompt(n: &str) -> PromptInfo { PromptInfo { name: n.into(), description: None, arguments: None } }
/// what the listeners last heard is offered
fn offered(c: &ServerCapabilities) -> [bool; 4] { [c.tools.is_some(), c.prompts.is_some(), c.resources.is_some(), c.sampling.is_some()] }
type Book = Vec<(String, u32)>;
fn put(b: &mut Book, n: &str, id: u32) { match b.iter().position(|e| fixb(eqs(&e.0, n))) { Some(i) => b[i].1 = id, None => b.push((n.to_string(), id)) } }
fn take(b: &mut Book, n: &str) -> bool { match b.iter().position(|e| fixb(eqs(&e.0, n))) { Some(i) => { b.remove(i); true }, None => false } }
async fn agree(m: &DynamicServerManager, tools: &Book, prompts: &Book) {
    let (t, p) = (m.get_dynamic_tools().await, m.get_dynamic_prompts().await);
    check(t.len() == tools.len() && p.len() == prompts.len(), "an entry is listed that was not added, or one added is not listed");
    for (n, id) in tools { match t.get(n.as_str()) { Some(h) => check(h.handle(Value::Null, extra()).await.is_ok_and(|v| v == json!(id)), "a tool is listed with another handler than it was added with"), None => check(false, "a tool added is not listed") } check(m.has_tool(n).await, "a tool added is not there"); }
    for (n, id) in prompts { match p.get(n.as_str()) { Some(h) => check(h.handle(HashMap::new(), extra()).await.is_ok_and(|v| v.description == Some(format!("{id}"))), "a prompt is listed with another handler than it was added with"), None => check(false, "a prompt added is not listed") } check(m.has_prompt(n).await, "a prompt added is not there"); }
}
struct W { m: DynamicServerManager, heard: Arc<Mutex<Vec<[bool; 4]>>> }
fn act(w: &W, op: usize) -> u32 {
    let ok = |r: pmcp::Result<()>| r.is_ok() as u32;
    match op {
        0 | 1 => ok(once(w.m.add_tool("a", Arc::new(H(op as u32)), tool("a")))),
        2 => ok(once(w.m.remove_tool("a"))),
        3 => ok(once(w.m.add_prompt("p", Arc::new(H(3)), prompt("p")))),
        4 => ok(once(w.m.remove_prompt("p"))),
        5 => ok(once(w.m.set_sampling_handler(Arc::new(H(5))))),
        6 => ok(once(w.m.remove_sampling_handler())),
        _ => once(w.m.has_tool("a")) as u32,
    }
}
harness! {
    h_c31_threads {
        let there = fixb(any_bool("there"));
        let server = Arc::new(Server::builder().name("s").version("1").build().unwrap());
        threads(8, || {
            let m = DynamicServerManager::new(server.clone());
            let heard: Arc<Mutex<Vec<[bool; 4]>>> = Arc::new(Mutex::new(Vec::with_capacity(8)));
            { let h = heard.clone(); once(m.add_capability_listener(move |c| h.lock().unwrap().push(offered(c)))); }
            if there { once(m.add_tool("a", Arc::new(H(9)), tool("a"))).unwrap(); }
            W { m, heard }
        }, act, |w| {
            let tools = once(w.m.get_dynamic_tools()); let prompts = once(w.m.get_dynamic_prompts());
            let t = tools.get("a").map(|h| once(h.handle(Value::Null, extra())).unwrap().as_u64());
            let h = w.heard.lock().unwrap();
            (t, tools.len(), prompts.len(), h.len(), h.last().copied())
        });
    }
    h_c31_history {
        block_on(async {
            let own = fixb(any_bool("own"));
            let mut b = Server::builder().name("s").version("1");
            if own { b = b.tool("st", H(100)).prompt("sp", H(100)).resources(H(100)).capabilities(ServerCapabilities { tools: Some(Default::default()), prompts: Some(Default::default()), resources: Some(Default::default()), ..Default::default() }); }
            let server = Arc::new(b.build().unwrap());
            let m = DynamicServerManager::new(server);
            let heard: Arc<Mutex<Vec<[bool; 4]>>> = Arc::new(Mutex::new(vec![]));
            let others = Arc::new(AtomicU32::new(0));
            { let h = heard.clone(); m.add_capability_listener(move |c| h.lock().unwrap().push(offered(c))).await; }
            { let o = others.clone(); m.add_capability_listener(move |_| { o.fetch_add(1, SeqCst); }).await; }
            let (mut tools, mut prompts): (Book, Book) = (vec![], vec![]);
            let mut caps = [own, own, own, false];
            for k in 0..tier(4, 5) as u32 {
                let op = pick("op", if k == 0 { 8 } else { 9 });
                let n = if own && op < 4 && pick("its own", 2) == 1 { ["st", "st", "sp", "sp"][op].to_string() } else if op < 4 || op == 8 { ascii("name", 1) } else { String::new() };
                let theirs = n.len() == 2;
                let mut told = 1usize;
                match op {
                    0 => { check(m.add_tool(n.clone(), Arc::new(H(k)), tool(&n)).await.is_ok(), "a tool is not added"); put(&mut tools, &n, k); caps[0] = true; cover("tool added"); },
                    1 => { let had = take(&mut tools, &n); check(m.remove_tool(&n).await.is_ok() == had, "removing a tool reports the opposite of what it did"); told = had as usize; check(m.has_tool(&n).await == theirs, "a removed tool is still there"); cover(if had { "tool removed" } else { "no such tool" }); },
                    2 => { check(m.add_prompt(n.clone(), Arc::new(H(k)), prompt(&n)).await.is_ok(), "a prompt is not added"); put(&mut prompts, &n, k); caps[1] = true; cover("prompt added"); },
                    3 => { let had = take(&mut prompts, &n); check(m.remove_prompt(&n).await.is_ok() == had, "removing a prompt reports the opposite of what it did"); told = had as usize; check(m.has_prompt(&n).await == theirs, "a removed prompt is still there"); cover(if had { "prompt removed" } else { "no such prompt" }); },
                    4 => { check(m.set_resource_handler(Arc::new(H(k))).await.is_ok(), "a handler is not set"); caps[2] = true; },
                    5 => { check(m.remove_resource_handler().await.is_ok(), "a handler is not removed"); caps[2] = own; cover("handler removed"); },
                    6 => { check(m.set_sampling_handler(Arc::new(H(k))).await.is_ok(), "a handler is not set"); caps[3] = true; },
                    7 => { check(m.remove_sampling_handler().await.is_ok(), "a handler is not removed"); caps[3] = false; },
                    _ => {
                        let parts = [0, 3, 13, 6][pick("parts", tier(3, 4) as u64)];
                        let mut c = DynamicConfigBuilder::new();
                        tools.clear(); prompts.clear();
                        if parts & 1 != 0 { c = c.tool(n.clone(), Arc::new(H(k)), tool(&n)); tools.push((n.clone(), k)); caps[0] = true; }
                        if parts & 2 != 0 { c = c.prompt(n.clone(), Arc::new(H(k)), prompt(&n)); prompts.push((n.clone(), k)); caps[1] = true; }
                        if parts & 4 != 0 { c = c.resources(Arc::new(H(k))); caps[2] = true; }
                        if parts & 8 != 0 { c = c.sampling(Arc::new(H(k))); caps[3] = true; }
                        check(m.reload_configuration(c.build()).await.is_ok(), "a configuration is not loaded");
                        told = 99; cover("reloaded");
                    },
                }
                let h = std::mem::take(&mut *heard.lock().unwrap());
                check(h.len() as u32 == others.swap(0, SeqCst), "one listener hears of a change and another does not");
                if told != 99 { check(h.len() == told, "a change is not announced once, or one that changes nothing is announced"); }
                if let Some(l) = h.last() { for i in 0..4 { if !(op == 8 && i > 1) { check(l[i] == caps[i], "what is announced as offered is not what is there after the change"); } } }
                agree(&m, &tools, &prompts).await;
                check(m.has_tool("st").await == (own || tools.iter().any(|e| e.0.len() == 2)) && m.has_prompt("sp").await == own, "a change touches what the server itself offers");
            }
        });
    }
    h_c31_race {
        rt(async {
            let m = DynamicServerManager::new(Arc::new(Server::builder().name("s").version("1").build().unwrap()));
            let heard: Arc<Mutex<Vec<[bool; 4]>>> = Arc::new(Mutex::new(vec![]));
            { let h = heard.clone(); m.add_capability_listener(move |c| h.lock().unwrap().push(offered(c))).await; }
            m.add_tool("old", Arc::new(H(1)), tool("old")).await.unwrap();
            let kind = pick("pair", 3);
            let gone = std::cell::Cell::new(0);
            let mut s = Sched::new();
            { let m = &m; let gone = &gone; s.spawn(async move { match kind { 0 => m.add_tool("a", Arc::new(H(2)), tool("a")).await.unwrap(), 1 => { if m.remove_tool("old").await.is_ok() { gone.set(gone.get() + 1); } }, _ => m.add_prompt("a", Arc::new(H(2)), prompt("a")).await.unwrap() } }); }
            { let m = &m; let gone = &gone; s.spawn(async move { match kind { 0 => m.add_tool("b", Arc::new(H(3)), tool("b")).await.unwrap(), 1 => { if m.remove_tool("old").await.is_ok() { gone.set(gone.get() + 1); } }, _ => m.set_sampling_handler(Arc::new(H(3))).await.unwrap() } }); }
            if s.run_tight("race", tier(8, 10)).await {
                let h = heard.lock().unwrap();
                match kind {
                    0 => agree(&m, &vec![("old".into(), 1), ("a".into(), 2), ("b".into(), 3)], &vec![]).await,
                    1 => { check(gone.get() == 1, "a tool is removed twice or not at all"); agree(&m, &vec![], &vec![]).await },
                    _ => { agree(&m, &vec![("old".into(), 1)], &vec![("a".into(), 2)]).await; check(h.last() == Some(&[true, true, false, true]), "what is announced last is not what is there"); },
                }
                check(h.len() == 2 + (kind != 1) as usize, "changes at the same time are not announced once each");
                cover("both");
            }
        });
    }
}
