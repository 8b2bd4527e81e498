//! C06: method names and typed messages.
//! bound: every request and notification type with every combination of optional members and symbolic one-byte text; ids of both kinds
//! bound: every other method name: each protocol name with one byte changed, inserted or removed, and every name of up to 3 ASCII bytes
//! bound: parameters absent, empty, with an unknown member, or of another shape for every name
//! outside: longer text inside parameters
use pmcp::shared::protocol_helpers::{create_notification, create_request, parse_notification, parse_request};
use pmcp::types::elicitation::*;
use pmcp::types::protocol::*;
use pmcp::types::*;
use serde_json::{json, Value};
use vph::*;

fn s(n: &str) -> String { over(n, 1, b"ab\"/") }
fn opt(n: &str) -> Option<String> { if fixb(any_bool(&format!("{n}?"))) { Some(s(n)) } else { None } }
fn content() -> Content { match pick("ck", 3) { 0 => Content::Text { text: s("ct") }, 1 => Content::Image { data: s("cd"), mime_type: s("cm") }, _ => Content::Resource { uri: s("cu"), text: opt("cx"), mime_type: opt("cm") } } }
fn sampling() -> CreateMessageParams { CreateMessageParams { messages: vec![SamplingMessage { role: [Role::User, Role::Assistant, Role::System][pick("role", 3)], content: content() }], model_preferences: None, system_prompt: opt("sp"), include_context: Default::default(), temperature: None, max_tokens: if fixb(any_bool("mt?")) { Some(any_in("mt", 0, 9) as u32) } else { None }, stop_sequences: None, metadata: None } }
/// (typed request, its protocol name, its parameters on the wire)
fn request() -> (Request, &'static str, Option<Value>) {
    let c = |r| Request::Client(Box::new(r));
    let v = |x: Value| Some(x);
    let cur = |o: &Option<String>| match o { Some(x) => json!({"cursor": x}), None => json!({}) };
    match pick("req", 17) {
        0 => { let (a, b, p) = (s("n"), s("v"), s("pv")); (c(ClientRequest::Initialize(InitializeRequest { protocol_version: p.clone(), capabilities: ClientCapabilities::default(), client_info: Implementation { name: a.clone(), version: b.clone() } })), "initialize", v(json!({"protocolVersion": p, "capabilities": {}, "clientInfo": {"name": a, "version": b}}))) }
        1 => { let o = opt("c"); let w = cur(&o); (c(ClientRequest::ListTools(ListToolsRequest { cursor: o })), "tools/list", v(w)) }
        2 => { let (n, a) = (s("n"), s("a")); (c(ClientRequest::CallTool(CallToolRequest { name: n.clone(), arguments: json!({"k": a}) })), "tools/call", v(json!({"name": n, "arguments": {"k": a}}))) }
        3 => { let o = opt("c"); let w = cur(&o); (c(ClientRequest::ListPrompts(ListPromptsRequest { cursor: o })), "prompts/list", v(w)) }
        4 => { let (n, a) = (s("n"), s("a")); (c(ClientRequest::GetPrompt(GetPromptRequest { name: n.clone(), arguments: [("k".to_string(), a.clone())].into_iter().collect() })), "prompts/get", v(json!({"name": n, "arguments": {"k": a}}))) }
        5 => { let o = opt("c"); let w = cur(&o); (c(ClientRequest::ListResources(ListResourcesRequest { cursor: o })), "resources/list", v(w)) }
        6 => { let o = opt("c"); let w = cur(&o); (c(ClientRequest::ListResourceTemplates(ListResourceTemplatesRequest { cursor: o })), "resources/templates/list", v(w)) }
        7 => { let u = s("u"); (c(ClientRequest::ReadResource(ReadResourceRequest { uri: u.clone() })), "resources/read", v(json!({"uri": u}))) }
        8 => { let u = s("u"); (c(ClientRequest::Subscribe(SubscribeRequest { uri: u.clone() })), "resources/subscribe", v(json!({"uri": u}))) }
        9 => { let u = s("u"); (c(ClientRequest::Unsubscribe(UnsubscribeRequest { uri: u.clone() })), "resources/unsubscribe", v(json!({"uri": u}))) }
        10 => { let (n, a, b) = (s("n"), s("a"), s("b")); let p = fixb(any_bool("pr")); (c(ClientRequest::Complete(CompleteRequest { r#ref: if p { CompletionReference::Prompt { name: n.clone() } } else { CompletionReference::Resource { uri: n.clone() } }, argument: CompletionArgument { name: a.clone(), value: b.clone() } })), "completion/complete", v(json!({"ref": if p { json!({"type": "ref/prompt", "name": n}) } else { json!({"type": "ref/resource", "uri": n}) }, "argument": {"name": a, "value": b}}))) }
        11 => { let k = pick("lv", 5); (c(ClientRequest::SetLoggingLevel { level: [LoggingLevel::Debug, LoggingLevel::Info, LoggingLevel::Warning, LoggingLevel::Error, LoggingLevel::Critical][k] }), "logging/setLevel", v(json!({"level": (["debug", "info", "warning", "error", "critical"][k])}))) }
        12 => (c(ClientRequest::Ping), "ping", None),
        13 => { let p = sampling(); let w = serde_json::to_value(&p).unwrap(); if fixb(any_bool("srv")) { (Request::Server(Box::new(ServerRequest::CreateMessage(Box::new(p)))), "sampling/createMessage", v(w)) } else { (c(ClientRequest::CreateMessage(p)), "sampling/createMessage", v(w)) } }
        14 => { let (i, e) = (s("i"), opt("e")); let cc = any_bool("cc"); let hv = fixb(any_bool("hv")); let x = any_in("x", 0, 9); let mut w = json!({"elicitationId": i, "cancelled": cc}); if hv { w["value"] = json!(x); } if let Some(e) = &e { w["error"] = json!(e); } (c(ClientRequest::ElicitInputResponse(ElicitInputResponse { elicitation_id: i, value: if hv { Some(json!(x)) } else { None }, cancelled: cc, error: e })), "elicitation/response", v(w)) }
        15 => (Request::Server(Box::new(ServerRequest::ListRoots)), "roots/list", None),
        _ => { let (i, p, d) = (s("i"), s("p"), opt("d")); let mut w = json!({"elicitationId": i, "inputType": "text", "prompt": p}); if let Some(d) = &d { w["description"] = json!(d); } (Request::Server(Box::new(ServerRequest::ElicitInput(Box::new(ElicitInputRequest { elicitation_id: i, input_type: InputType::Text, prompt: p, description: d, default: None, validation: None, metadata: Default::default() })))), "elicitation/elicitInput", v(w)) }
    }
}
fn notification() -> (Notification, &'static str, Option<Value>) {
    let v = |x: Value| Some(x);
    let prog = || { let (t, m) = (s("t"), opt("m")); let num = fixb(any_bool("num")); let n = any_in("tn", 0, 9) as i64; let mut w = json!({"progressToken": if num { json!(n) } else { json!(t) }, "progress": 0.5}); if let Some(m) = &m { w["message"] = json!(m); } (ProgressNotification { progress_token: if num { ProgressToken::Number(n) } else { ProgressToken::String(t) }, progress: 0.5, message: m }, w) };
    let canc = || { let (t, m) = (s("t"), opt("m")); let num = fixb(any_bool("num")); let n = any_in("tn", 0, 9) as i64; let mut w = json!({"requestId": if num { json!(n) } else { json!(t) }}); if let Some(m) = &m { w["reason"] = json!(m); } (CancelledNotification { request_id: if num { RequestId::Number(n) } else { RequestId::String(t) }, reason: m }, w) };
    match pick("not", 13) {
        0 => (Notification::Client(ClientNotification::Initialized), "notifications/initialized", None),
        1 => (Notification::Client(ClientNotification::RootsListChanged), "notifications/roots/list_changed", None),
        2 => { let (c, w) = canc(); (Notification::Client(ClientNotification::Cancelled(c)), "notifications/cancelled", v(w)) }
        3 => { let (c, w) = prog(); (Notification::Client(ClientNotification::Progress(c)), "notifications/progress", v(w)) }
        4 => { let (c, w) = prog(); (Notification::Server(ServerNotification::Progress(c)), "notifications/progress", v(w)) }
        5 => (Notification::Server(ServerNotification::ToolsChanged), "notifications/tools/list_changed", None),
        6 => (Notification::Server(ServerNotification::PromptsChanged), "notifications/prompts/list_changed", None),
        7 => (Notification::Server(ServerNotification::ResourcesChanged), "notifications/resources/list_changed", None),
        8 => (Notification::Server(ServerNotification::RootsListChanged), "notifications/roots/list_changed", None),
        9 => { let u = s("u"); (Notification::Server(ServerNotification::ResourceUpdated(ResourceUpdatedParams { uri: u.clone() })), "notifications/resources/updated", v(json!({"uri": u}))) }
        10 => { let (m, l) = (s("m"), opt("l")); let k = pick("lv", 4); let mut w = json!({"level": (["debug", "info", "warning", "error"][k]), "message": m}); if let Some(l) = &l { w["logger"] = json!(l); } (Notification::Server(ServerNotification::LogMessage(LogMessageParams { level: [LogLevel::Debug, LogLevel::Info, LogLevel::Warning, LogLevel::Error][k], logger: l, message: m, data: None })), "notifications/message", v(w)) }
        11 => { let (c, w) = prog(); (Notification::Progress(c), "notifications/progress", v(w)) }
        _ => { let (c, w) = canc(); (Notification::Cancelled(c), "notifications/cancelled", v(w)) }
    }
}
fn ov(a: &Option<Value>, b: &Option<Value>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => veq(a, b), _ => false } }
const REQS: [&str; 17] = ["initialize", "tools/list", "tools/call", "prompts/list", "prompts/get", "resources/list", "resources/templates/list", "resources/read", "resources/subscribe", "resources/unsubscribe", "completion/complete", "logging/setLevel", "ping", "sampling/createMessage", "elicitation/response", "roots/list", "elicitation/elicitInput"];
const NOTS: [&str; 10] = ["notifications/initialized", "notifications/roots/list_changed", "notifications/cancelled", "notifications/progress", "notifications/tools/list_changed", "notifications/prompts/list_changed", "notifications/resources/list_changed", "notifications/resources/updated", "notifications/message", "notifications/message"];
/// Parameters that fit every name that takes any (so only the name can be wrong).
fn fits_all() -> Value { json!({"protocolVersion": "1", "capabilities": {}, "clientInfo": {"name": "a", "version": "b"}, "name": "n", "uri": "u", "ref": {"type": "ref/prompt", "name": "n"}, "argument": {"name": "a", "value": "b"}, "level": "info", "messages": [], "elicitationId": "e", "inputType": "text", "prompt": "p", "message": "m", "progressToken": 1, "progress": 0.5, "requestId": 1}) }
fn kind(r: &Request) -> &'static str {
    match r {
        Request::Client(c) => match **c { ClientRequest::Initialize(_) => REQS[0], ClientRequest::ListTools(_) => REQS[1], ClientRequest::CallTool(_) => REQS[2], ClientRequest::ListPrompts(_) => REQS[3], ClientRequest::GetPrompt(_) => REQS[4], ClientRequest::ListResources(_) => REQS[5], ClientRequest::ListResourceTemplates(_) => REQS[6], ClientRequest::ReadResource(_) => REQS[7], ClientRequest::Subscribe(_) => REQS[8], ClientRequest::Unsubscribe(_) => REQS[9], ClientRequest::Complete(_) => REQS[10], ClientRequest::SetLoggingLevel { .. } => REQS[11], ClientRequest::Ping => REQS[12], ClientRequest::CreateMessage(_) => REQS[13], ClientRequest::ElicitInputResponse(_) => REQS[14] },
        Request::Server(c) => match **c { ServerRequest::CreateMessage(_) => REQS[13], ServerRequest::ListRoots => REQS[15], ServerRequest::ElicitInput(_) => REQS[16] },
    }
}
fn nkind(n: &Notification) -> &'static str {
    match n {
        Notification::Client(ClientNotification::Initialized) => NOTS[0], Notification::Client(ClientNotification::RootsListChanged) | Notification::Server(ServerNotification::RootsListChanged) => NOTS[1],
        Notification::Client(ClientNotification::Cancelled(_)) | Notification::Cancelled(_) => NOTS[2], Notification::Client(ClientNotification::Progress(_)) | Notification::Server(ServerNotification::Progress(_)) | Notification::Progress(_) => NOTS[3],
        Notification::Server(ServerNotification::ToolsChanged) => NOTS[4], Notification::Server(ServerNotification::PromptsChanged) => NOTS[5], Notification::Server(ServerNotification::ResourcesChanged) => NOTS[6], Notification::Server(ServerNotification::ResourceUpdated(_)) => NOTS[7], Notification::Server(ServerNotification::LogMessage(_)) => NOTS[8],
    }
}
harness! {
    h_c06_request {
        let (r, name, params) = request();
        let i = if fixb(any_bool("num")) { RequestId::Number(any_in("id", 0, 9) as i64) } else { RequestId::String(s("ids")) };
        let w = create_request(i.clone(), r.clone());
        check(w.method == name, "a request is written under another name");
        check(ov(&w.params, &params), "a request is written with other parameters");
        check(w.id == i && w.jsonrpc == "2.0", "a request is written with another id or version");
        match parse_request(w) {
            Ok((j, q)) => {
                check(i == j, "a request comes back with another id");
                check(kind(&q) == name, "a request comes back as another one");
                // a name used in both directions is read as the client's; the parameters tell everything else
                let b = create_request(i, q);
                check(b.method == name && ov(&b.params, &params), "a request comes back with other parameters");
                cover("request");
            }
            Err(_) => check(false, "a request's own wire form is refused"),
        }
    }
    h_c06_notification {
        let (n, name, params) = notification();
        let w = create_notification(n);
        check(w.method == name, "a notification is written under another name");
        check(ov(&w.params, &params), "a notification is written with other parameters");
        match parse_notification(serde_json::to_value(&w).unwrap()) {
            Ok(q) => { check(nkind(&q) == name, "a notification comes back as another one"); let b = create_notification(q); check(b.method == name && ov(&b.params, &params), "a notification comes back with other parameters"); cover("notification"); }
            Err(_) => check(false, "a notification's own wire form is refused"),
        }
    }
    h_c06_params {
        // absent and empty parameters mean the same; unknown members are ignored; another shape is refused
        let k = pick("k", 17);
        let p = match pick("p", 7) { 0 => None, 1 => Some(json!({})), 2 => { let mut v = fits_all(); v["zzUnknown"] = json!(1); Some(v) } 3 => Some(json!({"_meta": {"progressToken": 1}})), 4 => Some(json!([])), 5 => Some(json!("x")), _ => Some(json!(7)) };
        let req = |p: Option<Value>| parse_request(JSONRPCRequest::new(1i64, REQS[k], p));
        let r = req(p.clone());
        let none_needed = [1, 3, 5, 6, 12, 15].contains(&k);
        match &p {
            None => check(r.is_ok() == none_needed, "absent parameters are not read as empty ones"),
            Some(Value::Object(o)) => { let full = o.len() > 2; check(r.is_ok() == (full || none_needed), "empty parameters, or an unknown member, decide wrongly"); }
            _ => check(r.is_err(), "parameters that are no object are accepted"),
        }
        if let Ok((_, q)) = &r { check(kind(q) == REQS[k], "parameters turn a request into another one"); cover("accepted"); } else { cover("refused"); }
    }
    h_c06_nparams {
        let k = pick("k", 9);
        let p = match pick("p", 4) { 0 => None, 1 => Some(json!({})), 2 => { let mut v = fits_all(); v["zzUnknown"] = json!(1); Some(v) } _ => Some(json!([])) };
        let mut w = json!({"jsonrpc": "2.0", "method": NOTS[k]});
        if let Some(p) = &p { w["params"] = p.clone(); }
        let none_needed = [0, 1, 4, 5, 6].contains(&k);
        let r = parse_notification(w);
        match &p { Some(Value::Array(_)) => check(r.is_err(), "notification parameters that are no object are accepted"), Some(Value::Object(o)) if !o.is_empty() => check(r.is_ok(), "a notification with an unknown member is refused"), _ => check(r.is_ok() == none_needed, "absent or empty notification parameters decide wrongly") }
        if let Ok(q) = &r { check(nkind(q) == NOTS[k], "parameters turn a notification into another one"); cover("notification accepted"); }
    }
    h_c06_near {
        // a name that is not the protocol's is refused whatever the parameters
        let base = REQS[pick("base", 17)];
        let at = pick("at", base.len() as u64 + 1);
        let c = any_u8("c"); assume(and(c >= 0x20, c < 0x7f));
        let mut b = base.as_bytes().to_vec();
        match pick("how", 4) { 0 => { assume(at < b.len()); assume(c != b[at]); b[at] = c; } 1 => { b.insert(at, c); } 2 => { assume(at < b.len()); b.remove(at); } _ => { assume(at < b.len() && b[at].is_ascii_alphabetic()); b[at] ^= 0x20; } }
        let name = unsafe { String::from_utf8_unchecked(b) };
        for r in REQS { assume(!eqs(&name, r)); }
        let p = if fixb(any_bool("with")) { Some(fits_all()) } else { None };
        check(parse_request(JSONRPCRequest::new(1i64, name, p)).is_err(), "a method outside the protocol is accepted");
        cover("near");
    }
    h_c06_short {
        let name = ascii_upto("m", 3);
        check(parse_request(JSONRPCRequest::new(1i64, name.clone(), Some(fits_all()))).is_err(), "a method outside the protocol is accepted");
        check(parse_notification(json!({"jsonrpc": "2.0", "method": name})).is_err(), "a notification outside the protocol is accepted");
    }
    h_c06_nnear {
        let base = NOTS[pick("base", 9)];
        let at = pick("at", base.len() as u64);
        let c = any_u8("c"); assume(and(c >= 0x20, c < 0x7f));
        let mut b = base.as_bytes().to_vec();
        if fixb(any_bool("cut")) { b.remove(at); } else { assume(c != b[at]); b[at] = c; }
        let name = unsafe { String::from_utf8_unchecked(b) };
        for r in NOTS { assume(!eqs(&name, r)); }
        let mut w = json!({"jsonrpc": "2.0", "method": name});
        if fixb(any_bool("with")) { w["params"] = fits_all(); }
        check(parse_notification(w).is_err(), "a notification outside the protocol is accepted");
        cover("near notification");
    }
}
