//! C07: payload types on the wire.
//! bound: every payload type with every combination of present and absent optional members; text of one symbolic byte (quotes and non-ASCII text in places), numbers symbolic in -9..=99 and boundary values, lists of up to 2
//! bound: unknown members: one extra member beside the type's own
//! outside: longer text and lists; fractional numbers beyond a fixed set (0, 0.5, 1, -2.25, 1e300)
use pmcp::server::roots::{ListRootsResult, Root};
use pmcp::types::auth::*;
use pmcp::types::capabilities::*;
use pmcp::types::completable as cb;
use pmcp::types::elicitation::*;
use pmcp::types::protocol::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use vph::*;

fn s(n: &str) -> String { over(n, 1, b"ab\"") }
fn yes(n: &str) -> bool { fixb(any_bool(n)) }
fn opt(n: &str) -> Option<String> { if yes(&format!("{n}?")) { Some(s(n)) } else { None } }
fn f(n: &str) -> f64 { [0.0, 0.5, 1.0, -2.25, 1e300][pick(n, 5)] }
fn num(n: &str) -> i64 { any_in(n, 0, 99) as i64 }
/// An expected object: members given as None are absent.
struct O(Map<String, Value>);
fn o() -> O { O(Map::new()) }
impl O {
    fn p(mut self, k: &str, v: impl Into<Value>) -> O { self.0.insert(k.into(), v.into()); self }
    fn q<T: Into<Value> + Clone>(mut self, k: &str, v: &Option<T>) -> O { if let Some(v) = v { self.0.insert(k.into(), v.clone().into()); } self }
    fn v(self) -> Value { Value::Object(self.0) }
}
fn text<T: Serialize>(x: &T) -> String { match serde_json::to_string(x) { Ok(t) => t, Err(_) => { check(false, "a payload does not serialise"); unreachable!() } } }
fn parse<T: DeserializeOwned>(t: &str) -> T { match serde_json::from_str(t) { Ok(x) => x, Err(_) => { check(false, "a payload's own text is refused"); unreachable!() } } }
/// The payload's text is `want`; reading it (with or without a member it does not know) gives the payload back.
fn both<T: Serialize + DeserializeOwned>(x: &T, want: &Value, extra: bool) {
    let t = text(x);
    let v: Value = parse(&t);
    check(veq(&v, want), "a payload is written under other members or values");
    let y: T = parse(&t);
    check(veq(&serde_json::to_value(&y).unwrap(), want), "a payload changes when read back");
    if extra {
        let mut w = want.clone();
        w["zzUnknown"] = json!([1]);
        match serde_json::from_value::<T>(w) { Ok(z) => check(veq(&serde_json::to_value(&z).unwrap(), want), "an unknown member changes a payload"), Err(_) => check(false, "an unknown member makes a payload unreadable") }
    }
    cover("payload");
}
fn content(n: &str) -> (Content, Value) {
    match pick(&format!("{n}k"), 3) {
        0 => { let t = ascii(&format!("{n}t"), 1); (Content::Text { text: t.clone() }, json!({"type": "text", "text": t})) }
        1 => { let (d, m) = (s(&format!("{n}d")), s(&format!("{n}m"))); (Content::Image { data: d.clone(), mime_type: m.clone() }, json!({"type": "image", "data": d, "mimeType": m})) }
        _ => { let (u, t, m) = (s(&format!("{n}u")), opt(&format!("{n}x")), opt(&format!("{n}m"))); let w = o().p("type", "resource").p("uri", u.clone()).q("text", &t).q("mimeType", &m).v(); (Content::Resource { uri: u, text: t, mime_type: m }, w) }
    }
}
fn prefs() -> (ModelPreferences, Value) {
    let h = match pick("h", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![ModelHint { name: opt("hn") }]) };
    let (c, p, i) = (if yes("c?") { Some(f("c")) } else { None }, if yes("p?") { Some(0.5) } else { None }, if yes("i?") { Some(1.0) } else { None });
    let w = o().q("hints", &h.as_ref().map(|h: &Vec<ModelHint>| h.iter().map(|x| o().q("name", &x.name).v()).collect::<Vec<_>>())).q("costPriority", &c).q("speedPriority", &p).q("intelligencePriority", &i).v();
    (ModelPreferences { hints: h, cost_priority: c, speed_priority: p, intelligence_priority: i }, w)
}
const ROLES: [(Role, &str); 3] = [(Role::User, "user"), (Role::Assistant, "assistant"), (Role::System, "system")];
harness! {
    h_c07_content { let (c, w) = content("c"); both(&c, &w, true); cover("content"); }
    h_c07_content_refused {
        // a tag the protocol does not know, or a missing member, is refused
        let t = ascii_upto("t", 3);
        check(serde_json::from_value::<Content>(json!({"type": t, "text": "x", "data": "d", "mimeType": "m", "uri": "u"})).is_err(), "content of an unknown type is accepted");
        let w = match pick("w", 5) { 0 => json!({"text": "x"}), 1 => json!({"type": "text"}), 2 => json!({"type": "image", "data": "d"}), 3 => json!({"type": "image", "data": "d", "mime_type": "m"}), _ => json!({"type": "resource", "text": "x"}) };
        check(serde_json::from_value::<Content>(w).is_err(), "content without its members is accepted");
    }
    h_c07_tool {
        let (n, d) = (s("n"), opt("d"));
        let sch = match pick("sch", 3) { 0 => Value::Null, 1 => json!({"type": "object", "properties": {s("p"): {}}}), _ => json!(true) };
        let w = o().p("name", n.clone()).q("description", &d).p("inputSchema", sch.clone()).v();
        let t = ToolInfo { name: n, description: d, input_schema: sch };
        both(&t, &w, true);
        let c = opt("cur");
        let two = yes("two");
        both(&ListToolsResult { tools: if two { vec![t.clone(), t] } else { vec![] }, next_cursor: c.clone() }, &o().p("tools", if two { json!([w, w]) } else { json!([]) }).q("nextCursor", &c).v(), false);
    }
    h_c07_call {
        let (n, a) = (s("n"), [json!(null), json!({}), json!({"a": [1, "x"]}), json!(3)][pick("a", 4)].clone());
        both(&CallToolRequest { name: n.clone(), arguments: a.clone() }, &json!({"name": n, "arguments": a}), true);
        let r: CallToolRequest = serde_json::from_value(json!({"name": n})).unwrap();
        check(r.arguments.is_null() && eqs(&r.name, &n), "absent arguments are not read as none");
        let e = any_bool("e");
        let (c, w) = content("c");
        both(&CallToolResult { content: vec![c], is_error: e }, &json!({"content": [w], "isError": e}), true);
        let r: CallToolResult = serde_json::from_value(json!({"content": [w]})).unwrap();
        check(!r.is_error && r.content.len() == 1, "an absent error flag is not read as false");
    }
    h_c07_prompt {
        let (n, d, an, ad, rq) = (s("n"), opt("d"), s("an"), opt("ad"), any_bool("rq"));
        let comp = if yes("comp") { Some(cb::CompletionConfig { provider: cb::CompletionProvider::Static, config: [("values".to_string(), json!(["x"]))].into_iter().collect() }) } else { None };
        let wc = comp.as_ref().map(|_| json!({"provider": "static", "values": ["x"]}));
        let wa = o().p("name", an.clone()).q("description", &ad).p("required", rq).q("completion", &wc).v();
        let args = match pick("args", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![PromptArgument { name: an, description: ad, required: rq, completion: comp }]) };
        let w = o().p("name", n.clone()).q("description", &d).q("arguments", &args.as_ref().map(|a| if a.is_empty() { json!([]) } else { json!([wa]) })).v();
        both(&PromptInfo { name: n, description: d, arguments: args }, &w, true);
    }
    h_c07_get_prompt {
        let (n, k, v) = (s("n"), s("k"), s("v"));
        let two = yes("two");
        let mut m = HashMap::new(); m.insert(format!("{k}0"), v.clone()); if two { m.insert("z".into(), "".into()); }
        let mut w = json!({"name": n, "arguments": {format!("{k}0"): v}}); if two { w["arguments"]["z"] = json!(""); }
        both(&GetPromptRequest { name: n, arguments: m }, &w, true);
        let (d, (c, wc), r) = (opt("d"), content("c"), pick("r", 3));
        both(&GetPromptResult { description: d.clone(), messages: vec![PromptMessage { role: ROLES[r].0.clone(), content: c }] }, &o().q("description", &d).p("messages", json!([{"role": (ROLES[r].1), "content": wc}])).v(), true);
        check(ROLES[r].0.to_string() == ROLES[r].1, "a role prints under another name");
    }
    h_c07_resource {
        let (u, n, d, m, c) = (s("u"), s("n"), opt("d"), opt("m"), opt("c"));
        let w = o().p("uri", u.clone()).p("name", n.clone()).q("description", &d).q("mimeType", &m).v();
        let r = ResourceInfo { uri: u.clone(), name: n.clone(), description: d.clone(), mime_type: m.clone() };
        both(&r, &w, true);
        both(&ListResourcesResult { resources: vec![r], next_cursor: c.clone() }, &o().p("resources", json!([w])).q("nextCursor", &c).v(), true);
        let w = o().p("uriTemplate", u.clone()).p("name", n.clone()).q("description", &d).q("mimeType", &m).v();
        let t = ResourceTemplate { uri_template: u, name: n, description: d, mime_type: m };
        both(&t, &w, true);
        both(&ListResourceTemplatesResult { resource_templates: vec![t], next_cursor: c.clone() }, &o().p("resourceTemplates", json!([w])).q("nextCursor", &c).v(), true);
    }
    h_c07_read {
        let (c, w) = content("c");
        both(&ReadResourceResult { contents: vec![c] }, &json!({"contents": [w]}), true);
        let (u, n) = (s("u"), opt("n"));
        let r = Root { uri: u.clone(), name: n.clone() };
        let w = o().p("uri", u).q("name", &n).v();
        both(&r, &w, true);
        both(&ListRootsResult { roots: vec![r] }, &json!({"roots": [w]}), true);
    }
    h_c07_initialize {
        let (p, n, v, i) = (s("p"), s("n"), s("v"), opt("i"));
        both(&InitializeRequest { protocol_version: p.clone(), capabilities: Default::default(), client_info: Implementation { name: n.clone(), version: v.clone() } }, &json!({"protocolVersion": p, "capabilities": {}, "clientInfo": {"name": n, "version": v}}), true);
        both(&InitializeResult { protocol_version: ProtocolVersion(p.clone()), capabilities: Default::default(), server_info: Implementation { name: n.clone(), version: v.clone() }, instructions: i.clone() }, &o().p("protocolVersion", p).p("capabilities", json!({})).p("serverInfo", json!({"name": n, "version": v})).q("instructions", &i).v(), true);
    }
    h_c07_capabilities {
        let ob = |n: &str| match pick(n, 3) { 0 => None, 1 => Some(false), _ => Some(true) };
        let lc = ob("lc");
        let wl = o().q("listChanged", &lc).v();
        let (t, p, r, l, sa, x) = (yes("t"), yes("p"), yes("r"), yes("l"), yes("sa"), yes("x"));
        let sub = ob("sub");
        let lv = if yes("lv") { Some(vec![s("lvn")]) } else { None };
        let wr = o().q("subscribe", &sub).q("listChanged", &lc).v();
        let wlog = o().q("levels", &lv).v();
        let ws = o().q("models", &lv).v();
        let ex = json!({"e": {"n": 1}});
        let om = |b: bool, v: &Value| if b { Some(v.clone()) } else { None };
        let exm: Option<HashMap<String, Value>> = if x { Some([("e".to_string(), json!({"n": 1}))].into_iter().collect()) } else { None };
        let (ct, cp, cr, cl, cs) = (if t { Some(ToolCapabilities { list_changed: lc }) } else { None }, if p { Some(PromptCapabilities { list_changed: lc }) } else { None }, if r { Some(ResourceCapabilities { subscribe: sub, list_changed: lc }) } else { None }, if l { Some(LoggingCapabilities { levels: lv.clone() }) } else { None }, if sa { Some(SamplingCapabilities { models: lv.clone() }) } else { None });
        if yes("server") {
            let co = yes("co");
            let w = o().q("tools", &om(t, &wl)).q("prompts", &om(p, &wl)).q("resources", &om(r, &wr)).q("logging", &om(l, &wlog)).q("sampling", &om(sa, &ws)).q("completions", &om(co, &json!({}))).q("experimental", &om(x, &ex)).v();
            let c = ServerCapabilities { tools: ct, prompts: cp, resources: cr, logging: cl, completions: if co { Some(CompletionCapabilities::default()) } else { None }, sampling: cs, experimental: exm };
            check(c.provides_tools() == t && c.provides_prompts() == p && c.provides_resources() == r, "a server capability is reported wrongly");
            both(&c, &w, true);
        } else {
            let ro = match pick("ro", 3) { 0 => None, 1 => Some(false), _ => Some(true) };
            let w = o().q("tools", &om(t, &wl)).q("prompts", &om(p, &wl)).q("resources", &om(r, &wr)).q("logging", &om(l, &wlog)).q("sampling", &om(sa, &ws)).q("roots", &ro.map(|b| json!({"listChanged": b}))).q("experimental", &om(x, &ex)).v();
            let c = ClientCapabilities { tools: ct, prompts: cp, resources: cr, logging: cl, sampling: cs, roots: ro.map(|b| RootsCapabilities { list_changed: b }), experimental: exm };
            check(c.supports_tools() == t && c.supports_prompts() == p && c.supports_resources() == r && c.supports_sampling() == sa, "a client capability is reported wrongly");
            both(&c, &w, true);
        }
    }
    h_c07_sampling {
        let (p, wp) = prefs();
        both(&p, &wp, true);
    }
    h_c07_create_message {
        let hp = yes("prefs");
        let (sp, mt, te, ss, md) = (opt("sp"), if yes("mt?") { Some([0u32, 7, u32::MAX][pick("mt", 3)]) } else { None }, if yes("te?") { Some(f("te")) } else { None }, if yes("ss?") { Some(vec![s("ss")]) } else { None }, if yes("md?") { Some(json!({"k": 1})) } else { None });
        let (c, wc) = (Content::Text { text: "t".into() }, json!({"type": "text", "text": "t"}));
        let k = pick("ic", 3);
        let r = pick("r", 3);
        let m = CreateMessageParams { messages: vec![SamplingMessage { role: ROLES[r].0.clone(), content: c }], model_preferences: if hp { Some(ModelPreferences { hints: None, cost_priority: Some(0.5), speed_priority: None, intelligence_priority: None }) } else { None }, system_prompt: sp.clone(), include_context: [IncludeContext::All, IncludeContext::None, IncludeContext::ThisServerOnly][k].clone(), temperature: te, max_tokens: mt, stop_sequences: ss.clone(), metadata: md.clone() };
        let w = o().p("messages", json!([{"role": (ROLES[r].1), "content": wc}])).q("modelPreferences", &if hp { Some(json!({"costPriority": 0.5})) } else { None }).q("systemPrompt", &sp).p("includeContext", ["all", "none", "thisServerOnly"][k]).q("temperature", &te).q("maxTokens", &mt).q("stopSequences", &ss).q("metadata", &md).v();
        both(&m, &w, true);
    }
    h_c07_message_result {
        let (c, wc) = content("c");
        let (m, sr) = (s("m"), opt("sr"));
        let u = if yes("u?") { Some((any_in("ui", 0, 99) as u32, u32::MAX, 0u32)) } else { None };
        both(&CreateMessageResult { content: c, model: m.clone(), usage: u.map(|(a, b, c)| TokenUsage { input_tokens: a, output_tokens: b, total_tokens: c }), stop_reason: sr.clone() }, &o().p("content", wc).p("model", m).q("usage", &u.map(|(a, b, c)| json!({"inputTokens": a, "outputTokens": b, "totalTokens": c}))).q("stopReason", &sr).v(), true);
    }
    h_c07_progress {
        let (t, m) = (s("t"), opt("m"));
        let n = match pick("tk", 3) { 0 => Some(num("tn")), 1 => Some([i64::MIN, i64::MAX, -1, 0][pick("tb", 4)]), _ => None };
        let p = f("p");
        both(&ProgressNotification { progress_token: match n { Some(n) => ProgressToken::Number(n), None => ProgressToken::String(t.clone()) }, progress: p, message: m.clone() }, &o().p("progressToken", match n { Some(n) => json!(n), None => json!(t) }).p("progress", p).q("message", &m).v(), true);
        // a text token that looks like a number stays text
        let d = any_in("d", 0, 9);
        let tok = String::from_utf8(vec![b'0' + d as u8]).unwrap();
        check(matches!(parse::<ProgressToken>(&text(&ProgressToken::String(tok.clone()))), ProgressToken::String(x) if eqs(&x, &tok)), "a text token becomes a number");
    }
    h_c07_cancelled {
        let (t, m) = (s("t"), opt("m"));
        let n = if yes("n?") { Some(num("n")) } else { None };
        both(&CancelledNotification { request_id: match n { Some(n) => pmcp::types::RequestId::Number(n), None => pmcp::types::RequestId::String(t.clone()) }, reason: m.clone() }, &o().p("requestId", match n { Some(n) => json!(n), None => json!(t) }).q("reason", &m).v(), true);
        let k = pick("lv", 4);
        let (l, d) = (opt("l"), if yes("d?") { Some(json!({"k": [s("dv")]})) } else { None });
        both(&LogMessageParams { level: [LogLevel::Debug, LogLevel::Info, LogLevel::Warning, LogLevel::Error][k], logger: l.clone(), message: t.clone(), data: d.clone() }, &o().p("level", ["debug", "info", "warning", "error"][k]).q("logger", &l).p("message", t).q("data", &d).v(), true);
    }
    h_c07_completion {
        let (n, a, v) = (s("n"), s("a"), s("v"));
        let p = yes("p");
        both(&CompleteRequest { r#ref: if p { CompletionReference::Prompt { name: n.clone() } } else { CompletionReference::Resource { uri: n.clone() } }, argument: CompletionArgument { name: a.clone(), value: v.clone() } }, &json!({"ref": if p { json!({"type": "ref/prompt", "name": n}) } else { json!({"type": "ref/resource", "uri": n}) }, "argument": {"name": a, "value": v}}), true);
        let tot = if yes("t?") { Some(any_in("t", 0, 99) as usize) } else { None };
        let hm = any_bool("hm");
        both(&CompleteResult { completion: CompletionResult { values: vec![v.clone()], total: tot, has_more: hm } }, &json!({"completion": o().p("values", json!([v])).q("total", &tot.map(|x| x as u64)).p("hasMore", hm).v()}), true);
        let (l, d, i, x) = (opt("l"), opt("d"), opt("i"), yes("x"));
        let mut w = o().p("value", v.clone()).q("label", &l).q("description", &d).q("icon", &i).v();
        if x { w["extra"] = json!({"n": 1}); }
        both(&cb::CompletionItem { value: v, label: l, description: d, icon: i, metadata: if x { [("extra".to_string(), json!({"n": 1}))].into_iter().collect() } else { HashMap::new() } }, &w, false);
    }
    h_c07_provider {
        let c = s("c");
        let k = pick("k", 5);
        let (p, w) = [(cb::CompletionProvider::Static, json!("static")), (cb::CompletionProvider::Resource, json!("resource")), (cb::CompletionProvider::Tool, json!("tool")), (cb::CompletionProvider::File, json!("file")), (cb::CompletionProvider::Custom(c.clone()), json!({"custom": c}))][k].clone();
        let n = opt("d"); let rq = any_bool("rq");
        both(&cb::CompletableArgument { name: "n".into(), description: n.clone(), required: rq, completion: Some(cb::CompletionConfig { provider: p, config: HashMap::new() }) }, &o().p("name", "n").q("description", &n).p("required", rq).p("completion", json!({"provider": w})).v(), true);
    }
    h_c07_elicit {
        const T: [(InputType, &str); 15] = [(InputType::Text, "text"), (InputType::Textarea, "textarea"), (InputType::Boolean, "boolean"), (InputType::Number, "number"), (InputType::Select, "select"), (InputType::MultiSelect, "multiSelect"), (InputType::FilePath, "filePath"), (InputType::DirectoryPath, "directoryPath"), (InputType::Password, "password"), (InputType::Date, "date"), (InputType::Time, "time"), (InputType::DateTime, "dateTime"), (InputType::Color, "color"), (InputType::Url, "url"), (InputType::Email, "email")];
        let k = pick("k", 15);
        let (i, p, d) = (s("i"), s("p"), opt("d"));
        let de = if yes("de?") { Some(json!({"v": s("dev")})) } else { None };
        let x = yes("x");
        let mut w = o().p("elicitationId", i.clone()).p("inputType", T[k].1).p("prompt", p.clone()).q("description", &d).q("default", &de).v();
        if x { w["extra"] = json!("e"); }
        both(&ElicitInputRequest { elicitation_id: i, input_type: T[k].0.clone(), prompt: p, description: d, default: de, validation: None, metadata: if x { [("extra".to_string(), json!("e"))].into_iter().collect() } else { HashMap::new() } }, &w, false);
    }
    h_c07_validation {
        let (mi, ma, pa, me, rq) = (if yes("mi?") { Some(f("mi")) } else { None }, if yes("ma?") { Some(2.5) } else { None }, opt("pa"), opt("me"), any_bool("rq"));
        let (l, d, dis) = (s("l"), opt("d"), any_bool("dis"));
        let so = SelectOption { value: json!(1), label: l.clone(), description: d.clone(), disabled: dis };
        let wso = o().p("value", json!(1)).p("label", l).q("description", &d).p("disabled", dis).v();
        let op = match pick("op", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![so]) };
        let w = o().p("required", rq).q("min", &mi).q("max", &ma).q("pattern", &pa).q("options", &op.as_ref().map(|x| if x.is_empty() { json!([]) } else { json!([wso]) })).q("message", &me).v();
        let v = InputValidation { required: rq, min: mi, max: ma, pattern: pa, options: op, message: me };
        both(&v, &w, true);
    }
    h_c07_elicit_response {
        let (i, e, c) = (s("i"), opt("e"), any_bool("c"));
        let v = match pick("v", 4) { 0 => None, 1 => Some(json!(any_in("vn", 0, 9))), 2 => Some(json!([s("vs")])), _ => Some(json!({"a": null})) };
        both(&ElicitInputResponse { elicitation_id: i.clone(), value: v.clone(), cancelled: c, error: e.clone() }, &o().p("elicitationId", i).q("value", &v).p("cancelled", c).q("error", &e).v(), true);
    }
    h_c07_auth {
        let (t, c) = (opt("t"), s("c"));
        let k = pick("k", 4);
        let oa = if yes("oa") { Some(OAuthInfo { auth_url: "a".into(), token_url: "t".into(), client_id: s("ci"), scopes: if yes("sc") { Some(vec![s("scn")]) } else { None }, redirect_uri: opt("ru"), pkce_method: match pick("pk", 3) { 0 => None, 1 => Some(PkceMethod::Plain), _ => Some(PkceMethod::S256) } }) } else { None };
        let woa = oa.as_ref().map(|x| o().p("authUrl", "a").p("tokenUrl", "t").p("clientId", x.client_id.clone()).q("scopes", &x.scopes).q("redirectUri", &x.redirect_uri).q("pkceMethod", &x.pkce_method.as_ref().map(|m| if matches!(m, PkceMethod::Plain) { "plain" } else { "S256" })).v());
        let x = yes("x");
        let (sch, ws) = [(AuthScheme::None, json!("none")), (AuthScheme::Bearer, json!("bearer")), (AuthScheme::OAuth2, json!("oAuth2")), (AuthScheme::Custom(c.clone()), json!({"custom": c}))][k].clone();
        let mut w = o().p("scheme", ws).q("token", &t).q("oauth", &woa).v();
        if x { w["realm"] = json!("r"); }
        let a = AuthInfo { scheme: sch, token: t.clone(), oauth: oa, params: if x { [("realm".to_string(), json!("r"))].into_iter().collect() } else { HashMap::new() } };
        check(a.is_required() == (k != 0), "whether authentication is required is reported wrongly");
        check(match (a.authorization_header(), k, &t) { (Some(h), 1, Some(t)) => eqs(&h, &format!("Bearer {t}")), (None, 1, None) => true, (None, n, _) => n != 1, _ => false }, "the authorization header is wrong");
        both(&a, &w, false);
    }
}
