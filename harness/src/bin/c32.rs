//! C32: completion candidates.
//! bound: up to 3 candidates (4 thorough) with values and labels of up to 2 ASCII bytes and partial values of up to 2 ASCII bytes (and UTF-8 of up to 3 bytes)
//! outside: the file completion provider (it lists the real file system)
use pmcp::types::completable::*;
use std::collections::HashMap;
use vph::*;

fn starts(t: &str, p: &str) -> bool { t.len() >= p.len() && eq(&t.as_bytes()[..p.len()], p.as_bytes()) }
harness! {
    h_c32_static {
        let n = pick("n", tier(3, 4) as u64);
        let items: Vec<CompletionItem> = (0..n).map(|i| CompletionItem { value: ascii_upto(&format!("v{i}"), 2), label: if fixb(any_bool(&format!("hl{i}"))) { Some(ascii_upto(&format!("l{i}"), 2)) } else { None }, description: Some(i.to_string()), icon: None, metadata: HashMap::new() }).collect();
        let part = ascii_upto("p", 2);
        let p = StaticCompletionProvider::new(items.clone());
        let r = match block_on(p.complete(CompletionRequest { argument: "a".into(), partial: part.clone(), context: HashMap::new() })) { Ok(r) => r, Err(_) => { check(false, "completion fails"); return } };
        check(!r.has_more && r.continuation_token.is_none(), "a complete list claims there is more");
        let mut k = 0;
        for (i, it) in items.iter().enumerate() {
            let m = or(starts(&it.value, &part), match &it.label { Some(l) => starts(l, &part), None => false });
            let here = k < r.completions.len() && r.completions[k].description == Some(i.to_string());
            check(m == here, if here { "a candidate that does not match is offered" } else { "a matching candidate is left out or out of order" });
            if here { check(eqs(&r.completions[k].value, &it.value) && eqo(r.completions[k].label.as_deref(), it.label.as_deref()), "an offered candidate is changed"); k += 1; cover("offered"); } else { cover("left out"); }
        }
        check(k == r.completions.len(), "a candidate is offered that was not configured");
    }
    h_c32_strings {
        let n = 1 + pick("n", 2);
        let vs: Vec<String> = (0..n).map(|i| utf8(&format!("v{i}"), 3)).collect();
        let part = if fixb(any_bool("u")) { utf8("p", 2) } else { ascii_upto("p", 3) };
        let p = StaticCompletionProvider::from_strings(vs.clone());
        let r = match block_on(p.complete(CompletionRequest { argument: "a".into(), partial: part.clone(), context: HashMap::new() })) { Ok(r) => r, Err(_) => { check(false, "completion fails"); return } };
        let want: Vec<&String> = vs.iter().filter(|v| fixb(starts(v, &part))).collect();
        check(want.len() == r.completions.len(), "not exactly the matching candidates are offered");
        for (a, b) in want.iter().zip(&r.completions) { check(eqs(a, &b.value), "the candidates are out of order"); cover("offered string"); }
    }
    h_c32_config {
        let v = ascii_upto("v", 1);
        let a = completable("x").description("d").required().static_completions(vec![v.clone(), "b".into()]).build();
        check(a.name == "x" && a.required && a.description.as_deref() == Some("d"), "the argument is built wrong");
        match a.completion { Some(c) => { check(matches!(c.provider, CompletionProvider::Static), "another provider is configured"); check(veq(&c.config["values"], &serde_json::json!([v, "b"])), "the candidates configured are changed"); cover("config"); } None => check(false, "no completion is configured") }
    }
}
