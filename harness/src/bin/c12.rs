//! C12: URI templates.
//! bound: expansion: every operator with one expression of 1 or 2 variables (plain, prefix 1 or 2, explode), each absent or any text of up to 2 bytes (thorough 3), and for prefix 2 a two-byte character, any ASCII character and x, between literals of one arbitrary byte that is no brace
//! bound: matching: single-variable expressions of every operator with any value of 1 ASCII byte, 2 bytes of 8 reserved, unreserved and other characters, or (alone in its template) any 2 bytes, alone or between literals (thorough: any value of 1 to 3 bytes), and two of them in one template with values of 1 byte of 14 such characters (thorough: 1 and 2 ASCII bytes); every address of up to 5 ASCII bytes (thorough 7) against six templates
//! bound: template syntax: every template text of up to 4 bytes (thorough 5) over the bytes { } + * : , a 1 _ - and blank
//! outside: matching of a label expression whose value contains a dot (the separator of labels); templates with non-ASCII variable names; matching of expressions with several variables or empty values (the matcher is documented as simplified there)
use pmcp::shared::uri_template::UriTemplate;
use vph::*;

const OPS: [&str; 8] = ["", "+", "#", ".", "/", ";", "?", "&"];
fn unreserved(b: u8) -> bool { b.is_ascii_alphanumeric() || b"-._~".contains(&b) }
fn reserved(b: u8) -> bool { b":/?#[]@!$&'()*+,;=".contains(&b) }
fn hexd(n: u8) -> u8 { ite(n < 10, n as u64 + 48, n as u64 + 55) as u8 }
/// RFC 6570 section 3.2.1
fn enc(v: &[u8], allow: bool, out: &mut Vec<u8>) {
    let mut i = 0;
    while i < v.len() {
        let b = v[i];
        if unreserved(b) || (allow && reserved(b)) { out.push(b); }
        else if allow && b == b'%' && i + 2 < v.len() && v[i + 1].is_ascii_hexdigit() && v[i + 2].is_ascii_hexdigit() { out.push(b); }
        else { out.extend([b'%', hexd(b >> 4), hexd(b & 15)]); }
        i += 1;
    }
}
/// The text of one variable: name, value, prefix length if any.
fn oracle(op: usize, vars: &[(&str, Option<&str>, usize)]) -> Vec<u8> {
    let (first, sep, named, allow) = [("", ",", false, false), ("", ",", false, true), ("#", ",", false, true), (".", ".", false, false), ("/", "/", false, false), (";", ";", true, false), ("?", "&", true, false), ("&", "&", true, false)][op];
    let mut o = vec![];
    let mut n = 0;
    for (name, v, pre) in vars {
        if let Some(v) = v {
            o.extend_from_slice(if n == 0 { first } else { sep }.as_bytes()); n += 1;
            if named { o.extend_from_slice(name.as_bytes()); if !(v.is_empty() && op == 5) { o.push(b'='); } }
            let e = v.char_indices().nth(*pre).map_or(v.len(), |(i, _)| i);
            enc(&v.as_bytes()[..e], allow, &mut o);
        }
    }
    o
}
fn lit(name: &str) -> String { let b = any_u8(name); assume(b < 128 && b != b'{' && b != b'}'); String::from_utf8(vec![b]).unwrap() }
fn value(name: &str, lo: usize) -> String { utf8(name, lo + pick("len", (tier(2, 3) + 1 - lo) as u64)) }
harness! {
    h_c12_expand {
        let op = pick("op", 8);
        let (m, pre) = [("", 99), (":1", 1), (":2", 2), ("*", 99)][pick("modifier", 4)];
        let (a, b) = (lit("a"), lit("b"));
        let v = match pick("given", 3) { 0 => None, 1 => Some(value("v", 0)), _ => { assume(pre == 2 && op < 3); let w = utf8("v", 1); Some(format!("é{w}x")) } };
        let t = UriTemplate::new(format!("{a}{{{}x{m}}}{b}", OPS[op])).expect("a template is refused");
        let mut vars: Vec<(&str, &str)> = vec![("y", "other")];
        if let Some(v) = &v { vars.push(("x", v)); }
        let u = t.expand(&vars).expect("expansion fails");
        let mut want = a.into_bytes(); want.extend(oracle(op, &[("x", v.as_deref(), pre)])); want.extend(b.into_bytes());
        check(eq(u.as_bytes(), &want), "the expansion differs from RFC 6570");
        cover("expand");
    }
    h_c12_expand2 {
        let op = pick("op", 8);
        let v: Vec<Option<String>> = (0..2).map(|_| if fixb(any_bool("given")) { Some(utf8("v", pick("len", 2))) } else { None }).collect();
        let t = UriTemplate::new(format!("{{{}x,long_1:1}}/{{x}}", OPS[op])).expect("a template is refused");
        let mut vars: Vec<(&str, &str)> = vec![];
        if let Some(v) = &v[0] { vars.push(("x", v)); } if let Some(v) = &v[1] { vars.push(("long_1", v)); }
        let u = t.expand(&vars).expect("expansion fails");
        let mut want = oracle(op, &[("x", v[0].as_deref(), 99), ("long_1", v[1].as_deref(), 1)]); want.push(b'/'); want.extend(oracle(0, &[("x", v[0].as_deref(), 99)]));
        check(eq(u.as_bytes(), &want), "the expansion differs from RFC 6570");
        check(t.variables() == ["x", "long_1", "x"], "the variables of a template are not listed in order");
        cover("expand2");
    }
    h_c12_match {
        // what a template expands to, it matches, with values that expand to the same
        let op = pick("op", 8);
        let (a, b) = [("", ""), ("/u", "/z"), ("a.b", ""), ("x://(a)+", "?$")][pick("around", 4)];
        let v = if tier(0, 1) == 1 { value("v", 1) } else { match pick("text", 3) { 0 => ascii("v", 1), 1 => over("v", 2, b"a./%; +|"), _ => { assume(a.is_empty()); utf8("v", 2) } } };
        assume(op != 3 || !has(&v, "."));
        let t = UriTemplate::new(format!("{a}{{{}x}}{b}", OPS[op])).unwrap();
        let u = t.expand(&[("x", &v)]).unwrap();
        match t.match_uri(&u) {
            None => check(false, "a template does not match what it expands to"),
            Some(m) => {
                check(m.len() == 1, "a match gives other variables than the template's");
                check(eqs(&t.expand_with_map(&m).unwrap(), &u), "the values of a match do not expand to the matched address");
                if op != 1 && op != 2 { check(eqo(m.get("x").map(|s| s.as_str()), Some(&v)), "a match gives another value than the one expanded"); }
                cover("match");
            }
        }
    }
    h_c12_match2 {
        let (p, q) = (pick("op", 8), pick("op2", 8));
        let (v, w) = if tier(0, 1) == 1 { (ascii("v", 1), ascii("w", 2)) } else { (over("v", 1, b"a./%;=&?#, +|-"), over("w", 1, b"a./%;=&?#, +|-")) };
        assume((p != 3 || !has(&v, ".")) && (q != 3 || !has(&w, ".")));
        let t = UriTemplate::new(format!("/a/{{{}x}}/b{{{}y}}", OPS[p], OPS[q])).unwrap();
        let u = t.expand(&[("x", &v), ("y", &w)]).unwrap();
        match t.match_uri(&u) {
            None => check(false, "a template does not match what it expands to"),
            Some(m) => { check(eqs(&t.expand_with_map(&m).unwrap(), &u), "the values of a match do not expand to the matched address"); cover("match2"); }
        }
    }
    h_c12_address {
        // any address: the literal parts must be there, the values are what stands in their places
        let (t, pre, post, stop) = [("/u/{id}", "/u/", "", "/"), ("f.x/{id}", "f.x/", "", "/"), ("{id}", "", "", "/"), ("a{.id}", "a.", "", "."), ("a{?id}", "a?id=", "", "&"), ("{id}/z", "", "/z", "/")][pick("template", 6)];
        let s = ascii_upto("s", tier(5, 7));
        let tt = UriTemplate::new(t).unwrap();
        let r = tt.match_uri(&s);
        let fits = s.len() > pre.len() + post.len() && s.starts_with(pre) && s.ends_with(post) && !s[pre.len()..s.len() - post.len()].contains(stop);
        check(r.is_some() == fits, "matching does not follow the literal parts of the template");
        if let Some(m) = r {
            let raw = &s[pre.len()..s.len() - post.len()];
            if !raw.contains('%') { check(eqo(m.get("id").map(|x| x.as_str()), Some(raw)), "a matched value is not the text at its place"); }
            cover("address");
        } else { cover("refused"); }
    }
    h_c12_syntax {
        let s = over("t", 1 + pick("n", tier(4, 5) as u64), b"{}+*:,a1_- ");
        match UriTemplate::new(s.clone()) {
            Err(_) => cover("invalid"),
            Ok(t) => {
                check(eqs(&t.to_string(), &s), "a template does not print as it was written");
                let vars = t.variables();
                // every name is an identifier written in the template
                check(vars.iter().all(|v| !v.is_empty() && !v.as_bytes()[0].is_ascii_digit() && v.bytes().all(|c| c == b'_' || c.is_ascii_alphanumeric())), "a variable name is not an identifier");
                let none: [(&str, &str); 0] = [];
                let u = t.expand(&none).unwrap();
                check(!vars.is_empty() || eqs(&u, &s), "literal text changes in expansion");
                if !vars.is_empty() { cover("syntax"); }
            }
        }
    }
}
