//! C30: the accelerated text and JSON routines against the plain ones.
//! cpu: avx2
//! bound: UTF-8 validity of texts of any length 0..=5 and of 8 lengths around one and two blocks of 32, filled with letters, two-byte characters or continuation bytes, with 3 (thorough 4) arbitrary bytes at any of 10 places
//! bound: whitespace, quotes and patterns (of 1..=3 bytes) in texts of those lengths with 3 (4) arbitrary bytes, xor masks over up to 66 arbitrary bytes, base64 over up to 7, checksums over up to 66 of which 6 are arbitrary, run lengths of up to 3 runs of 7 lengths up to 300, length checks of up to 17 lengths of any 32 bits
//! bound: JSON parsing of any 3 (4) bytes in 5 short contexts and 2 (3) in long ones, serialising and pretty printing of texts with any 4 bytes of UTF-8 at any of 10 places and of 9 nested shapes
//! assume: the CPU has AVX2 (the same routines without it are serde_json's own)
//! outside: texts with more arbitrary bytes; rayon's parallel batches, the HTTP header and event fast paths (which use no vector code)
use pmcp::simd::{batch, compression, fallback, json, serialization};
use pmcp::utils::{parse_json_batch, parse_json_fast, pretty_print_fast, serialize_json_fast};
use serde_json::Value;
use vph::*;

const LENS: [usize; 8] = [31, 32, 33, 40, 63, 64, 65, 66];
/// a text of one of the lengths with `w` arbitrary bytes at one of the places where blocks begin and end
fn text(w: usize, fill: &[u8]) -> Vec<u8> {
    let k = pick("len", 14);
    let n = if k < 6 { k } else { LENS[k - 6] };
    let mut b: Vec<u8> = (0..n).map(|i| fill[i % fill.len()]).collect();
    let w = w.min(n);
    let at = [0, 1, 28, 29, 30, 31, 32, 60, 62, 64][pick("at", 10)];
    assume(at + w <= n);
    sym(&mut b[at..at + w], "window");
    b
}
fn same(a: &[usize], b: &[usize], l: &str) { check(a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y), l) }
fn sextet(c: u8) -> u64 { let c = c as u64; let lower = ite(c >= 97, c.wrapping_sub(71), c.wrapping_sub(65)); let letters = ite(c >= 65, lower, c.wrapping_add(4)); ite(c == 43, 62, ite(c == 47, 63, letters)) }

harness! {
    h_c30_utf8 {
        let fill: &[u8] = [&b"a"[..], "é".as_bytes(), &[0x80]][pick("fill", 3)];
        let b = text(tier(3, 4), fill);
        let want = std::str::from_utf8(&b).is_ok();
        let got = unsafe { json::validate_utf8_simd(&b) };
        check(got == want, if want { "valid UTF-8 is refused" } else { "invalid UTF-8 is accepted" });
        check(fallback::validate_utf8(&b) == want, "the plain check disagrees");
        cover(if want { "valid" } else { "invalid" });
    }
    h_c30_search {
        let b = text(tier(3, 4), b"ab");
        match pick("what", 3) {
            0 => { let w: Vec<usize> = b.iter().enumerate().filter(|x| matches!(x.1, b' ' | b'\t' | b'\n' | b'\r')).map(|x| x.0).collect(); same(&unsafe { json::find_whitespace_simd(&b) }, &w, "whitespace is found where it is not, or not where it is"); same(&fallback::find_whitespace(&b), &w, "the plain search disagrees"); cover("whitespace"); },
            1 => { let w: Vec<usize> = b.iter().enumerate().filter(|x| matches!(x.1, b'\\' | b'"')).map(|x| x.0).collect(); same(&unsafe { json::find_escapes_simd(&b) }, &w, "an escape is found where it is not, or not where it is"); same(&fallback::find_escapes(&b), &w, "the plain search disagrees"); cover("escapes"); },
            _ => {
                let n = pick("needle", 3) + 1;
                let mut needle = vec![b'x'; n]; sym(&mut needle[..1.min(n)], "needle"); if n == 3 { needle[1] = b'a'; }
                assume(n <= b.len());
                let want = (0..=b.len() - n).find(|&i| fixb(eq(&b[i..i + n], &needle)));
                check(unsafe { compression::find_pattern_simd(&b, &needle) } == want, "a pattern is not found where it first is");
                cover(if want.is_some() { "found" } else { "not found" });
            },
        }
    }
    h_c30_bytes {
        let k = pick("len", tier(14, 14) as u64);
        let n = if k < 6 { k } else { LENS[k - 6] };
        let mut b = vec![0u8; n]; sym(&mut b, "b");
        match pick("what", 3) {
            0 => { let mut d = vec![7u8; n + 2]; unsafe { serialization::copy_simd(&b, &mut d) }; check(and(eq(&d[..n], &b), eq(&d[n..], &[7, 7])), "a copy is not the original"); cover("copied"); },
            1 => { let mask: [u8; 4] = bytes("mask"); let mut d = b.clone(); unsafe { serialization::xor_mask_simd(&mut d, mask) }; let want: Vec<u8> = b.iter().enumerate().map(|(i, x)| x ^ mask[i % 4]).collect(); check(eq(&d, &want), "masking gives other bytes than it should"); cover("masked"); },
            _ => { let m = pick("fixed", 2); if m == 1 { for x in b.iter_mut().skip(4) { *x = 0xff; } } else { for (i, x) in b.iter_mut().enumerate() { if i % 32 > 1 { *x = i as u8; } } } let want = b.iter().fold(0u32, |a, &x| a.wrapping_add(x as u32)); let got = unsafe { batch::batch_checksum_simd(&[&b, b"\x01\x02"]) }; check(got.len() == 2 && and(got[0] == want, got[1] == 3), "a checksum is not the sum of the bytes"); cover("summed"); },
        }
    }
    h_c30_base64 {
        let n = pick("len", 8);
        let mut b = vec![0u8; n]; sym(&mut b, "b");
        let mut out = vec![b'!'];
        unsafe { serialization::base64_encode_simd(&b, &mut out) };
        check(out.len() == 1 + n.div_ceil(3) * 4 && out[0] == b'!', "the length of base64 text is wrong");
        // read back by the rules of the alphabet
        let t = &out[1..];
        for (g, q) in t.chunks(4).enumerate() {
            let have = (n - g * 3).min(3);
            let s: Vec<u64> = q.iter().take(have + 1).map(|&c| sextet(c)).collect();
            for &c in q.iter().take(have + 1) { check(or(or(and(c >= 48, c <= 57), and(c >= 65, c <= 90)), or(and(c >= 97, c <= 122), or(c == 43, c == 47))), "base64 text has a byte outside the alphabet"); }
            for &c in q.iter().skip(have + 1) { check(c == b'=', "base64 text is padded wrongly"); }
            let v = s.iter().fold(0u64, |a, x| (a << 6) | x) << (6 * (3 - have));
            for i in 0..have { check((v >> (16 - 8 * i)) as u8 == b[g * 3 + i], "base64 text reads back as other bytes"); }
        }
        cover("encoded");
    }
    h_c30_runs {
        let runs = pick("runs", tier(3, 4) as u64);
        let mut b = vec![];
        for _ in 0..runs { let c = any_u8("c"); let n = [1, 31, 32, 33, 64, 255, 300][pick("run", 7)]; b.extend(std::iter::repeat_n(c, n)); }
        let mut out = vec![];
        unsafe { compression::rle_encode_simd(&b, &mut out) };
        check(out.len() % 2 == 0, "a run has no byte");
        let mut back = vec![];
        for p in out.chunks(2) { check(p[0] > 0, "an empty run is written"); back.extend(std::iter::repeat_n(p[1], fix(p[0] as u64) as usize)); }
        check(eq(&back, &b), "run lengths read back as other bytes");
        cover("encoded runs");
    }
    h_c30_lengths {
        let n = [0, 1, 7, 8, 9, 15, 16, 17][pick("n", 8)];
        let l: Vec<u32> = (0..n).map(|_| any_u32("length")).collect();
        let max = any_u32("max");
        let got = unsafe { batch::batch_validate_lengths(&l, max) };
        check(got.len() == n, "a length gets no answer");
        for (g, x) in got.iter().zip(&l) { check(*g == (*x <= max), "a length is judged wrongly"); }
        cover("judged");
    }
    h_c30_parse {
        let long = pick("long", 3);
        let (pre, post): (&str, &str) = [("", ""), ("[", "]"), ("\"", "\""), ("[1 ", " 2]"), ("{\"a\":", "}")][pick("context", 5)];
        let n = pick("n", if long > 0 { tier(2, 3) } else { tier(3, 4) } as u64) + 1;
        let mut w = vec![0u8; n]; sym(&mut w, "text");
        let pad = [0, 29, 31][long];
        let mut b = vec![b' '; pad]; if pad > 0 && fixb(any_bool("in text")) { b = b"[\"".to_vec(); b.extend(std::iter::repeat_n(b'x', pad - 4)); b.extend_from_slice(b"\","); }
        let opened = b.first() == Some(&b'[');
        b.extend_from_slice(pre.as_bytes()); b.extend_from_slice(&w); b.extend_from_slice(post.as_bytes());
        if opened { b.push(b']'); }
        let want: Result<Value, _> = serde_json::from_slice(&b);
        match (parse_json_fast::<Value>(&b), want) {
            (Ok(a), Ok(w)) => { check(veq(&a, &w), "fast parsing reads another value"); cover("parsed"); },
            (Err(_), Err(_)) => cover("not JSON"),
            (Ok(_), _) => check(false, "fast parsing accepts what is not JSON"),
            _ => check(false, "fast parsing refuses JSON"),
        }
    }
    h_c30_print {
        check(is_x86_feature_detected!("avx2"), "the CPU has no AVX2"); cover("AVX2");
        // a text with any characters at any place, in a value or as a key
        let k = [0, 1, 25, 26, 27, 28, 29, 30, 31, 60][pick("at", 10)];
        let t = format!("{}{}{}", "x".repeat(k), utf8("t", pick("n", tier(3, 4) as u64) + 1), "y".repeat(pick("tail", 2) * 33));
        let v = match pick("shape", 3) { 0 => Value::String(t), 1 => { let mut m = serde_json::Map::new(); m.insert(t, Value::Null); Value::Object(m) }, _ => Value::Array(vec![Value::Bool(true), Value::String(t)]) };
        let plain = serde_json::to_vec(&v).unwrap();
        match serialize_json_fast(&v) { Ok(o) => check(eq(&o, &plain), "fast serialising writes another text"), Err(_) => check(false, "fast serialising fails") }
        match pretty_print_fast(&v) { Ok(o) => check(eqs(&o, &serde_json::to_string_pretty(&v).unwrap()), "fast pretty printing writes another text"), Err(_) => check(false, "fast pretty printing fails") }
        cover("printed");
    }
    h_c30_shapes {
        let leaf = [r#"1"#, r#""a b""#, r#""{[,:\"\\]}""#, "{}", "[]", "-1.5e3", "null", r#"{"":[]}"#, "[[1],{}]"];
        let f = |i: usize| leaf[i];
        let (a, b) = (f(pick("a", 9)), f(pick("b", 9)));
        let t = match pick("shape", 4) { 0 => a.to_string(), 1 => format!("[{a},{b}]"), 2 => format!("{{\"k\":{a},\"l\":{b}}}"), _ => format!("[{{\"m n\":[{a}]}},{b}]") };
        let v: Value = serde_json::from_str(&t).unwrap();
        match pretty_print_fast(&v) { Ok(o) => check(o == serde_json::to_string_pretty(&v).unwrap(), "fast pretty printing writes another text"), Err(_) => check(false, "fast pretty printing fails") }
        match serialize_json_fast(&v) { Ok(o) => check(o == serde_json::to_vec(&v).unwrap(), "fast serialising writes another text"), Err(_) => check(false, "fast serialising fails") }
        let r = parse_json_batch::<Value>(&[t.as_bytes(), b"]", b" 3 "]);
        check(r.len() == 3 && r[0].as_ref().is_ok_and(|x| *x == v) && r[1].is_err() && r[2].as_ref().is_ok_and(|x| *x == 3), "a batch is not parsed text by text");
        cover("shapes");
    }
}
