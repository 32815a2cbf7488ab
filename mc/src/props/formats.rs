//! C28 URI templates, C29 accelerated routines, C30 errors.
use super::util::*;
use crate::ctx::Ctx;
use crate::explore::*;
use async_trait::async_trait;
use base64::Engine;
use pmcp::error::ErrorCode;
use pmcp::shared::batch::BatchRequest;
use pmcp::shared::{StdioTransport, Transport, TransportMessage};
use pmcp::shared::uri_template::UriTemplate;
use pmcp::types::jsonrpc::{JSONRPCError, ResponsePayload};
use pmcp::types::protocol::*;
use pmcp::types::JSONRPCResponse;
use pmcp::{Error, Server};
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::sync::Arc;

// ------------------------------------------------------------------ C28

const OPS: [&str; 8] = ["", "+", "#", ".", "/", ";", "?", "&"];
const VALUES: [Option<&str>; 12] = [
    Some("v"),
    None,
    Some(""),
    Some("a b"),
    Some("a/b"),
    Some("é€😀x"),
    Some("50%"),
    Some("%41%zz%é"),
    Some("a.b-c_d~e"),
    Some("?#[]@!$&'()*+,;="),
    Some("\"<>\\^`{|}\n"),
    Some("long-value/with?parts#and&more"),
];

#[derive(Clone, Debug, PartialEq)]
enum Piece {
    Lit(&'static str),
    /// operator, variables with modifier (0 none, n prefix, usize::MAX explode)
    Ex(usize, Vec<(&'static str, usize)>),
}

fn template_text(ps: &[Piece]) -> String {
    let mut s = String::new();
    for p in ps {
        match p {
            Piece::Lit(t) => s.push_str(t),
            Piece::Ex(op, vars) => {
                let v: Vec<String> = vars
                    .iter()
                    .map(|(n, m)| match *m {
                        0 => (*n).to_string(),
                        usize::MAX => format!("{n}*"),
                        k => format!("{n}:{k}"),
                    })
                    .collect();
                s.push_str(&format!("{{{}{}}}", OPS[*op], v.join(",")));
            },
        }
    }
    s
}

/// RFC 6570 section 3.2.1: percent-encoding of a value
fn pct(v: &str, reserved: bool) -> String {
    let b = v.as_bytes();
    let mut s = String::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let unreserved = c.is_ascii_alphanumeric() || b"-._~".contains(&c);
        let triplet = c == b'%' && i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit();
        if unreserved || (reserved && (b":/?#[]@!$&'()*+,;=".contains(&c) || triplet)) {
            s.push(c as char);
        } else {
            s.push_str(&format!("%{c:02X}"));
        }
        i += 1;
    }
    s
}

/// RFC 6570 section 3.2.1, table of operators, for string values
fn encoded(op: usize, m: usize, v: &str) -> String {
    let cut: String = if m == 0 || m == usize::MAX { v.to_string() } else { v.chars().take(m).collect() };
    pct(&cut, op == 1 || op == 2)
}
fn expand(ps: &[Piece], vars: &HashMap<&str, &str>) -> String {
    let first = ["", "", "#", ".", "/", ";", "?", "&"];
    let sep = [",", ",", ",", ".", "/", ";", "&", "&"];
    let mut s = String::new();
    for p in ps {
        match p {
            Piece::Lit(t) => s.push_str(t),
            Piece::Ex(op, vs) => {
                let mut any = false;
                for (n, m) in vs {
                    let Some(v) = vars.get(n) else { continue };
                    s.push_str(if any { sep[*op] } else { first[*op] });
                    any = true;
                    if *op >= 5 {
                        s.push_str(n);
                        if !(v.is_empty() && *op == 5) {
                            s.push('=');
                        }
                    }
                    s.push_str(&encoded(*op, *m, v));
                }
            },
        }
    }
    s
}

/// Every way `uri` can come from the template with non-empty values; values of
/// multi-variable expressions are left out.
fn decompose<'a>(ps: &[Piece], uri: &'a str, acc: &mut Vec<(&'static str, &'a str)>, out: &mut Vec<Vec<(&'static str, &'a str)>>) {
    let Some(p) = ps.first() else {
        if uri.is_empty() {
            out.push(acc.clone());
        }
        return;
    };
    match p {
        Piece::Lit(t) => {
            if let Some(r) = uri.strip_prefix(t) {
                decompose(&ps[1..], r, acc, out);
            }
        },
        Piece::Ex(op, vs) => {
            let single = vs.len() == 1;
            let head = match *op {
                _ if !single => String::new(),
                2 => "#".into(),
                3 => ".".into(),
                4 => "/".into(),
                5..=7 => format!("{}{}=", OPS[*op], vs[0].0),
                _ => String::new(),
            };
            let Some(r) = uri.strip_prefix(head.as_str()) else { return };
            for e in (1..=r.len()).filter(|e| r.is_char_boundary(*e)) {
                let v = &r[..e];
                if single && matches!(op, 0 | 3 | 4) && v.contains('/') {
                    break;
                }
                if single {
                    acc.push((vs[0].0, v));
                }
                decompose(&ps[1..], &r[e..], acc, out);
                if single {
                    acc.pop();
                }
            }
        },
    }
}

fn check_match(o: &mut Outcome, t: &UriTemplate, ps: &[Piece], uri: &str, produced: bool) {
    let got = t.match_uri(uri);
    let mut all = vec![];
    decompose(ps, uri, &mut vec![], &mut all);
    let as_map = |d: &Vec<(&str, &str)>| -> Vec<HashMap<String, String>> {
        // with a repeated variable either occurrence may be given
        let mut v = vec![HashMap::new()];
        for (n, x) in d {
            let mut w = vec![];
            for m in v {
                let mut a: HashMap<String, String> = m.clone();
                if a.contains_key(*n) {
                    w.push(m);
                }
                a.insert((*n).to_string(), (*x).to_string());
                w.push(a);
            }
            v = w;
        }
        v
    };
    o.transitions += 1;
    match got {
        None => {
            if produced {
                o.fail("no-match", format!("{t} does not match {uri:?}, which it produced"));
            }
        },
        Some(m) => {
            if !all.iter().any(|d| as_map(d).contains(&m)) {
                o.fail("wrong-match", format!("{t} matched against {uri:?} gives {m:?}, which does not lead back; possible: {all:?}"));
            }
        },
    }
}

fn varname(s: &str) -> Option<bool> {
    // Some(true): certainly fine; None: certainly not; Some(false): not specified here
    let mut ok = true;
    if s.is_empty() || s.starts_with('.') || s.ends_with('.') || s.contains("..") {
        return None;
    }
    for c in s.chars() {
        match c {
            'a'..='z' | 'A'..='Z' | '_' | '0'..='9' => {},
            '.' => ok = false,
            _ => return None,
        }
    }
    Some(ok && !s.starts_with(|c: char| c.is_ascii_digit()))
}

/// is the template well-formed?  None: not specified
fn well_formed(t: &str) -> Option<bool> {
    let mut sure = true;
    let mut rest = t;
    loop {
        let Some(i) = rest.find(['{', '}']) else { break };
        if rest[i..].starts_with('}') {
            return Some(false);
        }
        let Some(e) = rest[i..].find('}') else { return Some(false) };
        let mut body = &rest[i + 1..i + e];
        rest = &rest[i + e + 1..];
        if let Some(b) = body.strip_prefix(['+', '#', '.', '/', ';', '?', '&']) {
            body = b;
        }
        for spec in body.split(',') {
            // blanks around a variable are tolerated or not
            let s = spec.trim();
            sure &= s.len() == spec.len();
            let (name, modifier) = match s.find(':') {
                Some(k) => (&s[..k], Some(&s[k + 1..])),
                None => (s.strip_suffix('*').unwrap_or(s), None),
            };
            if let Some(m) = modifier {
                let ok = !m.is_empty() && m.len() <= 4 && !m.starts_with('0') && m.bytes().all(|b| b.is_ascii_digit());
                if !ok {
                    return Some(false);
                }
            }
            match varname(name) {
                None => return Some(false),
                Some(s) => sure &= s,
            }
        }
    }
    sure.then_some(true)
}

pub fn c28(ctx: &Ctx) {
    ctx.assume("values are strings (lists and maps are not expressible in the API); matching is claimed for URIs expanded from non-empty values");
    let lits = ["/", "a", "x?k=1&"];
    let mut alpha: Vec<Piece> = lits.iter().map(|l| Piece::Lit(l)).collect();
    for op in 0..8 {
        for vs in [vec![("x", 0)], vec![("y", 0)], vec![("x", 0), ("y", 0)], vec![("x", 3)], vec![("x", usize::MAX)], vec![("y", 1), ("x", usize::MAX), ("z_1", 0)]] {
            alpha.push(Piece::Ex(op, vs));
        }
    }
    let alpha = Arc::new(alpha);
    // every pair of pieces with every pair of values
    let n = ctx.by(2, 3);
    let (a, k) = (alpha.clone(), alpha.len());
    let cases = sequences_upto(k, n).map(move |q| q.into_iter().map(|i| a[i].clone()).collect::<Vec<_>>());
    let thorough = ctx.thorough();
    for_all(ctx, &format!("expansion and matching of templates of up to {n} pieces"), cases, |ps| {
        let mut o = Outcome::default();
        let text = template_text(ps);
        let t = match UriTemplate::new(text.as_str()) {
            Ok(t) => t,
            Err(e) => {
                o.fail("refused", format!("{text:?}: {e}"));
                return o;
            },
        };
        let vars: Vec<String> = ps.iter().flat_map(|p| if let Piece::Ex(_, v) = p { v.clone() } else { vec![] }).map(|v| v.0.to_string()).collect();
        expect_eq(&mut o, "variables", &text, t.variables(), vars);
        expect_eq(&mut o, "display", &text, t.to_string(), text.clone());
        let back: Result<UriTemplate, _> = serde_json::from_value(serde_json::to_value(&t).unwrap());
        if back.ok().as_ref() != Some(&t) {
            o.fail("serde", format!("{text:?} does not survive serialization"));
        }
        let some = if thorough && ps.len() > 2 { 4 } else { VALUES.len() };
        for x in &VALUES[..some] {
            for y in &VALUES[..some] {
                let mut m = HashMap::from([("z_1", "Z")]);
                for (k, v) in [("x", x), ("y", y)] {
                    if let Some(v) = v {
                        m.insert(k, v);
                    }
                }
                o.transitions += 1;
                let want = expand(ps, &m);
                let list: Vec<(&str, &str)> = m.iter().map(|(k, v)| (*k, *v)).collect();
                let got = t.expand(&list).map_err(|e| e.to_string());
                expect_eq(&mut o, "expansion", format!("{text:?} with {m:?}"), got, Ok(want.clone()));
                let owned: HashMap<String, String> = m.iter().map(|(k, v)| ((*k).to_string(), (*v).to_string())).collect();
                expect_eq(&mut o, "expansion", format!("{text:?} with map {m:?}"), t.expand_with_map(&owned).map_err(|e| e.to_string()), Ok(want.clone()));
                let full = ps.iter().all(|p| if let Piece::Ex(_, v) = p { v.iter().all(|v| m.get(v.0).is_some_and(|x| !x.is_empty())) } else { true });
                if want.len() < 40 {
                    check_match(&mut o, &t, ps, &want, full);
                }
                if o.fails.len() > 3 {
                    return o;
                }
            }
        }
        o.observed = t.expand(&[("x", "v")]).unwrap_or_default();
        o
    });
    // longer templates of single-variable expressions, matched against their own
    // expansions and against variations
    let mut single: Vec<Piece> = ["/", "/a/", "-"].iter().map(|l| Piece::Lit(l)).collect();
    for op in 0..8 {
        single.push(Piece::Ex(op, vec![("x", 0)]));
        single.push(Piece::Ex(op, vec![("y", 0)]));
    }
    single.push(Piece::Ex(0, vec![("y", 0), ("z_1", 0)]));
    let single = Arc::new(single);
    let d = ctx.by(3, 4);
    let s2 = single.clone();
    let cases = sequences(single.len(), d).map(move |q| q.into_iter().map(|i| s2[i].clone()).collect::<Vec<_>>());
    for_all(ctx, &format!("matching of templates of {d} pieces"), cases, |ps| {
        let mut o = Outcome::default();
        let Ok(t) = UriTemplate::new(template_text(ps)) else {
            o.fail("refused", template_text(ps));
            return o;
        };
        for (x, y) in [("v", "w"), ("a b", "q"), ("1/2", "b.c"), ("%41", "é"), ("a", "a"), ("=", ";&?#")] {
            let m = HashMap::from([("z_1", "Z"), ("x", x), ("y", y)]);
            let uri = expand(ps, &m);
            check_match(&mut o, &t, ps, &uri, true);
            for bad in [format!("{uri}/"), format!("/{uri}"), uri[..uri.len() - 1].to_string(), uri[1..].to_string(), uri.replace('/', ""), uri.replace('=', ""), uri.to_uppercase(), format!("{uri}#f"), format!("{uri}?q=1")] {
                check_match(&mut o, &t, ps, &bad, false);
            }
        }
        o.observed = format!("{:?}", t.match_uri("/v/w").map(|m| m.len()));
        o
    });
    // well-formedness
    let sym = ["{", "}", "x", "+", ",", "*", ":", "3", "0", " ", "é", ".", "=", "-"];
    let len = ctx.by(5, 6);
    for_all(ctx, &format!("template texts of up to {len} symbols"), sequences_upto(sym.len(), len), |q| {
        let t: String = q.iter().map(|i| sym[*i]).collect();
        let mut o = Outcome::default();
        let got = UriTemplate::new(t.as_str());
        o.observed = format!("{}", got.is_ok());
        match well_formed(&t) {
            Some(w) if w != got.is_ok() => o.fail(if w { "refused" } else { "ill-formed-accepted" }, format!("{t:?}: {:?}", got.err())),
            _ => {},
        }
        o
    });
}

// ------------------------------------------------------------------ C29

use pmcp::utils::{parse_json_batch, parse_json_fast, pretty_print_fast, serialize_json_fast};

/// Bytes that end at an unreadable page, so that reading beyond them is fatal.
struct Guarded {
    base: *mut u8,
    size: usize,
}
impl Guarded {
    fn new() -> Self {
        let size = 4096 * 2;
        // SAFETY: a fresh private mapping
        let base = unsafe { libc::mmap(std::ptr::null_mut(), size + 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) }.cast::<u8>();
        assert!(!base.is_null());
        unsafe { libc::mprotect(base.add(size).cast(), 4096, libc::PROT_NONE) };
        Guarded { base, size }
    }
    fn put(&self, b: &[u8]) -> &mut [u8] {
        // SAFETY: within the mapping; one user at a time (thread local)
        unsafe {
            let p = self.base.add(self.size - b.len());
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
            std::slice::from_raw_parts_mut(p, b.len())
        }
    }
}
thread_local! {
    static GUARDED: Guarded = Guarded::new();
    static GUARDED2: Guarded = Guarded::new();
}

fn same<T: PartialEq + std::fmt::Debug>(o: &mut Outcome, key: &str, input: &[u8], got: T, want: T) {
    o.transitions += 1;
    if got != want {
        o.fail(key, format!("{key} of {:?} ({} bytes): {got:?}, plainly {want:?}", String::from_utf8_lossy(input), input.len()));
    }
}

fn scan(o: &mut Outcome, b: &[u8]) {
    let at = |f: fn(u8) -> bool| b.iter().enumerate().filter(|(_, c)| f(**c)).map(|(i, _)| i).collect::<Vec<_>>();
    GUARDED.with(|g| {
        let g: &[u8] = g.put(b);
        // SAFETY: the machine has AVX2 (checked by the caller)
        unsafe {
            same(o, "find_whitespace", b, pmcp::simd::json::find_whitespace_simd(g), at(|c| matches!(c, b' ' | b'\t' | b'\n' | b'\r')));
            same(o, "find_escapes", b, pmcp::simd::json::find_escapes_simd(g), at(|c| c == b'\\' || c == b'"'));
            same(o, "validate_utf8", b, pmcp::simd::json::validate_utf8_simd(g), std::str::from_utf8(b).is_ok());
        }
    });
}

fn parse_same(o: &mut Outcome, b: &[u8]) {
    let want: Option<Value> = serde_json::from_slice(b).ok();
    same(o, "parse", b, parse_json_fast::<Value>(b).ok(), want.clone());
    let batch: Vec<Option<Value>> = parse_json_batch::<Value>(&[b, b"{\"k\": 1}", b]).into_iter().map(Result::ok).collect();
    same(o, "parse_batch", b, batch, vec![want.clone(), Some(json!({"k": 1})), want.clone()]);
    same(o, "parse_typed", b, parse_json_fast::<Vec<i64>>(b).ok(), serde_json::from_slice::<Vec<i64>>(b).ok());
    if let Some(v) = want {
        print_same(o, &v);
    }
}

fn print_same(o: &mut Outcome, v: &Value) {
    let text = v.to_string();
    // (plain text need not keep the last digit of a float)
    let v = &serde_json::from_str::<Value>(&text).unwrap();
    let text = v.to_string();
    let want = serde_json::from_str::<Value>(&text).unwrap();
    let p = pretty_print_fast(v).map_err(|e| e.to_string());
    same(o, "pretty_print", text.as_bytes(), p.and_then(|p| serde_json::from_str::<Value>(&p).map_err(|e| format!("{e}: {p}"))), Ok(want.clone()));
    let s = serialize_json_fast(v).map_err(|e| e.to_string());
    same(o, "serialize", text.as_bytes(), s.and_then(|s| serde_json::from_slice::<Value>(&s).map_err(|e| e.to_string())), Ok(want));
}

pub fn c29(ctx: &Ctx) {
    if !is_x86_feature_detected!("avx2") {
        ctx.assume("this machine has no AVX2: only the JSON entry points, which fall back, were checked");
    }
    let toks: [&[u8]; 19] = [b"{", b"}", b"[", b"]", b",", b":", b"\"a b\"", b"\"\\\"\\\\\"", b"1", b"-", b"2.5e3", b"tr", b"ue", b"null", b" ", b"\n", "\"é😀\"".as_bytes(), b"\x0b", b"\xc3"];
    let len = ctx.by(5, 6);
    for_all(ctx, &format!("JSON texts of up to {len} tokens"), sequences_upto(toks.len(), len), |q| {
        let mut o = Outcome::default();
        let b: Vec<u8> = q.iter().flat_map(|i| toks[*i].iter().copied()).collect();
        parse_same(&mut o, &b);
        o.observed = format!("{}", serde_json::from_slice::<Value>(&b).is_ok());
        o
    });
    // the same with the text at every offset around the vector width, and with few
    // and many blanks (two code paths)
    let plen = ctx.by(2, 3);
    let cases = sequences_upto(toks.len(), plen).flat_map(move |q| {
        (0..if plen == 2 { 72usize } else { 36 }).map(move |pad| (q.clone(), pad))
    });
    for_all(ctx, &format!("texts of up to {plen} tokens at every offset"), cases, |(q, pad)| {
        let mut o = Outcome::default();
        let mid: Vec<u8> = q.iter().flat_map(|i| toks[*i].iter().copied()).collect();
        let mut v = vec![];
        for k in 0..4 {
            v.clear();
            match k {
                0 => {
                    v.push(b'[');
                    v.extend(std::iter::repeat_n(b' ', *pad));
                },
                1 => {
                    v.extend_from_slice(b"[\"");
                    v.extend(std::iter::repeat_n(b'x', *pad));
                    v.extend_from_slice(b"\",");
                },
                2 => v.extend(std::iter::repeat_n(b'[', *pad)),
                _ => {
                    v.extend_from_slice(b"[\"");
                    v.extend((0..*pad).map(|i| b" x\t"[i % 2]));
                },
            }
            v.extend_from_slice(&mid);
            match k {
                2 => v.extend(std::iter::repeat_n(b']', *pad)),
                3 => v.extend_from_slice(b"\"]"),
                _ => v.extend_from_slice(b" ]"),
            }
            parse_same(&mut o, &v);
            if k == 0 {
                v.extend(std::iter::repeat_n(b'\n', 40 - pad.min(&39)));
                parse_same(&mut o, &v);
            }
        }
        o
    });
    // printing strings full of structure
    let chars = ["a", "\"", "\\", "{", "}", "[", ",", ":", " ", "\n", "é", "\u{1f600}", "\u{7f}", "\u{0}", "\u{2028}"];
    let cases = (0..ctx.by(2usize, 3)).flat_map(move |n| sequences(15, n + 1)).flat_map(|q| [0usize, 1, 13, 26, 27, 28, 29, 30, 31, 32, 33].into_iter().map(move |p| (q.clone(), p)));
    for_all(ctx, "printing", cases, |(q, pad)| {
        let mut o = Outcome::default();
        let s = format!("{}{}", "p".repeat(*pad), q.iter().map(|i| chars[*i]).collect::<String>());
        for v in [json!(s), json!({s.clone(): [s, [], {}, {"k": s}]}), json!([s, 1.5, null, true, {s.clone(): {}}])] {
            print_same(&mut o, &v);
            parse_same(&mut o, v.to_string().as_bytes());
        }
        o
    });
    if !is_x86_feature_detected!("avx2") {
        return;
    }

    // byte routines: every length and every position of one special byte
    let max = ctx.by(100, 200);
    for_all(ctx, "one special byte", (0..=max).flat_map(|n: usize| (0..n.max(1)).map(move |p| (n, p))), |&(n, p)| {
        let mut o = Outcome::default();
        for fill in [b'a', b' ', b'"', 0xc3] {
            for special in [0u8, 9, 10, 11, 12, 13, 31, 32, 33, 34, 35, 91, 92, 93, 127, 128, 129, 160, 0xa2, 0xc2, 0xdc, 0xe2, 0xf0, 0xff] {
                let mut b = vec![fill; n];
                if p < n {
                    b[p] = special;
                }
                scan(&mut o, &b);
            }
        }
        o.observed = format!("{n}");
        o
    });
    for_all(ctx, "every byte value", (0..=255u8).flat_map(|b| [1usize, 31, 32, 33, 63, 64, 65].into_iter().map(move |n| (b, n))), |&(b, n)| {
        let mut o = Outcome::default();
        for p in 0..n {
            let mut v = vec![b'q'; n];
            v[p] = b;
            scan(&mut o, &v);
        }
        scan(&mut o, &vec![b; n]);
        o
    });
    for_all(ctx, "two special bytes", (0..66usize).flat_map(|p| (p + 1..66).map(move |q| (p, q))), |&(p, q)| {
        let mut o = Outcome::default();
        for x in *b" \n\"\\" {
            for y in *b"\t\r\"\\" {
                let mut v = vec![b'q'; 66];
                v[p] = x;
                v[q] = y;
                scan(&mut o, &v);
                scan(&mut o, &v[p..]);
                scan(&mut o, &v[..=q]);
            }
        }
        o
    });
    // UTF-8: every sequence of class representatives across the vector boundary
    let reps = [b'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xff];
    let ul = 4;
    for_all(ctx, "UTF-8 class sequences at every offset", sequences(reps.len(), ul), |q| {
        let mut o = Outcome::default();
        let s: Vec<u8> = q.iter().map(|i| reps[*i]).collect();
        for off in [0usize, 28, 29, 30, 31, 32, 60] {
            for tail in [0usize, 1, 40] {
                let mut b = vec![b'a'; off];
                b.extend_from_slice(&s);
                b.extend(std::iter::repeat_n(b'z', tail));
                GUARDED.with(|g| {
                    let g: &[u8] = g.put(&b);
                    // SAFETY: AVX2 checked above
                    same(&mut o, "validate_utf8", &b, unsafe { pmcp::simd::json::validate_utf8_simd(g) }, std::str::from_utf8(&b).is_ok());
                });
            }
        }
        o.observed = format!("{}", std::str::from_utf8(&s).is_ok());
        o
    });
    // copying, base64, masking, checksums
    for_all(ctx, "copy, base64, mask, checksum", 0..=ctx.by(200usize, 600), |&n| {
        let mut o = Outcome::default();
        for seed in 0..6u32 {
            let b: Vec<u8> = (0..n as u32)
                .map(|i| match seed {
                    0 => 0,
                    1 => 255,
                    2 => i as u8,
                    3 => 255 - i as u8,
                    4 => (i * 37 + 11) as u8,
                    _ => (i.wrapping_mul(2_654_435_761) >> 13) as u8,
                })
                .collect();
            GUARDED.with(|g| {
                let s: &mut [u8] = g.put(&b);
                // SAFETY: AVX2 checked above
                unsafe {
                    let mut out = b"pre".to_vec();
                    pmcp::simd::serialization::base64_encode_simd(s, &mut out);
                    same(&mut o, "base64", &b, String::from_utf8_lossy(&out).into_owned(), format!("pre{}", base64::engine::general_purpose::STANDARD.encode(&b)));
                    GUARDED2.with(|h| {
                        for extra in [0usize, 1, 33] {
                            let d = h.put(&vec![0x5a; n + extra]);
                            pmcp::simd::serialization::copy_simd(s, d);
                            same(&mut o, "copy", &b, d.to_vec(), [b.clone(), vec![0x5a; extra]].concat());
                        }
                    });
                    same(&mut o, "checksum", &b, pmcp::simd::batch::batch_checksum_simd(&[s, b"", b"ab"]), vec![b.iter().map(|x| u32::from(*x)).sum(), 0, 195]);
                    for mask in [[0u8; 4], [255; 4], [1, 2, 3, 4], [0x80, 0, 0x7f, 0xaa]] {
                        let s = g.put(&b);
                        pmcp::simd::serialization::xor_mask_simd(s, mask);
                        same(&mut o, "xor_mask", &b, s.to_vec(), b.iter().enumerate().map(|(i, x)| x ^ mask[i % 4]).collect());
                    }
                }
            });
        }
        o.observed = format!("{n}");
        o
    });
    // run lengths
    let runs = [1usize, 2, 3, 31, 32, 33, 63, 64, 65, 254, 255, 256, 257, 287, 510, 511, 600];
    let rl = ctx.by(3, 4);
    for_all(ctx, &format!("run-length encoding of up to {rl} runs"), sequences_upto(runs.len(), rl), |q| {
        let mut o = Outcome::default();
        for bytes in [[0u8, 255], [255, 128], [b'a', b'b']] {
            let b: Vec<u8> = q.iter().enumerate().flat_map(|(k, r)| std::iter::repeat_n(bytes[k % 2], runs[*r])).collect();
            let mut want = vec![9u8];
            let mut i = 0;
            while i < b.len() {
                let n = b[i..].iter().take(255).take_while(|x| **x == b[i]).count();
                want.extend([n as u8, b[i]]);
                i += n;
            }
            GUARDED.with(|g| {
                let s: &[u8] = g.put(&b);
                let mut out = vec![9u8];
                // SAFETY: AVX2 checked above
                unsafe { pmcp::simd::compression::rle_encode_simd(s, &mut out) };
                same(&mut o, "rle", &b, out, want.clone());
            });
        }
        o
    });
    // substring search
    let needles: [&[u8]; 12] = [b"", b"a", b"b", b"ab", b"ba", b"aab", b"bbb", b"abab", b"\x80", b"\xff\x00", &[b'a'; 31], &[b'a'; 40]];
    for_all(ctx, "substring search", (0..=ctx.by(80usize, 140)).flat_map(|n| (0..12usize).map(move |k| (n, k))), |&(n, k)| {
        let mut o = Outcome::default();
        let needle = needles[k];
        let mut try_one = |h: &[u8]| {
            let want = if needle.is_empty() { None } else { h.windows(needle.len()).position(|w| w == needle) };
            GUARDED.with(|g| {
                let s: &[u8] = g.put(h);
                // SAFETY: AVX2 checked above
                let got = unsafe { pmcp::simd::compression::find_pattern_simd(s, needle) };
                o.transitions += 1;
                if got != want {
                    o.fail("find_pattern", format!("{needle:?} in {h:?}: {got:?}, plainly {want:?}"));
                }
            });
        };
        for fill in [b"a".as_slice(), b"b", b"ab", b"aab", b"x"] {
            let base: Vec<u8> = (0..n).map(|i| fill[i % fill.len()]).collect();
            try_one(&base);
            for p in 0..n.saturating_sub(needle.len().max(1) - 1) {
                let mut h = base.clone();
                h[p..p + needle.len()].copy_from_slice(needle);
                try_one(&h);
                h.truncate(p + needle.len());
                try_one(&h);
                if p > 0 {
                    h[p - 1] = 0xc3;
                    try_one(&h);
                }
            }
        }
        o.observed = format!("{n}");
        o
    });
    // lengths
    let ls = [0u32, 1, 99, 100, 101, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, u32::MAX];
    for_all(ctx, "length validation", (0..=40usize).flat_map(|n| (0..9usize).map(move |m| (n, m))), |&(n, m)| {
        let mut o = Outcome::default();
        for shift in 0..9 {
            for same_all in [false, true] {
                let v: Vec<u32> = (0..n).map(|i| ls[if same_all { shift } else { (i + shift) % 9 }]).collect();
                // SAFETY: AVX2 checked above
                let got = unsafe { pmcp::simd::batch::batch_validate_lengths(&v, ls[m]) };
                let want: Vec<bool> = v.iter().map(|x| *x <= ls[m]).collect();
                o.transitions += 1;
                if got != want {
                    o.fail("validate_lengths", format!("{v:?} up to {}: {got:?}", ls[m]));
                }
            }
        }
        o
    });
}

// ------------------------------------------------------------------ C30

/// Client transport that hands every request, as text, to a real server and
/// gives back the response, as text.
#[derive(Debug)]
struct Direct {
    server: Arc<Server>,
    answers: VecDeque<Vec<u8>>,
    wire: Log<Value>,
}

#[async_trait]
impl Transport for Direct {
    async fn send(&mut self, m: TransportMessage) -> pmcp::Result<()> {
        let text = StdioTransport::serialize_message(&m)?;
        if let TransportMessage::Request { .. } = m {
            let q = serde_json::from_slice(&text)?;
            for r in self.server.handle_batch_request(BatchRequest::Single(q)).await?.into_responses() {
                let text = StdioTransport::serialize_message(&TransportMessage::Response(r))?;
                self.wire.push(serde_json::from_slice(&text)?);
                self.answers.push_back(text);
            }
        }
        Ok(())
    }
    async fn receive(&mut self) -> pmcp::Result<TransportMessage> {
        match self.answers.pop_front() {
            Some(t) => StdioTransport::parse_message(&t),
            None => Err(Error::internal("nothing to receive")),
        }
    }
    async fn close(&mut self) -> pmcp::Result<()> {
        Ok(())
    }
}

fn all_caps() -> pmcp::ServerCapabilities {
    serde_json::from_value(json!({"tools": {}, "prompts": {}, "resources": {"subscribe": true}, "sampling": {}, "logging": {}, "completions": {}})).expect("capabilities")
}

/// Errors a handler may return: kind, code, message, data.
#[derive(Clone, Debug)]
enum Bad {
    Protocol(i32, &'static str, Option<Value>),
    Kind(usize),
}
const KINDS: usize = 12;
impl Bad {
    fn error(&self) -> Error {
        match self {
            Bad::Protocol(c, m, d) => Error::Protocol { code: ErrorCode::other(*c), message: (*m).into(), data: d.clone() },
            Bad::Kind(k) => match k {
                0 => Error::validation("vvv"),
                1 => Error::internal("iii"),
                2 => Error::not_found("nnn"),
                3 => Error::authentication("aaa"),
                4 => Error::capability("ccc"),
                5 => Error::Timeout(4711),
                6 => Error::InvalidState("sss".into()),
                7 => Error::Cancelled,
                8 => Error::Transport(pmcp::error::TransportError::ConnectionClosed),
                9 => Error::Serialization(serde_json::from_str::<Value>("{").unwrap_err()),
                10 => Error::cancelled("stop"),
                _ => Error::from(std::io::Error::other("ooo")),
            },
        }
    }
}

struct Failing(Bad);
#[async_trait]
impl pmcp::ToolHandler for Failing {
    async fn handle(&self, _: Value, _: pmcp::RequestHandlerExtra) -> pmcp::Result<Value> {
        Err(self.0.error())
    }
}
#[async_trait]
impl pmcp::PromptHandler for Failing {
    async fn handle(&self, _: HashMap<String, String>, _: pmcp::RequestHandlerExtra) -> pmcp::Result<GetPromptResult> {
        Err(self.0.error())
    }
}
#[async_trait]
impl pmcp::ResourceHandler for Failing {
    async fn read(&self, _: &str, _: pmcp::RequestHandlerExtra) -> pmcp::Result<ReadResourceResult> {
        Err(self.0.error())
    }
    async fn list(&self, _: Option<String>, _: pmcp::RequestHandlerExtra) -> pmcp::Result<ListResourcesResult> {
        Err(self.0.error())
    }
}
#[async_trait]
impl pmcp::SamplingHandler for Failing {
    async fn create_message(&self, _: CreateMessageParams, _: pmcp::RequestHandlerExtra) -> pmcp::Result<CreateMessageResult> {
        Err(self.0.error())
    }
}

/// what a received code is read as: the codes the protocol names are kept, the
/// rest of the server range stands for an internal error
fn read_code(c: i32) -> i32 {
    match c {
        -32004..=-32001 => c,
        -32099..=-32000 => -32603,
        _ => c,
    }
}

fn fields(e: &Error) -> Option<(i32, String, Option<Value>)> {
    match e {
        Error::Protocol { code, message, data } => Some((code.as_i32(), message.clone(), data.clone())),
        _ => None,
    }
}

fn bads(thorough: bool) -> Vec<Bad> {
    let mut codes = vec![-32700, -32600, -32601, -32602, -32603, -32000, -32001, -32002, -32003, -32004, -32005, -32050, -32099, -32100, -31999, 0, 1, -1, 404, i32::MAX, i32::MIN];
    if thorough {
        codes.extend(-32800..=-31900);
    }
    let mut v: Vec<Bad> = (0..KINDS).map(Bad::Kind).collect();
    for c in codes {
        for m in ["", "m", "line\nbreak \"q\" é", "Protocol error: -32602 - x"] {
            for d in [None, Some(json!({"a": [1, null, "é"]})), Some(json!("s")), Some(json!(0)), Some(json!([])), Some(json!(false))] {
                v.push(Bad::Protocol(c, m, d));
            }
        }
    }
    v
}

pub fn c30(ctx: &Ctx) {
    ctx.assume("codes of the server range without a name of their own are read as internal errors (documented)");
    // end to end: handler -> server -> text -> client
    let bs = Arc::new(bads(ctx.thorough()));
    let b2 = bs.clone();
    let cases = (0..5usize).flat_map(move |op| b2.as_ref().clone().into_iter().map(move |b| (op, b)));
    for_all(ctx, "errors of handlers as seen by the client", cases, |(op, bad)| {
        let mut o = Outcome::default();
        let wire = Log::new();
        let (w2, o2) = (wire.clone(), &mut o);
        seq(async move {
            let f = || Failing(bad.clone());
            let server = Server::builder().name("s").version("1").tool("t", f()).prompt("p", f()).resources(f()).sampling(f()).capabilities(all_caps()).build().expect("server");
            let mut c = pmcp::Client::new(Direct { server: Arc::new(server), answers: VecDeque::new(), wire: w2 });
            if let Err(e) = c.initialize(pmcp::ClientCapabilities::full()).await {
                o2.fail("setup", e.to_string());
                return;
            }
            let r: pmcp::Result<()> = match op {
                0 => c.call_tool("t".into(), json!({})).await.map(|_| ()),
                1 => c.get_prompt("p".into(), HashMap::new()).await.map(|_| ()),
                2 => c.list_resources(None).await.map(|_| ()),
                3 => c.read_resource("u".into()).await.map(|_| ()),
                _ => c.create_message(serde_json::from_value(json!({"messages": [], "includeContext": "none"})).unwrap()).await.map(|_| ()),
            };
            let what = format!("operation {op}, handler error {bad:?}");
            match (r, bad) {
                (Ok(()), _) => o2.fail("error-lost", format!("{what}: succeeded")),
                (Err(e), Bad::Protocol(c, m, d)) => {
                    expect_eq(o2, "error-changed", format!("{what} ({e})"), fields(&e), Some((read_code(*c), (*m).to_string(), d.clone())));
                },
                (Err(e), Bad::Kind(_)) => {
                    let orig = bad.error().to_string();
                    match fields(&e) {
                        Some((-32603, m, None)) if m.contains(&orig) => {},
                        f => o2.fail("error-changed", format!("{what}: arrived as {f:?} ({e}), sent {orig:?}")),
                    }
                },
            }
        });
        for w in wire.get() {
            if w.get("result").is_some() == w.get("error").is_some() {
                o.fail("result-and-error", w.to_string());
            }
        }
        o.observed = wire.get().last().map(|w| w["error"]["code"].to_string()).unwrap_or_default();
        o
    });
    // conversions
    let cases: Vec<Bad> = bs.iter().cloned().collect();
    for_all(ctx, "conversions", cases, |bad| {
        let mut o = Outcome::default();
        let e = bad.error();
        let text = e.to_string();
        let (code, is) = (e.error_code(), [-32700, -32600, -32601, -32602, -32603, -32001, -32002, -32003, -32004, 7].map(|c| e.is_error_code(ErrorCode(c))));
        let j = JSONRPCError::from(e);
        match bad {
            Bad::Protocol(c, m, d) => {
                let what = format!("{bad:?}");
                expect_eq(&mut o, "conversion", &what, (j.code, j.message.as_str(), j.data.clone()), (*c, *m, d.clone()));
                expect_eq(&mut o, "conversion", &what, code.map(|c| c.as_i32()), Some(*c));
                expect_eq(&mut o, "conversion", &what, is, [-32700, -32600, -32601, -32602, -32603, -32001, -32002, -32003, -32004, 7].map(|k| k == *c));
                if !text.contains(m) || !text.contains(&c.to_string()) {
                    o.fail("display", format!("{what}: {text}"));
                }
                let back = Error::from_jsonrpc_error(j);
                expect_eq(&mut o, "conversion", &what, fields(&back), Some((read_code(*c), (*m).to_string(), d.clone())));
            },
            Bad::Kind(_) => {
                if j.code != -32603 || !j.message.contains(&text) || code.is_some() || is.contains(&true) {
                    o.fail("conversion", format!("{bad:?}: {j:?}, code {code:?}"));
                }
            },
        }
        o.observed = text;
        o
    });
    for_all(ctx, "codes", (-33100..=-31900).chain([0, 1, -1, i32::MAX, i32::MIN, 32700, -3260]), |&c| {
        let mut o = Outcome::default();
        expect_eq(&mut o, "code", c, ErrorCode::from_i32(c).as_i32(), read_code(c));
        expect_eq(&mut o, "code", c, ErrorCode::other(c).as_i32(), c);
        o
    });
    // response objects
    let results = [None, Some("null"), Some("{}"), Some("1"), Some(r#"{"error":{"code":1,"message":"x"}}"#)];
    let errors = [None, Some("null"), Some(r#"{"code":-32602,"message":"m"}"#), Some(r#"{"code":5,"message":"","data":{"result":1}}"#), Some(r#"{"code":"5","message":""}"#), Some(r#"{"message":"m"}"#), Some(r#"{"code":1}"#), Some("\"m\"")];
    for_all(ctx, "response objects", (0..5usize).flat_map(|r| (0..8usize).flat_map(move |e| [false, true].into_iter().map(move |swap| (r, e, swap)))), |&(r, e, swap)| {
        let mut o = Outcome::default();
        let (rs, es) = (results[r].map(|v| format!(",\"result\":{v}")).unwrap_or_default(), errors[e].map(|v| format!(",\"error\":{v}")).unwrap_or_default());
        let text = format!("{{\"jsonrpc\":\"2.0\",\"id\":1{}}}", if swap { format!("{es}{rs}") } else { format!("{rs}{es}") });
        let a = serde_json::from_str::<JSONRPCResponse<Value>>(&text).ok();
        let b = match StdioTransport::parse_message(text.as_bytes()) {
            Ok(TransportMessage::Response(r)) => Some(r),
            Ok(m) => {
                o.fail("not-a-response", format!("{text}: {m:?}"));
                None
            },
            Err(_) => None,
        };
        let valid_error = matches!(e, 2 | 3);
        for got in [a, b] {
            let read = got.as_ref().map(|g| match &g.payload {
                ResponsePayload::Result(v) => Ok(v.clone()),
                ResponsePayload::Error(e) => Err((e.code, e.message.clone(), e.data.clone())),
            });
            o.observed = format!("{read:?}");
            let want_r = results[r].map(|s| serde_json::from_str::<Value>(s).unwrap());
            let want_e = errors[e].map(|s| serde_json::from_str::<Value>(s).unwrap());
            let ok = match (&read, r, e) {
                // one of the two
                (Some(Ok(v)), r, 0) => r > 0 && Some(v) == want_r.as_ref(),
                (Some(Err((c, m, d))), 0, _) => valid_error && want_e.as_ref().is_some_and(|w| w["code"] == *c && w["message"] == *m && w.get("data") == d.as_ref()),
                (None, r, 0) => r == 0,
                (None, 0, _) => !valid_error,
                (Some(Ok(_)), 0, _) | (Some(Err(_)), _, 0) => false,
                // both: not a well-formed response, which of them is read is not specified
                (Some(Err(_)), ..) => valid_error,
                (Some(Ok(v)), ..) => Some(v) == want_r.as_ref(),
                (None, ..) => true,
            };
            if !ok {
                o.fail("misread", format!("{text} is read as {read:?}"));
            }
        }
        o
    });
}
