//! C31 request context, C34 completion.
use super::util::*;
use crate::aengine::{deadlock, run_async};
use crate::ctx::Ctx;
use crate::explore::*;
use crate::tengine;
use crate::vm;
use futures::FutureExt;
use pmcp::shared::context::{ClientInfo, ContextPropagator, RequestContext};
use pmcp::shared::LogEntry;
use pmcp::types::completable::{
    completable, CompletableArgument, CompletionItem, CompletionProvider, CompletionProviderTrait, CompletionRequest, FileCompletionProvider, StaticCompletionProvider,
};
use pmcp::types::RequestId;
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::sync::Arc;

// ------------------------------------------------------------------ C31

type Seen = Option<(String, String, String, Option<String>, Option<String>)>;
fn ident(c: &RequestContext) -> Seen {
    Some((c.request_id.to_string(), c.trace_id.clone(), c.span_id.clone(), c.parent_span_id.clone(), c.user_id.clone()))
}
fn current() -> Seen {
    RequestContext::current().and_then(|c| ident(&c))
}

#[derive(Clone)]
struct Probe {
    bad: Log<String>,
    looks: Log<()>,
}
impl Probe {
    fn look(&self, want: &Seen, at: &str) {
        self.looks.push(());
        let got = current();
        if got != *want {
            self.bad.push(format!("{at}: the current context is {got:?}, expected {want:?}"));
        }
        // what is logged here is logged for this request, and for no other
        let e = LogEntry::new("info", "m");
        let whole = RequestContext::current();
        let fields = (e.request_id.map(|r| r.to_string()), e.trace_id, e.span_id, e.user_id, e.session_id);
        let wanted = match (want, &whole) {
            (Some((id, trace, span, _, user)), Some(c)) => (Some(id.clone()), Some(trace.clone()), Some(span.clone()), user.clone(), c.session_id.clone()),
            _ => (None, None, None, None, None),
        };
        if fields != wanted {
            self.bad.push(format!("{at}: a log entry carries {fields:?}, expected {wanted:?}"));
        }
    }
}

const STEPS: [&str; 9] = ["yield", "child", "two children at once", "spawned task", "abandoned child", "failing child", "other request", "propagated", "child run where a context is wanted"];

fn inner(p: Probe, c: RequestContext, outside: Seen, at: String, pauses: usize) -> impl std::future::Future<Output = ()> + Send {
    let want = ident(&c);
    let q = p.clone();
    let at2 = at.clone();
    async move {
        c.run(async move {
            q.look(&want, &format!("{at}, at its start"));
            for _ in 0..pauses {
                tokio::task::yield_now().await;
                q.look(&want, &format!("{at}, after an await"));
            }
        })
        .await;
        p.look(&outside, &format!("after {at2}"));
    }
}

async fn step(p: &Probe, me: &RequestContext, k: usize, who: usize) {
    let want = ident(me);
    let at = |what: &str| format!("request {who}, {what}");
    match k {
        0 => tokio::task::yield_now().await,
        1 => inner(p.clone(), me.child(), want.clone(), at("child"), 1).await,
        2 => {
            // (after the first of two futures of one task ends, its scope is the enclosing one)
            let (a, b) = (me.child(), me.child());
            futures::future::join(inner(p.clone(), a, want.clone(), at("first child"), 1), inner(p.clone(), b, want.clone(), at("second child"), 2)).await;
        },
        3 => {
            let q = p.clone();
            let s = at("spawned task");
            let h = tokio::spawn(async move {
                q.look(&None, &s);
                tokio::task::yield_now().await;
                q.look(&None, &s);
            });
            let _ = h.await;
        },
        4 => {
            let mut f = Box::pin(inner(p.clone(), me.child(), want.clone(), at("abandoned child"), 2));
            let pending = futures::poll!(f.as_mut()).is_pending();
            p.look(&want, &at("while a child is suspended"));
            tokio::task::yield_now().await;
            if pending {
                p.look(&want, &at("before a child is dropped"));
            }
            drop(f);
        },
        5 => {
            let c = me.child();
            let r = AssertUnwindSafe(c.run(async {
                tokio::task::yield_now().await;
                if true {
                    std::panic::panic_any(0u8);
                }
            }))
            .catch_unwind()
            .await;
            if r.is_ok() {
                p.bad.push("a panic did not come out of run".into());
            }
        },
        6 => {
            let c = RequestContext::new(RequestId::Number(1000 + who as i64));
            inner(p.clone(), c, want.clone(), at("unrelated request inside"), 1).await;
        },
        7 => {
            let h = ContextPropagator::inject(&RequestContext::current().map_or_else(|| me.clone(), |c| (*c).clone()));
            if let Some(c) = ContextPropagator::extract(&h) {
                if c.request_id != me.request_id || c.trace_id != me.trace_id || c.user_id != me.user_id {
                    p.bad.push(format!("request {who}: propagated {c:?} from {me:?}"));
                }
                inner(p.clone(), c, want.clone(), at("propagated"), 1).await;
            } else {
                p.bad.push("headers of a context do not give a context".into());
            }
        },
        _ => {
            let c: RequestContext = pmcp::context_or_new!(RequestId::Number(77));
            if ident(&c) != want {
                p.bad.push(format!("request {who}: context_or_new gave {c:?}"));
            }
            let c = c.child();
            let (q, w) = (p.clone(), ident(&c));
            let s = at("with_context");
            pmcp::with_context!(c, {
                tokio::task::yield_now().await;
                q.look(&w, &s);
            });
        },
    }
    p.look(&want, &format!("request {who}, after {}", STEPS[k]));
}

pub fn c31(ctx: &Ctx) {
    std::panic::set_hook(Box::new(|_| {}));
    let (tasks, len, dev) = (ctx.by(2, 3), 2, ctx.by(2, 2));
    let run = |name: &str, tasks: usize, len: usize, dev: u32, steps: &'static [usize]| {
        explore(ctx, name, Bounds::dev(dev).secs(ctx.by(25, 500)), |ex| {
            let mut o = Outcome::default();
            let probe = Probe { bad: Log::new(), looks: Log::new() };
            let p = probe.clone();
            let plan: Vec<Vec<usize>> = (0..tasks).map(|_| (0..len).map(|_| steps[ex.choose(steps.len())]).collect()).collect();
            let plan2 = plan.clone();
            let r = run_async(&ex, HOUR, true, async move {
                p.look(&None, "outside, before");
                let hs: Vec<_> = plan2
                    .into_iter()
                    .enumerate()
                    .map(|(who, plan)| {
                        let p = p.clone();
                        tokio::spawn(async move {
                            p.look(&None, "task, before its request");
                            let me = RequestContext::new(RequestId::Number(who as i64)).with_user_id(format!("user{who}"));
                            let (m, q) = (me.clone(), p.clone());
                            me.run(async move {
                                q.look(&ident(&m), "at the start of the request");
                                for k in plan {
                                    step(&q, &m, k, who).await;
                                }
                            })
                            .await;
                            p.look(&None, "task, after its request");
                        })
                    })
                    .collect();
                tokio::task::yield_now().await;
                p.look(&None, "outside, meanwhile");
                let mut ok = true;
                for h in hs {
                    ok &= h.await.is_ok();
                }
                p.look(&None, "outside, after");
                ok
            });
            match r {
                None => deadlock(&mut o, &format!("requests {plan:?}")),
                Some(false) => o.fail("task-panicked", format!("{plan:?}: a task panicked")),
                Some(true) => {},
            }
            if let Some(b) = probe.bad.get().first() {
                o.fail("wrong-context", format!("{:?}: {b}", plan.iter().map(|p| p.iter().map(|&k| STEPS[k]).collect::<Vec<_>>()).collect::<Vec<_>>()));
            }
            o.transitions = probe.looks.len() as u64;
            o.observed = format!("{plan:?} {}", probe.looks.len());
            o
        });
    };
    const ALLS: [usize; 9] = [0, 1, 2, 3, 4, 5, 6, 7, 8];
    const FEW: [usize; 3] = [0, 1, 2];
    run("two requests, every pair of steps, bounded schedules", 2, 2, dev, &ALLS);
    run("two requests, every schedule of three", 2, 2, 6, &FEW);
    run(&format!("{} requests", tasks + 1), tasks + 1, 1, ctx.by(2, 4), &ALLS);
    let _ = len;
    if ctx.thorough() {
        run("one request, sequences of four steps", 1, 4, 1, &ALLS);
        run("two requests, sequences of three steps", 2, 3, 1, &ALLS);
    } else {
        run("one request, sequences of three steps", 1, 3, 1, &ALLS);
    }

    // threads: nothing is shared between them
    explore(ctx, "two threads, each serving a request", Bounds::dev(ctx.by(3, 4)).secs(ctx.by(15, 120)), |ex| {
        let mut o = Outcome::default();
        let clock = vm::Clock::new();
        let probe = Probe { bad: Log::new(), looks: Log::new() };
        let bodies: Vec<Box<dyn FnOnce() + Send>> = (0..2usize)
            .map(|who| {
                let p = probe.clone();
                let k = [1usize, 2, 0][ex.choose(3)];
                Box::new(move || {
                    let me = RequestContext::new(RequestId::Number(who as i64)).with_user_id(format!("user{who}"));
                    let m = me.clone();
                    tengine::block_on(async move {
                        p.look(&None, "thread, before");
                        let q = p.clone();
                        me.run(async move {
                            let lock = tokio::sync::Mutex::new(());
                            drop(lock.lock().await);
                            step(&q, &m, k, who).await;
                            drop(lock.lock().await);
                            q.look(&ident(&m), "thread, at the end of the request");
                        })
                        .await;
                        p.look(&None, "thread, after");
                    });
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let end = tengine::run_threads(&ex, &clock, bodies);
        if !matches!(end, tengine::End::Ok) {
            o.fail("stuck", format!("the threads did not finish: {end:?}"));
        }
        if let Some(b) = probe.bad.get().first() {
            o.fail("wrong-context", b.clone());
        }
        o.transitions = probe.looks.len() as u64;
        o
    });

    // child contexts
    let opt = |on: bool, v: &str| on.then(|| v.to_string());
    let make = |bits: usize| {
        let mut c = RequestContext::new(if bits & 1 == 0 { RequestId::Number(5) } else { RequestId::String("five".into()) });
        if let Some(u) = opt(bits & 2 != 0, "user") {
            c = c.with_user_id(u);
        }
        if let Some(s) = opt(bits & 4 != 0, "session") {
            c = c.with_session_id(s);
        }
        if bits & 8 != 0 {
            c = c.with_client_info(ClientInfo { client_id: "cl".into(), version: opt(bits & 2 != 0, "1"), ip_address: opt(bits & 4 != 0, "ip"), user_agent: opt(bits & 1 != 0, "ua") });
        }
        if bits & 16 != 0 {
            c = c.with_metadata("m".into(), json!({"a": [1]})).with_metadata("n".into(), json!(null)).with_metadata("m".into(), json!(2));
        }
        if bits & 32 != 0 {
            c = c.with_baggage("b".into(), "1".into()).with_baggage("B".into(), "2".into());
        }
        c
    };
    let common = |c: &RequestContext| {
        json!([c.request_id, c.trace_id, c.user_id, c.session_id, c.client_info, c.metadata.iter().collect::<BTreeMap<_, _>>(), c.baggage.iter().collect::<BTreeMap<_, _>>()])
    };
    for_all(ctx, "children of every combination of fields", 0..64usize, |&bits| {
        let mut o = Outcome { transitions: 3, ..Default::default() };
        let root = make(bits);
        expect_eq(&mut o, "root", "a fresh context has no parent", root.parent_span_id.clone(), None);
        let want = json!([
            if bits & 1 == 0 { json!(5) } else { json!("five") },
            root.trace_id,
            opt(bits & 2 != 0, "user"),
            opt(bits & 4 != 0, "session"),
            (bits & 8 != 0).then(|| json!({"client_id": "cl", "version": opt(bits & 2 != 0, "1"), "ip_address": opt(bits & 4 != 0, "ip"), "user_agent": opt(bits & 1 != 0, "ua")})),
            if bits & 16 != 0 { json!({"m": 2, "n": null}) } else { json!({}) },
            if bits & 32 != 0 { json!({"b": "1", "B": "2"}) } else { json!({}) },
        ]);
        expect_eq(&mut o, "fields", "a context with these fields", common(&root), want.clone());
        let mut spans = HashSet::from([root.span_id.clone()]);
        let mut at = root.clone();
        for d in 1..=3 {
            let before = (common(&at), at.span_id.clone());
            let sibling = at.child();
            let c = at.child();
            expect_eq(&mut o, "child-fields", format!("child at depth {d}"), common(&c), want.clone());
            expect_eq(&mut o, "child-parent", format!("parent of the child at depth {d}"), c.parent_span_id.clone(), Some(at.span_id.clone()));
            for s in [&sibling.span_id, &c.span_id] {
                if !spans.insert(s.clone()) {
                    o.fail("span-reused", format!("depth {d}: span {s} is not new"));
                }
            }
            expect_eq(&mut o, "parent-changed", "the parent", (common(&at), at.span_id.clone()), before);
            at = c.with_baggage("own".into(), "x".into());
            at.baggage.remove("own");
        }
        o
    });

    // headers
    let ids: Vec<RequestId> = [0, 1, -1, 42, i64::MAX, i64::MIN]
        .iter()
        .map(|n| RequestId::Number(*n))
        .chain(["abc", "", "007", "+5", "-0", "1.5", "é", "9223372036854775808", " 1", "0x1", "a-b-c"].iter().map(|s| RequestId::String((*s).into())))
        .collect();
    let texts = [None, Some(""), Some("u"), Some("a-b é\n"), Some("baggage-x")];
    let bags: [&[(&str, &str)]; 7] = [&[], &[("k", "v")], &[("Ab", "V"), ("ab", "v")], &[("k", ""), ("k2", "é")], &[("", "x")], &[("baggage-a", "1"), ("a", "2")], &[("x-user-id", "evil"), ("traceparent", "00-1-2-3")]];
    let cases = ids.len() * texts.len() * texts.len() * bags.len() * 2;
    for_all(ctx, "context through headers", 0..cases, |&n| {
        let mut n = n;
        let mut pick = |k: usize| {
            let i = n % k;
            n /= k;
            i
        };
        let id = ids[pick(ids.len())].clone();
        let (u, s, b, nested) = (texts[pick(texts.len())], texts[pick(texts.len())], bags[pick(bags.len())], pick(2) == 1);
        let mut o = Outcome { transitions: 2, ..Default::default() };
        let mut c = RequestContext::new(id.clone());
        c.user_id = u.map(Into::into);
        c.session_id = s.map(Into::into);
        for (k, v) in b {
            c = c.with_baggage((*k).into(), (*v).into());
        }
        if nested {
            c = c.child();
        }
        let what = format!("{id:?} user {u:?} session {s:?} baggage {b:?} nested {nested}");
        let mut from = c.clone();
        let mut spans = HashSet::from([c.span_id.clone()]);
        for hop in 1..=2 {
            let h = if hop == 1 { from.to_headers() } else { ContextPropagator::inject(&from) };
            let back = if hop == 1 { ContextPropagator::extract(&h) } else { RequestContext::from_headers(&h) };
            let Some(back) = back else {
                o.fail("headers-unread", format!("{what}: {h:?} gives no context"));
                return o;
            };
            let bag = |c: &RequestContext| c.baggage.clone().into_iter().collect::<BTreeMap<_, _>>();
            expect_eq(&mut o, "header-fields", format!("{what}, hop {hop}"), (&back.request_id, &back.trace_id, &back.user_id, &back.session_id, bag(&back)), (&c.request_id, &c.trace_id, &c.user_id, &c.session_id, bag(&c)));
            let digits = |s: &str| s.replace('-', "").chars().take(16).collect::<String>();
            expect_eq(&mut o, "header-parent", format!("{what}, hop {hop}: parent span"), back.parent_span_id.as_deref().map(digits), Some(digits(&from.span_id)));
            if !spans.insert(back.span_id.clone()) {
                o.fail("span-reused", format!("{what}, hop {hop}: the span id is not new"));
            }
            from = back;
        }
        o
    });

    // foreign trace headers: a context exactly if there are version, trace, span and flags
    let hex32 = "0af7651916cd43dd8448eb211c80319c";
    let pieces: [String; 9] =
        ["00".into(), String::new(), hex32.into(), "b7ad6b7169203331".into(), "01".into(), "é".repeat(8), "é".repeat(16), format!("1{}2", "é".repeat(7)), format!("1{}2", "é".repeat(15))];
    for_all(ctx, "foreign trace headers", sequences_upto(pieces.len(), ctx.by(4, 5)), |s| {
        let mut o = Outcome { transitions: 1, ..Default::default() };
        let parts: Vec<&str> = s.iter().map(|&i| pieces[i].as_str()).collect();
        let tp = parts.join("-");
        let h = HashMap::from([("traceparent".to_string(), tp.clone()), ("x-request-id".to_string(), "r".to_string())]);
        match std::panic::catch_unwind(|| RequestContext::from_headers(&h)) {
            Err(_) => o.fail("header-panic", format!("traceparent {tp:?} panics")),
            Ok(c) => {
                expect_eq(&mut o, "header-accepted", format!("traceparent {tp:?} read"), c.is_some(), parts.len() >= 4);
                if let Some(c) = c {
                    expect_eq(&mut o, "header-trace", format!("traceparent {tp:?}: trace digits"), c.trace_id.replace('-', ""), parts[1].to_string());
                    expect_eq(&mut o, "header-request", format!("traceparent {tp:?}: request"), c.request_id, RequestId::String("r".into()));
                }
            },
        }
        o
    });
    for_all(ctx, "span ids of any length", 0..40usize, |&n| {
        let mut o = Outcome { transitions: 1, ..Default::default() };
        let mut c = RequestContext::new(RequestId::Number(1));
        c.span_id = "0123456789abcdef".repeat(3)[..n].to_string();
        if n == 39 {
            c.span_id = "é".repeat(16);
        }
        match std::panic::catch_unwind(|| RequestContext::from_headers(&c.to_headers())) {
            Err(_) => o.fail("span-panic", format!("span id {:?} panics", c.span_id)),
            Ok(b) => {
                expect_eq(&mut o, "header-trace", format!("span {:?}: trace", c.span_id), b.map(|b| b.trace_id), Some(c.trace_id.clone()));
            },
        }
        o
    });
    let mut h = HashMap::from([("x-request-id".to_string(), "1".to_string()), ("x-user-id".to_string(), "u".to_string())]);
    for_all(ctx, "no trace header", 0..1usize, |_| {
        let mut o = Outcome::default();
        expect_eq(&mut o, "header-accepted", "no traceparent", RequestContext::from_headers(&h).is_none(), true);
        o
    });
    h.clear();
    ctx.assume("Trace ids are UUIDs, as RequestContext::new makes them; a span id is propagated by its first 16 digits, as in the W3C header; a string request id that is the plain decimal form of a number is read back as that number.");
}

// ------------------------------------------------------------------ C34

const TREE: &[(&str, bool)] = &[
    ("a", false),
    ("ab", false),
    ("a.txt", false),
    ("a.tar.gz", false),
    ("b.md", false),
    ("B.TXT", false),
    (".hidden", false),
    (".hid.txt", false),
    ("..x", false),
    ("end.", false),
    ("x y.txt", false),
    ("é.txt", false),
    ("sub", true),
    ("a.d", true),
    (".dot", true),
    ("sub/x.txt", false),
    ("sub/y", false),
    ("sub/.h", false),
    ("sub/deep", true),
    ("sub/deep/z.md", false),
    ("sub/deep/z.txt", false),
    ("a.d/in.txt", false),
    (".dot/q", false),
];

fn list(dir: &str) -> Vec<(&'static str, bool)> {
    let pre = if dir.is_empty() { String::new() } else { format!("{dir}/") };
    TREE.iter().filter_map(|(p, d)| p.strip_prefix(&pre).filter(|r| !r.contains('/')).map(|r| (r, *d))).collect()
}

/// The directory a typed path denotes, from the root of the tree (None: not there).
fn resolve(dir: &str) -> Option<String> {
    let mut at: Vec<&str> = vec![];
    for c in dir.split('/') {
        match c {
            "" | "." => {},
            ".." => {
                at.pop()?;
            },
            n => {
                at.push(n);
                if !TREE.contains(&(at.join("/").as_str(), true)) {
                    return None;
                }
            },
        }
    }
    Some(at.join("/"))
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn request(partial: &str) -> CompletionRequest {
    CompletionRequest { argument: "arg".into(), partial: partial.into(), context: HashMap::new() }
}

pub fn c34(ctx: &Ctx) {
    // ---- static candidates
    let values = ["", "a", "ab", "b", "A", "é", " a", "Ab c"];
    let labels = [None, Some("ab"), Some("b"), Some(""), Some("AB é"), Some(" x")];
    let n = values.len() * labels.len();
    let partials = ["", "a", "ab", "abc", "b", "A", "é", "\u{65}", "AB", "aB", " ", " a", "ab ", "c", "x", "Ab c", "É"];
    for_all(ctx, "static candidates", sequences_upto(n, ctx.by(3, 4)), |s| {
        let mut o = Outcome { transitions: partials.len() as u64, ..Default::default() };
        let items: Vec<CompletionItem> = s
            .iter()
            .enumerate()
            .map(|(i, &k)| CompletionItem {
                value: values[k % values.len()].into(),
                label: labels[k / values.len()].map(Into::into),
                description: Some(format!("d{i}")),
                icon: None,
                metadata: HashMap::from([("i".to_string(), json!(i))]),
            })
            .collect();
        let p = StaticCompletionProvider::new(items.clone());
        let plain = StaticCompletionProvider::from_strings(items.iter().map(|i| i.value.clone()).collect());
        for part in partials {
            let want: Vec<String> = items.iter().filter(|i| i.value.starts_with(part) || i.label.as_deref().is_some_and(|l| l.starts_with(part))).map(|i| json!(i).to_string()).collect();
            let r = seq(p.complete(request(part)));
            let got = match r {
                Some(Ok(r)) => {
                    expect_eq(&mut o, "more", format!("{items:?} for {part:?}: more"), (r.has_more, r.continuation_token.clone()), (false, None));
                    r.completions.iter().map(|i| json!(i).to_string()).collect()
                },
                r => vec![format!("{r:?}")],
            };
            expect_eq(&mut o, "static", format!("{items:?} completed from {part:?}"), got, want);
            let want: Vec<String> = items.iter().filter(|i| i.value.starts_with(part)).map(|i| i.value.clone()).collect();
            let got = match seq(plain.complete(request(part))) {
                Some(Ok(r)) => r.completions.into_iter().map(|i| i.value).collect(),
                r => vec![format!("{r:?}")],
            };
            expect_eq(&mut o, "static-strings", format!("{:?} completed from {part:?}", items.iter().map(|i| &i.value).collect::<Vec<_>>()), got, want);
        }
        o
    });

    // many candidates: all that match, in order
    for_all(ctx, "many static candidates", SIZES.iter().copied(), |&n| {
        let mut o = Outcome { transitions: n as u64, ..Default::default() };
        let all: Vec<String> = (0..n).map(|k| format!("{}{k}", ["a", "ab", "b"][k % 3])).collect();
        let p = StaticCompletionProvider::from_strings(all.clone());
        for part in ["", "a", "ab", "b", "a1", "zz"] {
            let want: Vec<String> = all.iter().filter(|v| v.starts_with(part)).cloned().collect();
            match seq(p.complete(request(part))) {
                Some(Ok(r)) => {
                    expect_eq(&mut o, "static-strings", format!("{n} candidates completed from {part:?}"), r.completions.into_iter().map(|i| i.value).collect::<Vec<_>>(), want);
                    expect_eq(&mut o, "more", format!("{n} candidates completed from {part:?}: more"), r.has_more, false);
                },
                r => o.fail("static-strings", format!("{n} candidates from {part:?}: {r:?}")),
            }
        }
        o.observed = format!("{n}");
        o
    });

    // ---- files
    let root = crate::ctx::verif_dir().join("work").join(format!("c34-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&root);
    let scratch = Scratch(root.clone());
    let base = root.join("base");
    std::fs::create_dir_all(&base).unwrap();
    for (p, d) in TREE {
        if *d {
            std::fs::create_dir_all(base.join(p)).unwrap();
        } else {
            std::fs::write(base.join(p), b"x").unwrap();
        }
    }
    let home = std::env::current_dir().unwrap();
    std::env::set_current_dir(&base).unwrap();
    let dirs = ["", "./", "sub/", "sub//", "./sub/", "sub/deep/", "sub/../", "sub/./", "a.d/", ".dot/", "nope/", "a/", "sub/x.txt/", "sub/nope/", "sub/deep/../../", "//", "ABS/", "ABS/sub/"];
    let mut prefixes: Vec<String> = ["", ".", "..", "...", "z", "Z", "sub", "é", "e", "x ", " "].iter().map(|s| (*s).to_string()).collect();
    for (p, _) in TREE {
        let name = p.rsplit('/').next().unwrap();
        for k in 1..=name.chars().count() {
            prefixes.push(name.chars().take(k).collect());
        }
        prefixes.push(format!("{name}x"));
    }
    prefixes.sort();
    prefixes.dedup();
    let exts: [Option<&[&str]>; 8] = [None, Some(&[]), Some(&["txt"]), Some(&["gz"]), Some(&["txt", "md"]), Some(&["TXT"]), Some(&[""]), Some(&["tar.gz", ".txt", "hidden"])];
    let (nd, np, ne) = (dirs.len(), prefixes.len(), exts.len());
    let abs = base.to_string_lossy().to_string();
    for_all(ctx, "files", 0..nd * np * ne * 3, |&i| {
        let mut i = i;
        let mut pick = |k: usize| {
            let r = i % k;
            i /= k;
            r
        };
        let (d, pre, ext, how) = (dirs[pick(nd)], &prefixes[pick(np)], exts[pick(ne)], pick(3));
        let mut o = Outcome { transitions: 1, ..Default::default() };
        // how: 0 no base directory (the current one is the tree), 1 the tree as base, 2 a base inside the tree
        if d == "//" {
            return o; // the real root: not the harness's to list
        }
        let typed_dir = d.replace("ABS", &abs);
        let partial = format!("{typed_dir}{pre}");
        let mut p = FileCompletionProvider::new();
        let start = match how {
            1 => {
                p = p.with_base_dir(base.clone());
                ""
            },
            2 => {
                p = p.with_base_dir(base.join("sub"));
                "sub"
            },
            _ => "",
        };
        if let Some(e) = ext {
            p = p.with_extensions(e.iter().map(|s| (*s).to_string()).collect());
        }
        let dir = if let Some(rest) = d.strip_prefix("ABS") { resolve(rest) } else { resolve(&format!("{start}/{d}")) };
        let mut want: Vec<(String, String, bool)> = vec![];
        if let Some(dir) = &dir {
            for (name, is_dir) in list(dir) {
                let e = name.rfind('.').filter(|&i| i > 0).map(|i| &name[i + 1..]);
                if name.starts_with(pre.as_str()) && (is_dir || ext.map_or(true, |l| e.is_some_and(|e| l.contains(&e)))) {
                    want.push((format!("{typed_dir}{name}"), name.to_string(), is_dir));
                }
            }
        } else if d.contains("..") {
            return o; // leads out of the tree
        }
        want.sort();
        let what = format!("{partial:?}, base {start:?} ({how}), extensions {ext:?}");
        let got = match seq(p.complete(request(&partial))) {
            Some(Ok(r)) => {
                expect_eq(&mut o, "more", format!("{what}: more"), (r.has_more, r.continuation_token.clone()), (false, None));
                let at = match how {
                    1 => base.clone(),
                    2 => base.join("sub"),
                    _ => PathBuf::from("."),
                };
                for c in &r.completions {
                    if !at.join(&c.value).exists() {
                        o.fail("unresolvable", format!("{what}: {:?} leads nowhere", c.value));
                    }
                }
                r.completions.into_iter().map(|c| (c.value, c.label.unwrap_or_default(), c.description.as_deref() == Some("Directory"))).collect()
            },
            r => vec![(format!("{r:?}"), String::new(), false)],
        };
        expect_eq(&mut o, "files", what, got, want);
        o
    });
    std::env::set_current_dir(home).unwrap();
    assert!(Path::new(&root).starts_with(crate::ctx::verif_dir()));
    drop(scratch);

    // ---- what a configured argument says on the wire
    for_all(ctx, "argument descriptions", 0..24usize, |&bits| {
        let mut o = Outcome { transitions: 1, ..Default::default() };
        let mut b = completable("arg");
        let mut want = json!({"name": "arg", "required": bits & 2 != 0});
        if bits & 1 != 0 {
            b = b.description("about");
            want["description"] = json!("about");
        }
        if bits & 2 != 0 {
            b = b.required();
        }
        match bits / 8 {
            1 => {
                b = b.static_completions(vec!["x".into(), "y".into()]);
                want["completion"] = json!({"provider": "static", "values": ["x", "y"]});
            },
            2 => {
                b = b.file_completions();
                want["completion"] = json!({"provider": "file"});
            },
            _ => {},
        }
        let arg: CompletableArgument = b.build();
        expect_eq(&mut o, "argument", format!("argument {bits}"), json!(arg), want.clone());
        let back: Result<CompletableArgument, _> = serde_json::from_value(want.clone());
        match back {
            Ok(a) => {
                expect_eq(&mut o, "argument-read", format!("argument {bits} read back"), json!(a), want);
                let same = match (bits / 8, a.completion.map(|c| c.provider)) {
                    (1, Some(CompletionProvider::Static)) | (2, Some(CompletionProvider::File)) | (0, None) => true,
                    _ => false,
                };
                if !same {
                    o.fail("argument-read", format!("argument {bits}: another provider read back"));
                }
            },
            Err(e) => o.fail("argument-read", format!("argument {bits}: {e}")),
        }
        o
    });
    let _ = Arc::new(());
    ctx.assume("Symbolic links and names that are not UTF-8 are not in the directory layouts.");
}
