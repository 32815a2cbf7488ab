//! C37 log entries, C38 values built step by step.
use super::util::*;
use crate::aengine::{deadlock, run_async};
use crate::ctx::Ctx;
use crate::explore::*;
use async_trait::async_trait;
use pmcp::server::cancellation::RequestHandlerExtra;
use pmcp::shared::batch::{BatchRequest, BatchResponse};
use pmcp::shared::context::RequestContext;
use pmcp::shared::logging::{CorrelatedLogger, CorrelationLayer, ErrorDetails, LogConfig, LogEntry, LogFormat, LogLevel};
use pmcp::types::auth::{AuthInfo, AuthScheme, OAuthInfo, PkceMethod};
use pmcp::types::capabilities::*;
use pmcp::types::completable::{completable, CompletableArgument};
use pmcp::types::elicitation::*;
use pmcp::types::RequestId;

use pmcp::{PromptHandler, ResourceHandler, SamplingHandler, Server, ToolHandler};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use std::time::Duration;
use tracing::field::{Field, Visit};
use tracing_subscriber::layer::SubscriberExt;

const HOUR: Duration = Duration::from_secs(3600);

// ------------------------------------------------------------------ C37

type Fields = BTreeMap<String, String>;
#[derive(Default)]
struct Reader(Fields);
impl Visit for Reader {
    fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
        self.0.insert(f.name().into(), format!("{v:?}"));
    }
    fn record_str(&mut self, f: &Field, v: &str) {
        self.0.insert(f.name().into(), v.into());
    }
}

/// One event as a subscriber sees it.
#[derive(Clone, Debug, PartialEq)]
struct Event {
    level: String,
    message: String,
    /// the spans it is in, outermost first
    spans: Vec<Fields>,
    /// the request of the context the correlation layer attached to each of these spans
    attached: Vec<Option<String>>,
}

#[derive(Clone)]
struct Capture(Log<Event>);
impl<S> tracing_subscriber::Layer<S> for Capture
where
    S: tracing::Subscriber + for<'l> tracing_subscriber::registry::LookupSpan<'l>,
{
    fn on_new_span(&self, attrs: &tracing::span::Attributes<'_>, id: &tracing::span::Id, ctx: tracing_subscriber::layer::Context<'_, S>) {
        let mut r = Reader::default();
        attrs.record(&mut r);
        r.0.insert("(span)".into(), attrs.metadata().name().into());
        if let Some(s) = ctx.span(id) {
            s.extensions_mut().insert(r.0);
        }
    }
    fn on_record(&self, id: &tracing::span::Id, values: &tracing::span::Record<'_>, ctx: tracing_subscriber::layer::Context<'_, S>) {
        let mut r = Reader::default();
        values.record(&mut r);
        if let Some(s) = ctx.span(id) {
            if let Some(f) = s.extensions_mut().get_mut::<Fields>() {
                f.extend(r.0);
            }
        }
    }
    fn on_event(&self, event: &tracing::Event<'_>, ctx: tracing_subscriber::layer::Context<'_, S>) {
        if !event.metadata().target().starts_with("pmcp") {
            return;
        }
        let mut r = Reader::default();
        event.record(&mut r);
        let (mut spans, mut attached) = (vec![], vec![]);
        for s in ctx.event_scope(event).into_iter().flat_map(|s| s.from_root()) {
            let e = s.extensions();
            spans.push(e.get::<Fields>().cloned().unwrap_or_default());
            attached.push(e.get::<Arc<RequestContext>>().map(|c| c.request_id.to_string()));
        }
        self.0.push(Event { level: event.metadata().level().to_string(), message: r.0.remove("message").unwrap_or_default(), spans, attached });
    }
}

/// run `f` with a subscriber that records what is logged
fn recorded<R>(correlate: bool, f: impl FnOnce(&Log<Event>) -> R) -> R {
    let log = Log::new();
    let sub = tracing_subscriber::registry().with(CorrelationLayer::new(LogConfig { correlation_ids: correlate, ..Default::default() })).with(Capture(log.clone()));
    tracing::subscriber::with_default(sub, || f(&log))
}

fn some_context(k: usize) -> RequestContext {
    let mut c = RequestContext::new(if k & 1 == 0 { RequestId::Number(k as i64 + 10) } else { RequestId::String(format!("id-{k}")) });
    if k & 2 != 0 {
        c = c.with_user_id(format!("user {k}"));
    }
    if k & 4 != 0 {
        c = c.with_session_id(format!("session {k}"));
    }
    // some are within another operation
    if k % 3 == 1 {
        c = c.child();
    }
    c
}
fn span_of(name: &str, c: Option<&RequestContext>) -> Fields {
    let mut f = Fields::from([("(span)".to_string(), "operation".to_string()), ("name".to_string(), name.to_string())]);
    if let Some(c) = c {
        f.insert("request_id".into(), c.request_id.to_string());
        f.insert("trace_id".into(), c.trace_id.clone());
        f.insert("span_id".into(), c.span_id.clone());
        if let Some(u) = &c.user_id {
            f.insert("user_id".into(), u.clone());
        }
        if let Some(s) = &c.session_id {
            f.insert("session_id".into(), s.clone());
        }
    }
    f
}
/// an entry's JSON as it must be (without its time)
fn entry_json(level: &str, message: &str, c: Option<&RequestContext>, fields: &Value, error: &Value) -> Value {
    json!({
        "level": level, "message": message,
        "request_id": c.map(|c| c.request_id.clone()), "trace_id": c.map(|c| c.trace_id.clone()), "span_id": c.map(|c| c.span_id.clone()),
        "user_id": c.and_then(|c| c.user_id.clone()), "session_id": c.and_then(|c| c.session_id.clone()),
        "fields": fields, "error": error,
    })
}
fn parsed(m: &str) -> Value {
    let mut v: Value = serde_json::from_str(m).unwrap_or_else(|e| json!({"not JSON": m, "because": e.to_string()}));
    if let Some(m) = v.as_object_mut() {
        if m.get("timestamp").is_some_and(|t| t.as_str().is_some_and(|t| chrono::DateTime::parse_from_rfc3339(t).is_ok())) {
            m.remove("timestamp");
        }
    }
    v
}
fn level_of(l: &str) -> &'static str {
    match l.to_lowercase().as_str() {
        "trace" => "TRACE",
        "debug" => "DEBUG",
        "warn" => "WARN",
        "error" => "ERROR",
        _ => "INFO",
    }
}

const LEVELS: [&str; 5] = ["trace", "debug", "info", "warn", "error"];
/// `mc child-log LEVEL FORMAT OPTIONS`: logs each level twice, once for a request
pub fn log_child(args: &[String]) -> i32 {
    let n: Vec<usize> = args.iter().map(|a| a.parse().unwrap_or(0)).collect();
    let config = LogConfig {
        level: [LogLevel::Trace, LogLevel::Debug, LogLevel::Info, LogLevel::Warn, LogLevel::Error][n[0]],
        format: [LogFormat::Json, LogFormat::Pretty, LogFormat::Compact][n[1]],
        timestamps: n[2] & 1 != 0,
        source_location: n[2] & 2 != 0,
        correlation_ids: n[2] & 4 != 0,
        ..Default::default()
    };
    if pmcp::shared::init_logging(config).is_err() {
        return 1;
    }
    for (k, l) in LEVELS.iter().enumerate() {
        pmcp::log_correlated!(*l, format!("<entry {l} 0>"), "k" => k);
        let c = RequestContext::new(RequestId::String("r-1".into()));
        seq(c.run(async move { pmcp::log_correlated!(*l, format!("<entry {l} 1>"), "k" => k) }));
    }
    0
}

pub fn c37(ctx: &Ctx) {
    let levels = ["trace", "debug", "info", "warn", "error", "INFO", "Warn", "ERROR", "critical", "", "Trace", "dEbUg"];
    let messages = ["m", "", "two words \"quoted\" {brace}", "line\nend\u{0}é"];
    for_all(
        ctx,
        "entries: level x message x context x fields x error",
        (0..levels.len()).flat_map(|l| (0..4usize).flat_map(move |m| (0..9usize).flat_map(move |c| (0..8usize).flat_map(move |f| (0..3usize).map(move |e| (l, m, c, f, e)))))),
        |&(l, m, c, f, e)| {
            let mut o = Outcome { transitions: 1, ..Default::default() };
            let context = (c < 8).then(|| some_context(c));
            let mut fields = Map::new();
            let mut make = || {
                let mut entry = LogEntry::new(levels[l], messages[m]);
                let all = [("k", json!(1)), ("message", json!({"a": [null]})), ("k", json!("later"))];
                for (b, (k, v)) in all.into_iter().enumerate() {
                    if f >> b & 1 == 1 {
                        fields.insert(k.into(), v.clone());
                        entry = entry.with_field(k, v);
                    }
                }
                if e > 0 {
                    entry = entry.with_error(ErrorDetails { error_type: "t".into(), message: messages[m].into(), stack_trace: (e == 2).then(|| vec!["a".into(), "b".into()]), code: (e == 2).then(|| "c".into()) });
                }
                entry.log();
            };
            let seen = recorded(true, |log| {
                seq(async {
                    match context.clone() {
                        Some(c) => c.run(async { make() }).await,
                        None => make(),
                    }
                });
                log.get()
            });
            let error = match e {
                0 => Value::Null,
                _ => json!({"error_type": "t", "message": messages[m], "stack_trace": (e == 2).then(|| json!(["a", "b"])), "code": (e == 2).then_some("c")}),
            };
            let what = format!("entry at level {:?}", levels[l]);
            if seen.len() != 1 {
                o.fail("entries", format!("{what}: logged {seen:?}"));
                return o;
            }
            expect_eq(&mut o, "level", &what, seen[0].level.as_str(), level_of(levels[l]));
            expect_eq(&mut o, "content", &what, parsed(&seen[0].message), entry_json(levels[l], messages[m], context.as_ref(), &Value::Object(fields), &error));
            o.observed = format!("{l}{m}{c}{f}{e}");
            o
        },
    );
    // the macros
    for_all(ctx, "macros", (0..4usize).flat_map(|k| (0..9usize).flat_map(move |c| (0..3usize).map(move |n| (k, c, n)))), |&(k, c, n)| {
        let mut o = Outcome { transitions: 1, ..Default::default() };
        let context = (c < 8).then(|| some_context(c));
        let make = || match (k, n) {
            (0, 0) => pmcp::debug_correlated!("m"),
            (0, 1) => pmcp::debug_correlated!("m", "a" => 1),
            (0, _) => pmcp::debug_correlated!("m", "a" => 1, "b" => "x",),
            (1, 0) => pmcp::info_correlated!("m"),
            (1, 1) => pmcp::info_correlated!("m", "a" => 1),
            (1, _) => pmcp::info_correlated!("m", "a" => 1, "b" => "x",),
            (2, 0) => pmcp::warn_correlated!("m"),
            (2, 1) => pmcp::warn_correlated!("m", "a" => 1),
            (2, _) => pmcp::warn_correlated!("m", "a" => 1, "b" => "x",),
            (_, 0) => pmcp::error_correlated!("m"),
            (_, 1) => pmcp::error_correlated!("m", "a" => 1),
            (_, _) => pmcp::error_correlated!("m", "a" => 1, "b" => "x",),
        };
        let seen = recorded(true, |log| {
            seq(async {
                match context.clone() {
                    Some(c) => c.run(async { make() }).await,
                    None => make(),
                }
            });
            log.get()
        });
        let level = ["debug", "info", "warn", "error"][k];
        let fields = [json!({}), json!({"a": 1}), json!({"a": 1, "b": "x"})][n].clone();
        let got: Vec<(String, Value)> = seen.iter().map(|e| (e.level.clone(), parsed(&e.message))).collect();
        expect_eq(&mut o, "macro", format!("{level}_correlated with {n} fields"), got, vec![(level_of(level).to_string(), entry_json(level, "m", context.as_ref(), &fields, &Value::Null))]);
        o.observed = format!("{k}{c}{n}");
        o
    });
    // loggers: spans of operations
    for_all(ctx, "operation spans", (0..9usize).flat_map(|c| (0..9usize).flat_map(move |d| (0..4usize).flat_map(move |k| [false, true].map(|on| (c, d, k, on))))), |&(c, d, k, on)| {
        let mut o = Outcome { transitions: 3, ..Default::default() };
        let current = (c < 8).then(|| some_context(c));
        let given = (d < 8).then(|| some_context(d + 8));
        // what is logged and the spans it must be in
        let mut want: Vec<Vec<Fields>> = vec![];
        let mut body = || {
            let outer = match &given {
                Some(g) => CorrelatedLogger::from_context("outer", g),
                None => CorrelatedLogger::new("outer"),
            };
            let os = span_of("outer", given.as_ref().or(current.as_ref()));
            match k {
                0 => {
                    let r = outer.in_scope(|| {
                        LogEntry::new("info", "in").log();
                        7
                    });
                    want.push(vec![os]);
                    LogEntry::new("info", "after").log();
                    want.push(vec![]);
                    r
                },
                1 => {
                    let g = outer.enter();
                    LogEntry::new("info", "in").log();
                    want.push(vec![os]);
                    drop(g);
                    LogEntry::new("info", "after").log();
                    want.push(vec![]);
                    7
                },
                2 => outer.in_scope(|| {
                    let inner = CorrelatedLogger::new("inner");
                    inner.in_scope(|| LogEntry::new("info", "in").log());
                    want.push(vec![os.clone(), span_of("inner", current.as_ref())]);
                    LogEntry::new("info", "between").log();
                    want.push(vec![os]);
                    7
                }),
                _ => {
                    // made but not entered; then entered twice
                    LogEntry::new("info", "before").log();
                    want.push(vec![]);
                    outer.in_scope(|| LogEntry::new("info", "in").log());
                    outer.in_scope(|| LogEntry::new("info", "in").log());
                    want.push(vec![os.clone()]);
                    want.push(vec![os]);
                    7
                },
            }
        };
        let (seen, r) = recorded(on, |log| {
            let r = seq(async {
                match current.clone() {
                    Some(c) => c.run(async { body() }).await,
                    None => body(),
                }
            });
            (log.get(), r)
        });
        expect_eq(&mut o, "scope-result", "value of the scope", r, Some(7));
        let what = format!("in context {c}, operation of {d}, way {k}, correlation={on}");
        expect_eq(&mut o, "spans", &what, seen.iter().map(|e| e.spans.clone()).collect(), want.clone());
        let here = current.as_ref().filter(|_| on).map(|c| c.request_id.to_string());
        expect_eq(&mut o, "attached", format!("{what}: contexts attached to the spans"), seen.iter().map(|e| e.attached.clone()).collect::<Vec<_>>(), want.iter().map(|w| vec![here.clone(); w.len()]).collect());
        for e in &seen {
            let v = parsed(&e.message);
            expect_eq(&mut o, "content", format!("{what}: {:?}", e.message), v.clone(), entry_json("info", v["message"].as_str().unwrap_or("?"), current.as_ref(), &json!({}), &Value::Null));
        }
        o.observed = format!("{c}{d}{k}{on}");
        o
    });
    // what init_logging lets through, in a process of its own
    for_all(ctx, "configured level x format x options", (0..5usize).flat_map(|l| (0..3usize).flat_map(move |f| (0..8usize).map(move |b| (l, f, b)))), |&(l, f, b)| {
        let mut o = Outcome { transitions: 10, ..Default::default() };
        let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("child-log").args([l, f, b].map(|x| x.to_string())).env_clear().output();
        let Ok(out) = out else {
            o.fail("child", format!("{out:?}"));
            return o;
        };
        let text = String::from_utf8_lossy(&out.stdout);
        expect_eq(&mut o, "written", format!("level {}, format {f}, options {b}: the process ended well", LEVELS[l]), out.status.success(), true);
        for (k, level) in LEVELS.iter().enumerate() {
            for c in 0..2 {
                let m = format!("<entry {level} {c}>");
                expect_eq(&mut o, "written", format!("configured level {}, format {f}, options {b}: times entry {m} was written", LEVELS[l]), text.matches(&m).count(), usize::from(k >= l));
                if k >= l {
                    let line = text.lines().find(|x| x.contains(&m)).unwrap_or("");
                    let json: Value = line.find('{').and_then(|i| serde_json::Deserializer::from_str(&line[i..]).into_iter().next().and_then(Result::ok)).unwrap_or(Value::Null);
                    let want = if c == 1 { json!("r-1") } else { Value::Null };
                    if json["request_id"] != want || json["fields"] != json!({"k": k}) || json["level"] != *level {
                        o.fail("written", format!("configured level {}, format {f}, options {b}: entry {m} was written as {line:?}", LEVELS[l]));
                    }
                }
            }
        }
        o.observed = format!("{l}{f}{b}");
        o
    });
    // requests served at once
    let tasks = ctx.by(2usize, 3usize);
    let dev = ctx.by(3, 4);
    explore(ctx, &format!("{tasks} requests logging at once, deviations<={dev}"), Bounds::dev(dev).secs(ctx.by(60, 600)), |ex| {
        let mut o = Outcome::default();
        let plan: Vec<[usize; 2]> = (0..tasks).map(|_| [ex.choose(4), ex.choose(4)]).collect();
        let contexts: Vec<RequestContext> = (0..tasks).map(|k| some_context(4 + 3 * k)).collect();
        let r = recorded(true, |log| {
            let cs = contexts.clone();
            let plan = plan.clone();
            let r = run_async(&ex, HOUR, true, async move {
                let lock = Arc::new(tokio::sync::Mutex::new(()));
                let mut hs = vec![];
                for (k, c) in cs.into_iter().enumerate() {
                    let (lock, steps) = (lock.clone(), plan[k]);
                    hs.push(tokio::spawn(c.clone().run(async move {
                        let logger = CorrelatedLogger::new(&format!("op{k}"));
                        for (n, s) in steps.into_iter().enumerate() {
                            let m = format!("{k}.{n}");
                            match s {
                                0 => LogEntry::new("info", m).log(),
                                1 => {
                                    let entry = LogEntry::new("info", m);
                                    drop(lock.lock().await);
                                    entry.log();
                                },
                                2 => {
                                    drop(lock.lock().await);
                                    logger.in_scope(|| LogEntry::new("info", m).log());
                                },
                                _ => {
                                    tokio::task::yield_now().await;
                                    CorrelatedLogger::new("other").in_scope(|| pmcp::info_correlated!(m));
                                    drop(lock.lock().await);
                                },
                            }
                        }
                    })));
                }
                for h in hs {
                    h.await.unwrap();
                }
            });
            r.map(|()| log.get())
        });
        let Some(seen) = r else {
            deadlock(&mut o, "requests that log");
            return o;
        };
        for (k, c) in contexts.iter().enumerate() {
            for n in 0..2 {
                let m = format!("{k}.{n}");
                let mine: Vec<&Event> = seen.iter().filter(|e| parsed(&e.message)["message"] == m.as_str()).collect();
                if mine.len() != 1 {
                    o.fail("entries", format!("{plan:?}: entry {m} logged {} times", mine.len()));
                    continue;
                }
                expect_eq(&mut o, "content", format!("{plan:?}: entry {m}"), parsed(&mine[0].message), entry_json("info", &m, Some(c), &json!({}), &Value::Null));
                let spans = match plan[k][n] {
                    2 => vec![span_of(&format!("op{k}"), Some(c))],
                    3 => vec![span_of("other", Some(c))],
                    _ => vec![],
                };
                expect_eq(&mut o, "attached", format!("{plan:?}: {m}"), mine[0].attached.clone(), vec![Some(c.request_id.to_string()); spans.len()]);
                expect_eq(&mut o, "spans", format!("{plan:?}: entry {m}"), mine[0].spans.clone(), spans);
            }
        }
        expect_eq(&mut o, "entries", format!("{plan:?}: number logged"), seen.len(), 2 * tasks);
        o.observed = format!("{:?}", seen.iter().map(|e| parsed(&e.message)["message"].clone()).collect::<Vec<_>>());
        o.transitions = seen.len() as u64;
        o
    });
}

// ------------------------------------------------------------------ C38

fn select(v: Value, l: &str, d: Option<&str>, off: bool) -> SelectOption {
    SelectOption { value: v, label: l.into(), description: d.map(String::from), disabled: off }
}

#[derive(Clone)]
struct Named(Log<String>, &'static str);
#[async_trait]
impl ToolHandler for Named {
    async fn handle(&self, _a: Value, _e: RequestHandlerExtra) -> pmcp::Result<Value> {
        self.0.push(format!("tool {}", self.1));
        Ok(json!(self.1))
    }
}
#[async_trait]
impl PromptHandler for Named {
    async fn handle(&self, _a: HashMap<String, String>, _e: RequestHandlerExtra) -> pmcp::Result<pmcp::GetPromptResult> {
        self.0.push(format!("prompt {}", self.1));
        Ok(pmcp::GetPromptResult { description: Some(self.1.into()), messages: vec![] })
    }
}
#[async_trait]
impl ResourceHandler for Named {
    async fn read(&self, _u: &str, _e: RequestHandlerExtra) -> pmcp::Result<pmcp::ReadResourceResult> {
        self.0.push(format!("read {}", self.1));
        Ok(pmcp::ReadResourceResult { contents: vec![] })
    }
    async fn list(&self, _c: Option<String>, _e: RequestHandlerExtra) -> pmcp::Result<pmcp::ListResourcesResult> {
        self.0.push(format!("list {}", self.1));
        Ok(pmcp::ListResourcesResult { resources: vec![], next_cursor: None })
    }
}
#[async_trait]
impl SamplingHandler for Named {
    async fn create_message(&self, _p: pmcp::types::protocol::CreateMessageParams, _e: RequestHandlerExtra) -> pmcp::Result<pmcp::types::protocol::CreateMessageResult> {
        self.0.push(format!("sample {}", self.1));
        Ok(pmcp::types::protocol::CreateMessageResult { content: pmcp::Content::Text { text: "t".into() }, model: "m".into(), usage: None, stop_reason: None })
    }
}

fn set(v: &mut Value, path: &[&str], x: Value) {
    match path {
        [k] => v[*k] = x,
        [k, rest @ ..] => {
            if v.get(*k).is_none() {
                v[*k] = json!({"required": false});
            }
            set(&mut v[*k], rest, x);
        },
        [] => {},
    }
}

fn elicitation(ctx: &Ctx) {
    let len = ctx.by(4, 5);
    let options = || vec![select(json!("a"), "A", None, false), select(json!({"x": 1}), "", Some("d"), true)];
    for_all(ctx, &format!("input requests, up to {len} settings"), sequences_upto(13, len), |s| {
        let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
        let mut b = ElicitInputBuilder::new(InputType::Text, "p");
        let mut want = json!({"inputType": "text", "prompt": "p"});
        for &i in s {
            b = match i {
                0 => { set(&mut want, &["elicitationId"], json!("one")); b.id("one") },
                1 => { set(&mut want, &["elicitationId"], json!("")); b.id("") },
                2 => { set(&mut want, &["description"], json!("d")); b.description("d") },
                3 => { set(&mut want, &["default"], json!(["x"])); b.default(json!(["x"])) },
                4 => { set(&mut want, &["default"], json!(false)); b.default(false) },
                5 => { set(&mut want, &["validation", "required"], json!(true)); b.required() },
                6 => { set(&mut want, &["validation", "min"], json!(-1.5)); b.min(-1.5) },
                7 => { set(&mut want, &["validation", "min"], json!(12.0)); b.min(12.0) },
                8 => { set(&mut want, &["validation", "max"], json!(9.0)); b.max(9.0) },
                9 => { set(&mut want, &["validation", "pattern"], json!("^a$")); b.pattern("^a$") },
                10 => { set(&mut want, &["validation", "options"], json!([{"value": "a", "label": "A", "disabled": false}, {"value": {"x": 1}, "label": "", "description": "d", "disabled": true}])); b.options(options()) },
                11 => { set(&mut want, &["theme"], json!({"c": 1})); b.metadata("theme", json!({"c": 1})) },
                _ => { set(&mut want, &["theme"], json!(2)); b.metadata("theme", 2) },
            };
        }
        let built = b.build();
        let mut v = serde_json::to_value(&built).unwrap();
        if want.get("elicitationId").is_none() {
            let id = v["elicitationId"].as_str().unwrap_or("").to_string();
            if id.is_empty() {
                o.fail("input-id", format!("{s:?}: no id of its own"));
            }
            want["elicitationId"] = json!(id);
        }
        expect_eq(&mut o, "input-request", format!("settings {s:?}: wire form"), v.clone(), want.clone());
        // and back
        match serde_json::from_value::<ElicitInputRequest>(v.take()) {
            Ok(again) => {
                expect_eq(&mut o, "input-wire", format!("settings {s:?}: decoded and encoded again"), serde_json::to_value(&again).unwrap(), want);
            },
            Err(e) => o.fail("input-wire", format!("settings {s:?}: {e}")),
        }
        o.observed = format!("{s:?}");
        o
    });
    // the ready-made ones
    let all = [
        (InputType::Text, "text"), (InputType::Textarea, "textarea"), (InputType::Boolean, "boolean"), (InputType::Number, "number"), (InputType::Select, "select"), (InputType::MultiSelect, "multiSelect"),
        (InputType::FilePath, "filePath"), (InputType::DirectoryPath, "directoryPath"), (InputType::Password, "password"), (InputType::Date, "date"), (InputType::Time, "time"), (InputType::DateTime, "dateTime"),
        (InputType::Color, "color"), (InputType::Url, "url"), (InputType::Email, "email"),
    ];
    for_all(ctx, "kinds of input", 0..all.len() + 5, |&k| {
        let mut o = Outcome::default();
        let mut ids = std::collections::BTreeSet::new();
        for _ in 0..3 {
            let (b, kind, valid) = match k.checked_sub(all.len()) {
                None => (ElicitInputBuilder::new(all[k].0.clone(), "p"), all[k].1, None),
                Some(0) => (elicit_text("p"), "text", None),
                Some(1) => (elicit_boolean("p"), "boolean", None),
                Some(2) => (elicit_select("p", options()), "select", Some(options())),
                Some(3) => (elicit_number("p"), "number", None),
                _ => (elicit_file("p"), "filePath", None),
            };
            let v = serde_json::to_value(b.build()).unwrap();
            expect_eq(&mut o, "input-kind", format!("kind {k}"), (v["inputType"].clone(), v["prompt"].clone(), v["validation"]["options"].clone()), (json!(kind), json!("p"), serde_json::to_value(valid).unwrap()));
            if !ids.insert(v["elicitationId"].to_string()) {
                o.fail("input-id", format!("kind {k}: the id {} was given twice", v["elicitationId"]));
            }
        }
        o
    });
    for_all(ctx, "arguments with completion", sequences_upto(6, 4), |s| {
        let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
        let mut b = completable("n");
        let mut want = json!({"name": "n", "required": false});
        for &i in s {
            b = match i {
                0 => { want["description"] = json!("d"); b.description("d") },
                1 => { want["description"] = json!("e"); b.description("e") },
                2 => { want["required"] = json!(true); b.required() },
                3 => { want["completion"] = json!({"provider": "static", "values": ["x", "y"]}); b.static_completions(vec!["x".into(), "y".into()]) },
                4 => { want["completion"] = json!({"provider": "static", "values": []}); b.static_completions(vec![]) },
                _ => { want["completion"] = json!({"provider": "file"}); b.file_completions() },
            };
        }
        let v = serde_json::to_value(b.build()).unwrap();
        expect_eq(&mut o, "argument", format!("settings {s:?}"), v.clone(), want.clone());
        let again = serde_json::from_value::<CompletableArgument>(v).map(|a| serde_json::to_value(a).unwrap()).unwrap_or_else(|e| json!(e.to_string()));
        expect_eq(&mut o, "argument", format!("settings {s:?}, decoded and encoded again"), again, want);
        o.observed = format!("{s:?}");
        o
    });
}

async fn ask(s: &Arc<Server>, method: &str, params: Value) -> Result<Value, String> {
    let req = pmcp::types::JSONRPCRequest { jsonrpc: "2.0".into(), id: RequestId::Number(1), method: method.into(), params: Some(params) };
    match s.handle_batch_request(BatchRequest::Single(req)).await {
        Ok(BatchResponse::Single(r)) => {
            let v = serde_json::to_value(&r).unwrap();
            match v.get("result") {
                Some(x) => Ok(x.clone()),
                None => Err(v["error"]["message"].to_string()),
            }
        },
        other => Err(format!("{other:?}")),
    }
}

fn servers(ctx: &Ctx) {
    let len = ctx.by(4, 5);
    let presets: [fn() -> ServerCapabilities; 2] = [
        || ServerCapabilities { prompts: Some(PromptCapabilities { list_changed: None }), experimental: Some([("x".to_string(), json!({"y": 1}))].into_iter().collect()), ..Default::default() },
        || ServerCapabilities { tools: Some(ToolCapabilities { list_changed: Some(false) }), sampling: None, ..ServerCapabilities::resources_only() },
    ];
    for_all(ctx, &format!("server builder, up to {len} calls after name and version"), sequences_upto(12, len), |s| {
        let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
        let calls = Log::new();
        let h = |n: &'static str| Named(calls.clone(), n);
        let mut b = Server::builder().name("first").version("1");
        let (mut name, mut version) = ("first", "1");
        let mut caps = json!({});
        let (mut ta, mut tb, mut pa, mut res, mut sam) = (None, None, None, None, None);
        for &i in s {
            b = match i {
                0 => { name = "second"; b.name("second") },
                1 => { version = "2.0"; b.version("2.0") },
                2 => { caps = serde_json::to_value(presets[0]()).unwrap(); b.capabilities(presets[0]()) },
                3 => { caps = serde_json::to_value(presets[1]()).unwrap(); b.capabilities(presets[1]()) },
                4 => { ta = Some("u"); b.tool("a", h("u")) },
                5 => { ta = Some("v"); b.tool("a", h("v")) },
                6 => { tb = Some("w"); b.tool("b", h("w")) },
                7 => { pa = Some("x"); b.prompt("a", h("x")) },
                8 => { pa = Some("y"); b.prompt("a", h("y")) },
                9 => { res = Some("r"); b.resources(h("r")) },
                10 => { res = Some("q"); b.resources(h("q")) },
                _ => { sam = Some("s"); caps["sampling"] = json!({}); b.sampling(h("s")) },
            };
        }
        let built = b.build();
        let Ok(server) = built.map(Arc::new) else {
            o.fail("server-build", format!("calls {s:?}: refused"));
            return o;
        };
        let (init, tools, prompts) = seq(async {
            let init = ask(&server, "initialize", json!({"protocolVersion": pmcp::LATEST_PROTOCOL_VERSION, "capabilities": {}, "clientInfo": {"name": "c", "version": "1"}})).await;
            let tools = ask(&server, "tools/list", json!({})).await;
            let prompts = ask(&server, "prompts/list", json!({})).await;
            for (m, p) in [
                ("tools/call", json!({"name": "a", "arguments": {}})),
                ("tools/call", json!({"name": "b", "arguments": {}})),
                ("prompts/get", json!({"name": "a", "arguments": {}})),
                ("resources/read", json!({"uri": "file:///x"})),
                ("sampling/createMessage", json!({"messages": []})),
            ] {
                let _ = ask(&server, m, p).await;
            }
            (init, tools, prompts)
        })
        .unwrap();
        let init = init.unwrap_or_else(Value::String);
        expect_eq(&mut o, "server-info", format!("calls {s:?}: what initialize tells"), (init["serverInfo"].clone(), init["capabilities"].clone()), (json!({"name": name, "version": version}), caps));
        let names = |v: &Result<Value, String>, k: &str| v.as_ref().map_or_else(|e| vec![format!("failed: {e}")], |v| sorted(v[k].as_array().map(|a| a.iter().map(|x| x["name"].as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default()));
        let some = |v: &[(&str, bool)]| v.iter().filter(|x| x.1).map(|x| x.0.to_string()).collect::<Vec<_>>();
        expect_eq(&mut o, "server-lists", format!("calls {s:?}: tools and prompts"), (names(&tools, "tools"), names(&prompts, "prompts")), (some(&[("a", ta.is_some()), ("b", tb.is_some())]), some(&[("a", pa.is_some())])));
        let want: Vec<String> = [("tool", ta), ("tool", tb), ("prompt", pa), ("read", res), ("sample", sam)].iter().filter_map(|(k, v)| v.map(|v| format!("{k} {v}"))).collect();
        expect_eq(&mut o, "server-handlers", format!("calls {s:?}: handlers invoked"), calls.get(), want);
        o.observed = format!("{s:?}");
        o
    });
}

fn plain(ctx: &Ctx) {
    // authentication
    let schemes = [AuthScheme::None, AuthScheme::Bearer, AuthScheme::OAuth2, AuthScheme::Custom("Bearer".into()), AuthScheme::Custom(String::new())];
    let tokens = [None, Some(""), Some("t"), Some("Bearer x"), Some("a b\n")];
    for_all(ctx, "authentication: scheme x token x params", (0..5usize).flat_map(|s| (0..5usize).flat_map(move |t| (0..4usize).map(move |p| (s, t, p)))), |&(s, t, p)| {
        let mut o = Outcome::default();
        let oauth = (p & 1 == 1).then(|| OAuthInfo { auth_url: "https://a".into(), token_url: "https://t".into(), client_id: "c".into(), scopes: (t > 1).then(|| vec!["r".into(), "w".into()]), redirect_uri: (t > 2).then(|| "https://r".into()), pkce_method: [None, Some(PkceMethod::Plain), Some(PkceMethod::S256)][t % 3] });
        let a = AuthInfo { scheme: schemes[s].clone(), token: tokens[t].map(String::from), oauth: oauth.clone(), params: if p & 2 == 2 { [("extra".to_string(), json!([1]))].into_iter().collect() } else { HashMap::new() } };
        expect_eq(&mut o, "auth-header", format!("{a:?}"), a.authorization_header(), (s == 1).then(|| tokens[t].map(|t| format!("Bearer {t}"))).flatten());
        expect_eq(&mut o, "auth-required", format!("{a:?}"), a.is_required(), s != 0);
        let wire = serde_json::to_value(&a).unwrap();
        let scheme = [json!("none"), json!("bearer"), json!("oAuth2"), json!({"custom": "Bearer"}), json!({"custom": ""})][s].clone();
        let mut want = json!({ "scheme": scheme });
        if let Some(t) = tokens[t] {
            want["token"] = json!(t);
        }
        if let Some(x) = &oauth {
            let mut w = json!({"authUrl": "https://a", "tokenUrl": "https://t", "clientId": "c"});
            if let Some(s) = &x.scopes {
                w["scopes"] = json!(s);
            }
            if let Some(r) = &x.redirect_uri {
                w["redirectUri"] = json!(r);
            }
            if let Some(m) = x.pkce_method {
                w["pkceMethod"] = json!(match m { PkceMethod::Plain => "plain", PkceMethod::S256 => "S256" });
            }
            want["oauth"] = w;
        }
        if p & 2 == 2 {
            want["extra"] = json!([1]);
        }
        expect_eq(&mut o, "auth-wire", format!("{a:?}: wire form"), wire.clone(), want.clone());
        let again = serde_json::from_value::<AuthInfo>(wire).map(|a| serde_json::to_value(a).unwrap()).unwrap_or_else(|e| json!(e.to_string()));
        expect_eq(&mut o, "auth-wire", format!("{a:?}: decoded and encoded again"), again, want);
        if p == 0 {
            if let Some(t) = tokens[t] {
                let b = AuthInfo::bearer(t);
                expect_eq(&mut o, "auth-made", format!("bearer({t:?})"), (b.authorization_header(), b.is_required(), b.scheme == AuthScheme::Bearer, b.params.len()), (Some(format!("Bearer {t}")), true, true, 0));
            }
            let n = AuthInfo::none();
            expect_eq(&mut o, "auth-made", "none()", (n.authorization_header(), n.is_required(), n.token.is_none(), n.oauth.is_none()), (None, false, true, true));
        }
        if let Some(x) = oauth {
            let b = AuthInfo::oauth2(x.clone());
            expect_eq(&mut o, "auth-made", "oauth2()", (b.is_required(), b.authorization_header(), serde_json::to_value(b.oauth).unwrap()), (true, None, serde_json::to_value(Some(x)).unwrap()));
        }
        o
    });
    // capabilities: the questions agree with the fields
    for_all(ctx, "capabilities: every subset", 0..128usize, |&b| {
        let mut o = Outcome::default();
        let on = |k: usize| b >> k & 1 == 1;
        let c = ClientCapabilities {
            tools: on(0).then(ToolCapabilities::default),
            prompts: on(1).then(PromptCapabilities::default),
            resources: on(2).then(ResourceCapabilities::default),
            sampling: on(3).then(SamplingCapabilities::default),
            logging: on(4).then(LoggingCapabilities::default),
            roots: on(5).then(|| RootsCapabilities { list_changed: on(6) }),
            experimental: on(6).then(HashMap::new),
        };
        expect_eq(&mut o, "capability", format!("{c:?}"), [c.supports_tools(), c.supports_prompts(), c.supports_resources(), c.supports_sampling()], [on(0), on(1), on(2), on(3)]);
        let s = ServerCapabilities {
            tools: on(0).then(ToolCapabilities::default),
            prompts: on(1).then(PromptCapabilities::default),
            resources: on(2).then(ResourceCapabilities::default),
            sampling: on(3).then(SamplingCapabilities::default),
            logging: on(4).then(LoggingCapabilities::default),
            completions: on(5).then(CompletionCapabilities::default),
            experimental: on(6).then(HashMap::new),
        };
        expect_eq(&mut o, "capability", format!("{s:?}"), [s.provides_tools(), s.provides_prompts(), s.provides_resources()], [on(0), on(1), on(2)]);
        // on the wire a capability that is not there is not mentioned
        for (what, v, want) in [
            ("client", serde_json::to_value(&c).unwrap(), vec![("tools", on(0)), ("prompts", on(1)), ("resources", on(2)), ("sampling", on(3)), ("logging", on(4)), ("roots", on(5)), ("experimental", on(6))]),
            ("server", serde_json::to_value(&s).unwrap(), vec![("tools", on(0)), ("prompts", on(1)), ("resources", on(2)), ("sampling", on(3)), ("logging", on(4)), ("completions", on(5)), ("experimental", on(6))]),
        ] {
            let got: Vec<String> = sorted(v.as_object().map(|m| m.keys().cloned().collect()).unwrap_or_default());
            expect_eq(&mut o, "capability-wire", format!("{what} {v}"), got, sorted(want.into_iter().filter(|x| x.1).map(|x| x.0.to_string()).collect()));
        }
        let v = serde_json::to_value(&c).unwrap();
        let again = serde_json::from_value::<ClientCapabilities>(v.clone()).map(|a| serde_json::to_value(a).unwrap()).unwrap_or_else(|e| json!(e.to_string()));
        expect_eq(&mut o, "capability-wire", "client, decoded and encoded again", again, v);
        let v = serde_json::to_value(&s).unwrap();
        let again = serde_json::from_value::<ServerCapabilities>(v.clone()).map(|a| serde_json::to_value(a).unwrap()).unwrap_or_else(|e| json!(e.to_string()));
        expect_eq(&mut o, "capability-wire", "server, decoded and encoded again", again, v);
        o
    });
    for_all(ctx, "capabilities: the ready-made sets", 0..1usize, |_| {
        let mut o = Outcome::default();
        let server = |c: ServerCapabilities| [c.provides_tools(), c.provides_prompts(), c.provides_resources(), c.sampling.is_some(), c.logging.is_some(), c.completions.is_some()];
        expect_eq(&mut o, "capability-sets", "server sets", [server(ServerCapabilities::minimal()), server(ServerCapabilities::tools_only()), server(ServerCapabilities::prompts_only()), server(ServerCapabilities::resources_only())], [
            [false; 6],
            [true, false, false, false, false, false],
            [false, true, false, false, false, false],
            [false, false, true, false, false, false],
        ]);
        let client = |c: ClientCapabilities| [c.supports_tools(), c.supports_prompts(), c.supports_resources(), c.supports_sampling(), c.logging.is_some(), c.roots.is_some_and(|r| r.list_changed)];
        expect_eq(&mut o, "capability-sets", "client sets", [client(ClientCapabilities::minimal()), client(ClientCapabilities::full())], [[false; 6], [true; 6]]);
        o
    });
    // batches as values
    let reqs = [json!({"jsonrpc": "2.0", "id": 1, "method": "ping"}), json!({"jsonrpc": "2.0", "id": "x", "method": "tools/call", "params": {"name": "t", "arguments": {"k": [1, null]}}}), json!({"jsonrpc": "2.0", "id": 1, "method": "ping", "params": {}})];
    for_all(ctx, "batches as values", sequences_upto(3, 4), |s| {
        let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
        let list: Vec<Value> = s.iter().map(|&i| reqs[i].clone()).collect();
        let one = s.len() == 1;
        for single in [true, false] {
            if single && !one {
                continue;
            }
            let v = if single { list[0].clone() } else { Value::Array(list.clone()) };
            let Ok(b) = BatchRequest::from_value(v.clone()) else {
                o.fail("batch", format!("{v} refused"));
                continue;
            };
            expect_eq(&mut o, "batch", format!("{v}: is_batch, len, is_empty"), (b.is_batch(), b.len(), b.is_empty()), (!single, s.len(), s.is_empty()));
            expect_eq(&mut o, "batch", "encoded again", b.to_value().ok(), Some(v.clone()));
            let rs: Vec<Value> = b.clone().into_requests().iter().map(|r| serde_json::to_value(r).unwrap()).collect();
            expect_eq(&mut o, "batch", format!("{v}: requests"), rs, list.clone());
            // processed: one answer each, in order
            let ids = Log::new();
            let l = ids.clone();
            let r = seq(pmcp::shared::batch::process_batch_request(b, move |r| {
                let l = l.clone();
                async move {
                    l.push(());
                    pmcp::types::JSONRPCResponse::success(r.id, json!(r.method))
                }
            }));
            let want: Vec<Value> = list.iter().map(|r| json!({"jsonrpc": "2.0", "id": r["id"], "result": r["method"]})).collect();
            match r {
                Some(Ok(resp)) => {
                    let got: Vec<Value> = resp.clone().into_responses().iter().map(|r| serde_json::to_value(r).unwrap()).collect();
                    expect_eq(&mut o, "batch-answers", format!("{v}: answers"), got, want.clone());
                    let whole = if one { want[0].clone() } else { Value::Array(want) };
                    expect_eq(&mut o, "batch-answers", format!("{v}: encoded answer"), resp.to_value().ok(), Some(whole));
                },
                other => o.fail("batch-answers", format!("{v}: {other:?}")),
            }
            expect_eq(&mut o, "batch-answers", format!("{v}: times the handler ran"), ids.len(), s.len());
        }
        o
    });
    for_all(ctx, "not batches", 0..8usize, |&k| {
        let mut o = Outcome::default();
        let v = [json!(null), json!(1), json!("x"), json!({}), json!({"id": 1, "method": "ping"}), json!([1]), json!([reqs[0], {}]), json!([[reqs[0]]])][k].clone();
        if let Ok(b) = BatchRequest::from_value(v.clone()) {
            o.fail("batch", format!("{v} read as {b:?}"));
        }
        o
    });
}

pub fn c38(ctx: &Ctx) {
    elicitation(ctx);
    servers(ctx);
    plain(ctx);
}
