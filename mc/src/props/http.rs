//! C18 streamable HTTP sessions; C19's event replay over HTTP.
use super::util::*;
use crate::aengine::*;
use crate::ctx::Ctx;
use crate::explore::*;
use async_trait::async_trait;
use axum::body::Body;
use axum::http::{HeaderMap, Request, StatusCode};
use futures::FutureExt;
use http_body_util::BodyExt;
use pmcp::server::cancellation::RequestHandlerExtra;
use pmcp::server::streamable_http_server::{EventStore, InMemoryEventStore, StreamableHttpServer, StreamableHttpServerConfig};
use crate::tengine::{block_on, run_threads, End};
use crate::vm;
use pmcp::Server;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use tower::ServiceExt;

struct Tool(Log<Value>);
#[async_trait]
impl pmcp::server::ToolHandler for Tool {
    async fn handle(&self, args: Value, _e: RequestHandlerExtra) -> pmcp::Result<Value> {
        self.0.push(args.clone());
        // let other requests in
        tokio::task::yield_now().await;
        Ok(args)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Sse,
    Json,
    StatelessSse,
    StatelessJson,
}
impl Mode {
    fn stateless(self) -> bool {
        matches!(self, Mode::StatelessSse | Mode::StatelessJson)
    }
    fn json(self) -> bool {
        matches!(self, Mode::Json | Mode::StatelessJson)
    }
}

/// The sessions' ids: each begins with those before it.
fn sname(k: usize) -> String {
    format!("s{}", "0".repeat(k + 1))
}

pub struct H {
    router: axum::Router,
    /// session callbacks, in order
    pub events: Log<String>,
    pub calls: Log<Value>,
    task: tokio::task::JoinHandle<()>,
}
impl Drop for H {
    fn drop(&mut self) {
        self.task.abort();
    }
}

pub async fn serve(mode: Mode, store: bool) -> H {
    let (events, calls) = (Log::new(), Log::new());
    let server = Server::builder().name("s").version("1").tool("t", Tool(calls.clone())).build().unwrap();
    let n = AtomicUsize::new(0);
    let (a, b) = (events.clone(), events.clone());
    let config = StreamableHttpServerConfig {
        session_id_generator: if mode.stateless() { None } else { Some(Box::new(move || sname(n.fetch_add(1, Ordering::SeqCst)))) },
        enable_json_response: mode.json(),
        event_store: if store { Some(Arc::new(InMemoryEventStore::default()) as Arc<dyn EventStore>) } else { None },
        on_session_initialized: Some(Box::new(move |s| a.push(format!("+{s}")))),
        on_session_closed: Some(Box::new(move |s| b.push(format!("-{s}")))),
    };
    let _ = pmcp::server::mc_hook::take_routers();
    let srv = StreamableHttpServer::with_config("127.0.0.1:0".parse().unwrap(), Arc::new(tokio::sync::Mutex::new(server)), config);
    let (_, task) = srv.start().await.expect("start");
    let router = pmcp::server::mc_hook::take_routers().pop().expect("router");
    H { router, events, calls, task }
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ev {
    pub id: String,
    pub data: Value,
}

pub struct Rsp {
    pub status: StatusCode,
    pub headers: HeaderMap,
    pub body: Body,
}
impl Rsp {
    fn header(&self, k: &str) -> Option<String> {
        self.headers.get(k).map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned())
    }
    fn is(&self, ct: &str) -> bool {
        self.header("content-type").is_some_and(|c| c.starts_with(ct))
    }
}

pub async fn call(router: &axum::Router, method: &str, headers: &[(&str, &[u8])], body: &str) -> Rsp {
    let mut b = Request::builder().method(method).uri("/");
    for (k, v) in headers {
        b = b.header(*k, *v);
    }
    let r = router.clone().oneshot(b.body(Body::from(body.to_string())).unwrap()).await.unwrap();
    let (p, body) = r.into_parts();
    Rsp { status: p.status, headers: p.headers, body }
}

async fn text(b: Body) -> String {
    String::from_utf8_lossy(&b.collect().await.map(|c| c.to_bytes()).unwrap_or_default()).into_owned()
}

fn parse_events(t: &str) -> Vec<Ev> {
    t.split("\n\n")
        .filter(|b| b.lines().any(|l| l.starts_with("data:")))
        .map(|b| {
            let get = |k: &str| b.lines().filter_map(|l| l.strip_prefix(k)).map(|v| v.strip_prefix(' ').unwrap_or(v)).collect::<Vec<_>>().join("\n");
            Ev { id: get("id:"), data: serde_json::from_str(&get("data:")).unwrap_or(Value::Null) }
        })
        .collect()
}

/// what an open stream has delivered so far; None: the stream has ended
fn drain(b: &mut Body) -> (Vec<Ev>, bool) {
    let mut t = String::new();
    loop {
        match b.frame().now_or_never() {
            Some(Some(Ok(f))) => {
                if let Ok(d) = f.into_data() {
                    t.push_str(&String::from_utf8_lossy(&d));
                }
            },
            Some(_) => return (parse_events(&t), true),
            None => return (parse_events(&t), false),
        }
    }
}

// ------------------------------------------------------------------ exchanges

const NEW: &str = pmcp::LATEST_PROTOCOL_VERSION;
const MID: &str = "2025-03-26";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum B {
    Init(&'static str),
    Call,
    Note,
    Reply,
    Garbage,
    Unknown,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Sid {
    No,
    S(usize),
    Bogus,
    Blank,
    Binary,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ver {
    No,
    Is(&'static str),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Hd {
    Good,
    SseOnly,
    Charset,
    NoAccept,
    BadAccept,
    NoType,
    BadType,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum X {
    Post(B, Sid, Ver, Hd),
    Get(Sid, Hd),
    Delete(Sid),
    Hang(usize),
    Other(&'static str, Sid),
}

fn body(b: B, k: usize) -> String {
    match b {
        B::Init(v) => json!({"jsonrpc": "2.0", "id": k, "method": "initialize", "params": {"protocolVersion": v, "capabilities": {}, "clientInfo": {"name": "c", "version": "1"}}}).to_string(),
        B::Call => json!({"jsonrpc": "2.0", "id": k, "method": "tools/call", "params": {"name": "t", "arguments": {"k": k}}}).to_string(),
        B::Note => json!({"jsonrpc": "2.0", "method": "notifications/initialized"}).to_string(),
        B::Reply => json!({"jsonrpc": "2.0", "id": k, "result": {}}).to_string(),
        B::Garbage => "{\"jsonrpc\":".into(),
        B::Unknown => json!({"jsonrpc": "2.0", "id": k, "method": "no/such", "params": {}}).to_string(),
    }
}

#[derive(Default, Debug, Clone)]
struct Model {
    /// session -> negotiated version, once negotiated
    live: BTreeMap<usize, Option<String>>,
    issued: usize,
    events: Vec<String>,
    calls: Vec<Value>,
}

struct Sut {
    h: H,
    m: Model,
    mode: Mode,
    open: BTreeMap<usize, Body>,
}

fn sid_bytes(s: Sid) -> Option<Vec<u8>> {
    match s {
        Sid::No => None,
        Sid::S(k) => Some(sname(k).into_bytes()),
        Sid::Bogus => Some(b"S0".to_vec()),
        Sid::Blank => Some(vec![]),
        Sid::Binary => Some(b"s\xff".to_vec()),
    }
}

impl Sut {
    fn known(&self, s: Sid) -> Option<usize> {
        match s {
            Sid::S(k) if self.m.live.contains_key(&k) => Some(k),
            _ => None,
        }
    }
    fn issue(&mut self, version: Option<String>) -> usize {
        let k = self.m.issued;
        self.m.issued += 1;
        self.m.live.insert(k, version);
        self.m.events.push(format!("+{}", sname(k)));
        k
    }
    fn error_shape(&self, o: &mut Outcome, at: &str, status: StatusCode, text: &str) {
        let v: Value = serde_json::from_str(text).unwrap_or(Value::Null);
        if v["jsonrpc"] != "2.0" || !v["error"]["code"].is_i64() || !v["error"]["message"].is_string() || v.get("result").is_some() {
            o.fail("error-body", format!("{at}: {status} with body {text:?}"));
        }
    }

    async fn step(&mut self, o: &mut Outcome, x: X, k: usize, at: &str) {
        let mut hs: Vec<(&str, Vec<u8>)> = vec![];
        let sid = match x {
            X::Post(_, s, ..) | X::Get(s, _) | X::Delete(s) | X::Other(_, s) => s,
            X::Hang(k) => {
                self.open.remove(&k);
                settle().await;
                return;
            },
        };
        if let Some(s) = sid_bytes(sid) {
            hs.push(("mcp-session-id", s));
        }
        let hd = match x {
            X::Post(_, _, v, h) => {
                if let Ver::Is(v) = v {
                    hs.push(("MCP-Protocol-Version", v.into()));
                }
                match h {
                    Hd::NoType => {},
                    Hd::BadType => hs.push(("content-type", b"text/plain".to_vec())),
                    Hd::Charset => hs.push(("content-type", b"application/json; charset=utf-8".to_vec())),
                    _ => hs.push(("content-type", b"application/json".to_vec())),
                }
                h
            },
            X::Get(_, h) => h,
            _ => Hd::Good,
        };
        match hd {
            Hd::NoAccept => {},
            Hd::BadAccept => hs.push(("accept", b"text/html".to_vec())),
            Hd::SseOnly => hs.push(("accept", b"text/event-stream".to_vec())),
            _ => hs.push(("accept", b"application/json, text/event-stream".to_vec())),
        }
        let hs: Vec<(&str, &[u8])> = hs.iter().map(|(k, v)| (*k, v.as_slice())).collect();
        let stateless = self.mode.stateless();
        let mut faults: Vec<u16> = vec![];
        let (method, text_body) = match x {
            X::Post(b, ..) => ("POST", body(b, k)),
            X::Get(..) => ("GET", String::new()),
            X::Delete(_) => ("DELETE", String::new()),
            X::Other(m, _) => (m, String::new()),
            X::Hang(_) => unreachable!(),
        };
        // what is wrong with the request
        match x {
            X::Post(b, _, v, h) => {
                match h {
                    Hd::NoType | Hd::BadType => faults.push(415),
                    Hd::NoAccept | Hd::BadAccept => faults.push(406),
                    _ => {},
                }
                if b == B::Garbage {
                    faults.push(400);
                } else if matches!(b, B::Init(_)) {
                    if !stateless && self.known(sid).is_some() {
                        faults.push(400);
                    }
                } else {
                    if !stateless {
                        match (sid, self.known(sid)) {
                            (_, Some(_)) => {},
                            (Sid::No | Sid::Binary, _) => faults.push(400),
                            _ => faults.push(404),
                        }
                    }
                    if let Ver::Is(v) = v {
                        let negotiated = self.known(sid).and_then(|k| self.m.live[&k].clone());
                        if !pmcp::SUPPORTED_PROTOCOL_VERSIONS.contains(&v) || negotiated.is_some_and(|n| n != v) {
                            faults.push(400);
                        }
                    }
                    if b == B::Unknown && !faults.is_empty() {
                        faults.push(400); // (the order of the checks is free)
                    }
                }
            },
            X::Get(_, h) => {
                if matches!(h, Hd::NoAccept | Hd::BadAccept) {
                    faults.push(406);
                }
                if stateless {
                    faults.push(405);
                } else {
                    match self.known(sid) {
                        Some(k) => {
                            if self.open.contains_key(&k) {
                                faults.push(409);
                            }
                        },
                        None if matches!(sid, Sid::No | Sid::Binary) => {},
                        None => faults.push(404),
                    }
                }
            },
            X::Delete(_) => {
                if !stateless && self.known(sid).is_none() {
                    faults.push(404);
                }
            },
            X::Other(..) => faults.push(405),
            X::Hang(_) => {},
        }
        let r = call(&self.h.router, method, &hs, &text_body).await;
        let status = r.status;
        o.observed.push_str(&format!("{} ", status.as_u16()));
        let sid_out = r.header("mcp-session-id");
        if stateless && sid_out.is_some() {
            o.fail("stateless-session", format!("{at}: issued session id {sid_out:?}"));
        }
        if !faults.is_empty() {
            if !faults.contains(&status.as_u16()) {
                let got = text(r.body).now_or_never();
                o.fail("status", format!("{at}: status {status}, expected one of {faults:?}; body {got:?}"));
                return;
            }
            let ct_json = r.is("application/json");
            let t = text(r.body).await;
            if ct_json {
                self.error_shape(o, at, status, &t);
            }
        } else {
            match x {
                X::Post(b @ (B::Init(_) | B::Call | B::Unknown), ..) => {
                    self.answered(o, at, b, sid, k, r).await;
                },
                X::Post(..) => {
                    if status != StatusCode::ACCEPTED {
                        o.fail("status", format!("{at}: status {status}, expected 202"));
                    }
                },
                X::Get(..) => {
                    let s = match self.known(sid) {
                        Some(k) => k,
                        None => self.issue(None),
                    };
                    if status != StatusCode::OK || !r.is("text/event-stream") || sid_out != Some(sname(s)) {
                        o.fail("stream", format!("{at}: status {status}, {:?}, session {sid_out:?}, expected s{s}", r.header("content-type")));
                        return;
                    }
                    self.open.insert(s, r.body);
                },
                X::Delete(_) => {
                    if !stateless {
                        let s = self.known(sid).unwrap();
                        if !status.is_success() {
                            o.fail("status", format!("{at}: status {status}, expected success"));
                        }
                        self.m.live.remove(&s);
                        self.m.events.push(format!("-{}", sname(s)));
                        if let Some(mut b) = self.open.remove(&s) {
                            settle().await;
                            let (e, ended) = drain(&mut b);
                            if !e.is_empty() || !ended {
                                o.fail("stream-after-delete", format!("{at}: events {e:?}, ended {ended}"));
                            }
                        }
                    }
                },
                _ => {},
            }
        }
        // nothing else happened
        let mut got = self.h.events.get();
        if stateless {
            got.retain(|e| !e.starts_with('-'));
        }
        if got != self.m.events {
            o.fail("session-callbacks", format!("{at}: {got:?}, expected {:?}", self.m.events));
        }
        if self.h.calls.get() != self.m.calls {
            o.fail("calls", format!("{at}: handlers ran with {:?}, expected {:?}", self.h.calls.get(), self.m.calls));
        }
        for (s, b) in &mut self.open {
            let (e, ended) = drain(b);
            if !e.is_empty() || ended {
                o.fail("stray-event", format!("{at}: stream of s{s} got {e:?}, ended {ended}"));
            }
        }
    }

    /// a request that must be answered
    async fn answered(&mut self, o: &mut Outcome, at: &str, b: B, sid: Sid, k: usize, r: Rsp) {
        let stateless = self.mode.stateless();
        let status = r.status;
        if b == B::Call {
            self.m.calls.push(json!({"k": k}));
        }
        // an undecodable but well formed request: refused, or answered with an error
        if b == B::Unknown && status == StatusCode::BAD_REQUEST {
            let t = text(r.body).await;
            self.error_shape(o, at, status, &t);
            return;
        }
        let mut session = self.known(sid);
        if let B::Init(_) = b {
            if !stateless {
                if matches!(sid, Sid::No | Sid::Binary) {
                    session = Some(self.issue(None));
                } else if status.is_client_error() {
                    // refusing an unknown session id is fine too
                    return;
                }
            }
        }
        let want_sid = if stateless {
            None
        } else {
            match session {
                Some(s) => Some(sname(s)),
                None => sid_bytes(sid).map(|b| String::from_utf8_lossy(&b).into_owned()),
            }
        };
        let got_sid = r.header("mcp-session-id");
        if got_sid != want_sid {
            o.fail("session-header", format!("{at}: session header {got_sid:?}, expected {want_sid:?}"));
        }
        let got_ver = r.header("mcp-protocol-version");
        // the answer itself
        let answer = if status == StatusCode::ACCEPTED {
            settle().await;
            match session.and_then(|s| self.open.get_mut(&s)) {
                Some(b) if !self.mode.json() => {
                    let (mut e, ended) = drain(b);
                    if e.len() != 1 || ended {
                        o.fail("answer-on-stream", format!("{at}: {e:?} ended {ended}"));
                    }
                    e.pop().map_or(Value::Null, |e| e.data)
                },
                _ => {
                    o.fail("unanswered", format!("{at}: status 202 and no open stream"));
                    return;
                },
            }
        } else if status == StatusCode::OK {
            if self.mode.json() != r.is("application/json") && !(r.is("application/json") && !matches!(sid, Sid::S(_) | Sid::Bogus | Sid::Blank)) {
                o.fail("answer-form", format!("{at}: {:?}", r.header("content-type")));
            }
            if r.is("application/json") {
                serde_json::from_str(&text(r.body).await).unwrap_or(Value::Null)
            } else {
                let mut e = parse_events(&text(r.body).await);
                if e.len() != 1 || e[0].id.is_empty() {
                    o.fail("answer-event", format!("{at}: {e:?}"));
                }
                e.pop().map_or(Value::Null, |e| e.data)
            }
        } else {
            o.fail("status", format!("{at}: status {status}, expected an answer"));
            return;
        };
        if answer["jsonrpc"] != "2.0" || answer["id"] != json!(k) {
            o.fail("answer", format!("{at}: {answer}"));
        }
        let mut version = session.and_then(|s| self.m.live.get(&s).cloned().flatten());
        match b {
            B::Call => {
                let t = &answer["result"];
                if !t.to_string().contains(&format!("k\\\":{k}")) && !t.to_string().contains(&format!("\"k\":{k}")) {
                    o.fail("answer", format!("{at}: {answer}"));
                }
            },
            B::Unknown => {
                if !answer["error"].is_object() {
                    o.fail("answer", format!("{at}: {answer}"));
                }
            },
            B::Init(v) => {
                let n = answer["result"]["protocolVersion"].as_str().unwrap_or("").to_string();
                let ok = pmcp::SUPPORTED_PROTOCOL_VERSIONS.contains(&n.as_str()) && (!pmcp::SUPPORTED_PROTOCOL_VERSIONS.contains(&v) || n == v);
                if !ok {
                    o.fail("negotiation", format!("{at}: asked {v}, got {answer}"));
                }
                version = Some(n.clone());
                if let Some(s) = session {
                    self.m.live.insert(s, Some(n));
                }
            },
            _ => {},
        }
        let want_ver = version.unwrap_or_else(|| pmcp::DEFAULT_PROTOCOL_VERSION.to_string());
        if got_ver.as_deref() != Some(&want_ver) {
            o.fail("version-header", format!("{at}: {got_ver:?}, expected {want_ver:?}"));
        }
    }
}

fn run_seq(mode: Mode, xs: &[X]) -> Outcome {
    let mut o = Outcome { transitions: xs.len() as u64, ..Default::default() };
    rt().block_on(async {
        let mut s = Sut { h: serve(mode, true).await, m: Model::default(), mode, open: BTreeMap::new() };
        for (k, x) in xs.iter().enumerate() {
            let at = format!("{mode:?}: {:?}", &xs[..=k]);
            s.step(&mut o, *x, k, &at).await;
            if !o.fails.is_empty() {
                break;
            }
        }
    });
    o
}

fn alphabet() -> Vec<X> {
    use X::*;
    let g = Hd::Good;
    vec![
        Post(B::Init(NEW), Sid::No, Ver::No, g),
        Post(B::Init("1999-01-01"), Sid::No, Ver::Is("zzz"), g),
        Post(B::Init(MID), Sid::S(0), Ver::No, g),
        Post(B::Init(MID), Sid::Bogus, Ver::No, g),
        Post(B::Call, Sid::S(0), Ver::No, g),
        Post(B::Call, Sid::S(1), Ver::No, g),
        Post(B::Call, Sid::S(0), Ver::Is(NEW), g),
        Post(B::Call, Sid::S(0), Ver::Is(MID), g),
        Post(B::Call, Sid::No, Ver::No, g),
        Post(B::Call, Sid::Bogus, Ver::No, g),
        Post(B::Note, Sid::S(0), Ver::No, g),
        Post(B::Call, Sid::S(0), Ver::No, Hd::NoAccept),
        Get(Sid::No, g),
        Get(Sid::S(0), g),
        Get(Sid::S(1), g),
        Hang(0),
        Delete(Sid::S(0)),
        Delete(Sid::S(1)),
    ]
}

pub fn c18(ctx: &Ctx) {
    use X::*;
    let modes = [Mode::Sse, Mode::Json, Mode::StatelessSse, Mode::StatelessJson];
    // every request from a range of situations
    let g = Hd::Good;
    let init = Post(B::Init(NEW), Sid::No, Ver::No, g);
    let situations: Vec<Vec<X>> = vec![
        vec![],
        vec![init],
        vec![Post(B::Init(MID), Sid::No, Ver::No, g), init],
        vec![init, Get(Sid::S(0), g)],
        vec![Get(Sid::No, g)],
        vec![Get(Sid::No, g), Hang(0)],
        vec![init, Delete(Sid::S(0))],
        vec![init, Get(Sid::S(0), g), Delete(Sid::S(0)), init],
    ];
    let mut requests = vec![];
    for b in [B::Init(NEW), B::Init("2024-11-05"), B::Init("junk"), B::Call, B::Note, B::Reply, B::Garbage, B::Unknown] {
        for s in [Sid::No, Sid::S(0), Sid::S(1), Sid::Bogus, Sid::Blank, Sid::Binary] {
            for v in [Ver::No, Ver::Is(NEW), Ver::Is(MID), Ver::Is("2024-11-05"), Ver::Is("2024-10-07"), Ver::Is(""), Ver::Is("9999")] {
                for h in [Hd::Good, Hd::SseOnly, Hd::Charset, Hd::NoAccept, Hd::BadAccept, Hd::NoType, Hd::BadType] {
                    requests.push(Post(b, s, v, h));
                }
            }
        }
    }
    for s in [Sid::No, Sid::S(0), Sid::S(1), Sid::Bogus, Sid::Blank, Sid::Binary] {
        for h in [Hd::Good, Hd::SseOnly, Hd::NoAccept, Hd::BadAccept] {
            requests.push(Get(s, h));
        }
        requests.push(Delete(s));
        requests.push(Other("PUT", s));
        requests.push(Other("PATCH", s));
    }
    let probe = [Post(B::Call, Sid::S(0), Ver::No, g), Post(B::Call, Sid::S(1), Ver::No, g)];
    let mut cases = vec![];
    for m in modes {
        for s in &situations {
            for r in &requests {
                let mut v = s.clone();
                v.push(*r);
                v.extend(probe);
                cases.push((m, v));
            }
        }
    }
    for_all(ctx, "every request in every situation, then two probes", cases, |(m, v)| run_seq(*m, v));
    let a = alphabet();
    for m in modes {
        let depth = if m.stateless() { 3 } else { ctx.by(4, 5) };
        for_all(ctx, &format!("{m:?}: exchange sequences, length {depth}"), sequences(a.len(), depth), |s| {
            let xs: Vec<X> = s.iter().map(|&i| a[i]).collect();
            run_seq(m, &xs)
        });
    }
    // concurrent requests of two sessions: each gets its own answer
    for m in modes {
        for streams in [false, true] {
            if streams && m != Mode::Sse {
                continue;
            }
            let dev = ctx.by(2, 3);
            explore(ctx, &format!("{m:?}: three requests of two sessions at once, streams={streams}, deviations<={dev}"), Bounds::dev(dev).secs(ctx.by(30, 300)), |ex| {
                let mut o = Outcome::default();
                // (real IO is not used: the router is called directly)
                let r = run_async_io(&ex, async {
                    let h = serve(m, true).await;
                    let hd: [(&str, &[u8]); 2] = [("content-type", b"application/json"), ("accept", b"application/json, text/event-stream")];
                    let mut sids = vec![];
                    let mut opened = vec![];
                    for k in 0..2 {
                        let r = call(&h.router, "POST", &hd, &body(B::Init(NEW), k)).await;
                        sids.push(r.header("mcp-session-id"));
                        if streams {
                            let s = sids[k].clone().unwrap_or_default();
                            let mut hs = hd.to_vec();
                            hs.push(("mcp-session-id", s.as_bytes()));
                            opened.push(call(&h.router, "GET", &hs, "").await.body);
                        }
                    }
                    let mut tasks = vec![];
                    for k in [10usize, 11, 12] {
                        let (router, sid) = (h.router.clone(), sids[k % 2].clone());
                        tasks.push(tokio::spawn(async move {
                            let mut hs: Vec<(&str, &[u8])> = vec![("content-type", b"application/json"), ("accept", b"application/json, text/event-stream")];
                            if let Some(s) = &sid {
                                hs.push(("mcp-session-id", s.as_bytes()));
                            }
                            let r = call(&router, "POST", &hs, &body(B::Call, k)).await;
                            let st = r.status;
                            (k, st, r.header("mcp-session-id"), text(r.body).await)
                        }));
                    }
                    let mut out = vec![];
                    for t in tasks {
                        out.push(t.await.unwrap());
                    }
                    let streams_got: Vec<Vec<Ev>> = opened.iter_mut().map(|b| drain(b).0).collect();
                    (sids, out, streams_got)
                });
                let Some((sids, out, got)) = r else {
                    deadlock(&mut o, "three HTTP requests");
                    return o;
                };
                for (k, st, sid, t) in &out {
                    let has = |v: &Value| v["id"] == json!(k) && v["result"].to_string().contains(&format!("{k}"));
                    let ok = *sid == sids[k % 2]
                        && if streams {
                            *st == StatusCode::ACCEPTED && got[k % 2].iter().filter(|e| has(&e.data)).count() == 1 && !got[1 - k % 2].iter().any(|e| e.data["id"] == json!(k))
                        } else {
                            *st == StatusCode::OK && (serde_json::from_str::<Value>(t).is_ok_and(|v| has(&v)) || parse_events(t).iter().any(|e| has(&e.data)))
                        };
                    if !ok {
                        o.fail("answer-crossed", format!("request {k}: {st} session {sid:?} body {t:?} streams {got:?}"));
                    }
                }
                o.observed = format!("{:?}", got.iter().map(|g| g.iter().map(|e| e.data["id"].clone()).collect::<Vec<_>>()).collect::<Vec<_>>());
                o
            });
        }
    }
    c18_threads(ctx);
    ctx.assume("requests reach the axum router in process (socket I/O is not explored); when a request has several faults, the status of any of them is accepted");
}

// ------------------------------------------------------------------ requests on several threads

const GOOD: [(&str, &[u8]); 2] = [("content-type", b"application/json"), ("accept", b"application/json, text/event-stream")];

fn with<'a>(sid: &'a str, last: Option<&'a str>) -> Vec<(&'a str, &'a [u8])> {
    let mut h = GOOD.to_vec();
    h.push(("mcp-session-id", sid.as_bytes()));
    if let Some(l) = last {
        h.push(("Last-Event-ID", l.as_bytes()));
    }
    h
}

fn ended_well(o: &mut Outcome, end: &End, what: &str) -> bool {
    match end {
        End::Ok => return true,
        End::Deadlock => o.fail("deadlock", what.to_string()),
        End::Panic(p) => o.fail("panic", format!("{what}: {p}")),
        End::Stuck => o.fail("stuck", what.to_string()),
    }
    false
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Call,
    Open,
    Delete,
    Init,
}

#[derive(Clone, Debug)]
struct TModel {
    live: bool,
    open: bool,
    inits: usize,
}

fn t_apply(m: &mut TModel, op: Op) -> u16 {
    match op {
        Op::Init => m.inits += 1,
        _ if !m.live => return 404,
        Op::Call => {},
        Op::Open if m.open => return 409,
        Op::Open => m.open = true,
        Op::Delete => (m.live, m.open) = (false, false),
    }
    200
}

/// Requests for one session from two threads: the statuses are those of some
/// order of the requests, every answer arrives once, a deleted session keeps no
/// stream, and the session callbacks run once.
fn c18_threads(ctx: &Ctx) {
    use Op::*;
    let ops = [Call, Open, Delete, Init];
    let dev = ctx.by(2, 3);
    for (name, second) in [("one request each", 0usize), ("two requests and one", 1)] {
        for (mode, setups) in [(Mode::Sse, vec!["no stream", "open", "broken"]), (Mode::Json, vec!["no stream"])] {
            let label = format!("{mode:?}: {name}, on two threads, preemptions<={dev}");
            explore(ctx, &label, Bounds::dev(dev).secs(ctx.by(40, 300)), |ex| {
                let mut o = Outcome::default();
                let setup = setups[ex.choose(setups.len()) as usize];
                let mut plan: Vec<Vec<Op>> = vec![vec![ops[ex.choose(4) as usize]], vec![ops[ex.choose(4) as usize]]];
                if second == 1 {
                    plan[0].push(ops[ex.choose(4) as usize]);
                }
                let what = format!("{mode:?}, {setup}: {plan:?}");
                let rt = rt();
                let mut streams: Vec<Body> = vec![];
                let h = rt.block_on(async {
                    let h = serve(mode, true).await;
                    call(&h.router, "POST", &GOOD, &body(B::Init(NEW), 0)).await;
                    if setup != "no stream" {
                        let b = call(&h.router, "GET", &with("s0", None), "").await.body;
                        if setup == "open" {
                            streams.push(b);
                        }
                    }
                    h
                });
                let clock = vm::Clock::new();
                vm::join_clock(&clock);
                let res: Vec<Arc<Mutex<Vec<(Op, usize, Rsp)>>>> = plan.iter().map(|_| Arc::default()).collect();
                let bodies = plan
                    .iter()
                    .enumerate()
                    .map(|(t, ops)| {
                        let (router, out, ops) = (h.router.clone(), res[t].clone(), ops.clone());
                        Box::new(move || {
                            for (i, op) in ops.into_iter().enumerate() {
                                let k = 10 + 10 * t + i;
                                let r = match op {
                                    Call => block_on(call(&router, "POST", &with("s0", None), &body(B::Call, k))),
                                    Open => block_on(call(&router, "GET", &with("s0", None), "")),
                                    Delete => block_on(call(&router, "DELETE", &with("s0", None), "")),
                                    Init => block_on(call(&router, "POST", &GOOD, &body(B::Init(NEW), k))),
                                };
                                out.lock().unwrap().push((op, k, r));
                            }
                        }) as Box<dyn FnOnce() + Send>
                    })
                    .collect();
                let end = run_threads(&ex, &clock, bodies);
                vm::leave_clock();
                if !ended_well(&mut o, &end, &what) {
                    return o;
                }
                rt.block_on(async {
                    let mut threads: Vec<Vec<(Op, u16)>> = vec![];
                    let mut asked = vec![];
                    let mut own: Vec<Value> = vec![];
                    let mut issued = vec!["s0".to_string()];
                    for r in &res {
                        let mut t = vec![];
                        for (op, k, r) in std::mem::take(&mut *r.lock().unwrap()) {
                            let st = r.status.as_u16();
                            t.push((op, if st == 202 { 200 } else { st }));
                            if !r.status.is_success() {
                                continue;
                            }
                            match op {
                                Open => streams.push(r.body),
                                Delete => {},
                                Call | Init => {
                                    asked.push(k);
                                    if op == Init {
                                        issued.extend(r.header("mcp-session-id"));
                                    }
                                    if st == 200 {
                                        let json = r.is("application/json");
                                        let t = text(r.body).await;
                                        if json {
                                            own.push(serde_json::from_str(&t).unwrap_or(Value::Null));
                                        } else {
                                            own.extend(parse_events(&t).into_iter().map(|e| e.data));
                                        }
                                    }
                                },
                            }
                        }
                        threads.push(t);
                    }
                    let mut still = 0;
                    for b in &mut streams {
                        let (e, ended) = drain(b);
                        own.extend(e.into_iter().map(|e| e.data));
                        still += usize::from(!ended);
                    }
                    let ev = h.events.get();
                    let gone = ev.iter().filter(|e| *e == "-s0").count();
                    let new = ev.iter().filter(|e| e.starts_with('+')).count();
                    let fin = |m: &TModel| still == usize::from(m.open) && gone == usize::from(!m.live) && new == 1 + m.inits && ev.len() == new + gone;
                    let init = TModel { live: true, open: setup == "open", inits: 0 };
                    o.observed = format!("{threads:?} {still} {ev:?}");
                    if !linearizable(&init, &threads, &|m: &mut TModel, op: &Op| t_apply(m, *op), &fin) {
                        o.fail("not-linearizable", format!("{what}: statuses {threads:?}, {still} streams open, callbacks {ev:?}: no order of the requests explains it"));
                    }
                    let n = issued.len();
                    issued.sort();
                    issued.dedup();
                    if issued.len() != n {
                        o.fail("session-id-twice", format!("{what}: {issued:?}"));
                    }
                    let got = sorted(own.iter().map(|v| v["id"].as_u64().unwrap_or(0) as usize).collect());
                    if got != sorted(asked.clone()) {
                        o.fail("answers", format!("{what}: answered {asked:?}, arrived {got:?}"));
                    }
                });
                o
            });
        }
    }
}

/// A broken stream resumed while more events come in from another thread: it
/// brings each missed event once, in the order of the log.
pub fn c19_http_threads(ctx: &Ctx) {
    let dev = ctx.by(2, 3);
    explore(ctx, &format!("a stream resumed while events arrive, on two threads, preemptions<={dev}"), Bounds::dev(dev).secs(ctx.by(40, 300)), |ex| {
        let mut o = Outcome::default();
        let from = ex.choose(2) as usize;
        let posts = 1 + ex.choose(2) as usize;
        let then_post = ex.choose(2) == 1;
        let what = format!("resumed after event {from}, {posts} requests meanwhile, {then_post}");
        let rt = rt();
        let mut ids = vec![];
        let h = rt.block_on(async {
            let h = serve(Mode::Sse, true).await;
            call(&h.router, "POST", &GOOD, &body(B::Init(NEW), 0)).await;
            for k in [100, 101] {
                let r = call(&h.router, "POST", &with("s0", None), &body(B::Call, k)).await;
                ids.extend(parse_events(&text(r.body).await).into_iter().map(|e| e.id));
            }
            drop(call(&h.router, "GET", &with("s0", None), "").await);
            h
        });
        if ids.len() != 2 {
            o.fail("setup", format!("{ids:?}"));
            return o;
        }
        let clock = vm::Clock::new();
        vm::join_clock(&clock);
        let posted: Arc<Mutex<Vec<(usize, Rsp)>>> = Arc::default();
        let stream: Arc<Mutex<Option<Rsp>>> = Arc::default();
        let (r1, p1, r2, p2, s2, last) = (h.router.clone(), posted.clone(), h.router.clone(), posted.clone(), stream.clone(), ids[from].clone());
        let end = run_threads(
            &ex,
            &clock,
            vec![
                Box::new(move || {
                    for k in 102..102 + posts {
                        let r = block_on(call(&r1, "POST", &with("s0", None), &body(B::Call, k)));
                        p1.lock().unwrap().push((k, r));
                    }
                }),
                Box::new(move || {
                    *s2.lock().unwrap() = Some(block_on(call(&r2, "GET", &with("s0", Some(&last)), "")));
                    if then_post {
                        let r = block_on(call(&r2, "POST", &with("s0", None), &body(B::Call, 110)));
                        p2.lock().unwrap().push((110, r));
                    }
                }),
            ],
        );
        vm::leave_clock();
        if !ended_well(&mut o, &end, &what) {
            return o;
        }
        rt.block_on(async {
            let Some(mut r) = stream.lock().unwrap().take().filter(|r| r.status == StatusCode::OK) else {
                o.fail("http-reopen", what.clone());
                return;
            };
            let n = |e: &Ev| e.data["id"].as_u64().unwrap_or(0) as usize;
            let got: Vec<usize> = drain(&mut r.body).0.iter().map(n).collect();
            let mut own = vec![];
            for (k, r) in std::mem::take(&mut *posted.lock().unwrap()) {
                if r.status == StatusCode::OK {
                    own.extend(parse_events(&text(r.body).await).iter().map(n));
                } else if !got.contains(&k) {
                    o.fail("http-lost", format!("{what}: the answer to {k} ({}) is not on the stream: {got:?}", r.status));
                }
            }
            drop(r);
            let mut again = call(&h.router, "GET", &with("s0", Some(&ids[from])), "").await.body;
            let log: Vec<usize> = drain(&mut again).0.iter().map(n).collect();
            o.observed = format!("{got:?} {own:?} {log:?}");
            // up to its last event the stream has the log, but for answers that came by themselves
            let seen = got.last().map_or(0, |l| log.iter().position(|k| k == l).map_or(usize::MAX, |p| p + 1));
            let want: Vec<usize> = log.iter().take(seen).filter(|k| got.contains(k) || !own.contains(k)).copied().collect();
            let missed = log.iter().filter(|k| !got.contains(k) && !own.contains(k)).count();
            if got != want || missed > 0 || log.len() != 1 - from + posts + usize::from(then_post) {
                o.fail("http-resume-race", format!("{what}: the stream brought {got:?}, the requests {own:?}; the log says {log:?}"));
            }
        });
        o
    });
}

/// A client that was away for long: everything it missed is brought, however much.
fn c19_http_backlog(ctx: &Ctx) {
    let sizes = [1usize, 2, 16, 17, 33, 100, 101, 257].into_iter().chain(ctx.by(vec![], vec![1025, 4097]));
    let cases: Vec<(usize, usize, usize)> = sizes.flat_map(|n| (0..4usize).flat_map(move |from| (0..3usize).map(move |others| (n, from, others)))).collect();
    for_all(ctx, "long backlogs", cases, |&(n, from, others)| {
        let mut o = Outcome { transitions: n as u64, ..Default::default() };
        rt().block_on(async {
            let h = serve(Mode::Sse, true).await;
            for k in 0..2 {
                call(&h.router, "POST", &GOOD, &body(B::Init(NEW), k)).await;
            }
            let (s0, s1) = (sname(0), sname(1));
            let mut ids = vec![];
            for k in 0..n {
                let r = call(&h.router, "POST", &with(&s0, None), &body(B::Call, 100 + k)).await;
                ids.extend(parse_events(&text(r.body).await).into_iter().map(|e| e.id));
                // another session is busy too
                for j in 0..others {
                    call(&h.router, "POST", &with(&s1, None), &body(B::Call, 10_000 + 2 * k + j)).await;
                }
            }
            if ids.len() != n {
                o.fail("setup", format!("{} of {n} events", ids.len()));
                return;
            }
            let p = [0, n / 2, n.saturating_sub(2), n - 1][from];
            let mut b = call(&h.router, "GET", &with(&s0, Some(&ids[p])), "").await.body;
            let mut got: Vec<(u64, String)> = vec![];
            loop {
                // (a task is let read so much at a time)
                let e = drain(&mut b).0;
                if e.is_empty() {
                    break;
                }
                got.extend(e.into_iter().map(|e| (e.data["id"].as_u64().unwrap_or(0), e.id)));
                tokio::task::yield_now().await;
            }
            let want: Vec<(u64, String)> = (p + 1..n).map(|k| (100 + k as u64, ids[k].clone())).collect();
            if got != want {
                let at = got.iter().zip(&want).position(|(a, b)| a != b);
                o.fail("http-replay", format!("{n} events, {others} of another session to each, resumed after number {p}: {} came, {} missed, first differing {at:?}", got.len(), want.len()));
            }
            o.observed = format!("{n} {p}");
        });
        o
    });
}

// ------------------------------------------------------------------ C19 over HTTP

/// Posts, streams opened (optionally from a known event), dropped connections.
pub fn c19_http(ctx: &Ctx) {
    c19_http_backlog(ctx);
    #[derive(Clone, Copy, Debug)]
    enum E {
        Post(usize),
        Open(usize, Option<i32>),
        Hang(usize),
    }
    let ops = [E::Post(0), E::Post(1), E::Open(0, None), E::Open(0, Some(-1)), E::Open(0, Some(-2)), E::Open(0, Some(1)), E::Open(1, Some(-1)), E::Open(1, Some(-3)), E::Open(0, Some(-9)), E::Hang(0), E::Hang(1)];
    let depth = ctx.by(5, 6);
    for_all(ctx, &format!("two sessions: posts, broken and resumed streams, length {depth}"), sequences(ops.len(), depth), |s| {
        let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
        rt().block_on(async {
            let h = serve(Mode::Sse, true).await;
            let hd: [(&str, &[u8]); 2] = [("content-type", b"application/json"), ("accept", b"application/json, text/event-stream")];
            // (the init answers are events too; their ids are never seen by the client)
            for k in 0..2 {
                let r = call(&h.router, "POST", &hd, &body(B::Init(NEW), k)).await;
                if r.header("mcp-session-id") != Some(sname(k)) {
                    o.fail("setup", format!("{:?}", r.status));
                    return;
                }
            }
            // per session: message ids in order; and event id by message
            let mut log: [Vec<usize>; 2] = [vec![], vec![]];
            let mut ids: BTreeMap<usize, String> = BTreeMap::new();
            let mut open: [Option<Body>; 2] = [None, None];
            for (step, &i) in s.iter().enumerate() {
                let at = format!("after {:?}", s[..=step].iter().map(|&i| ops[i]).collect::<Vec<_>>());
                let msg = 100 + step;
                match ops[i] {
                    E::Hang(k) => {
                        open[k] = None;
                        settle().await;
                    },
                    E::Post(k) => {
                        let sid = sname(k);
                        let mut hs = hd.to_vec();
                        hs.push(("mcp-session-id", sid.as_bytes()));
                        let r = call(&h.router, "POST", &hs, &body(B::Call, msg)).await;
                        log[k].push(msg);
                        let evs = if r.status == StatusCode::ACCEPTED {
                            match &mut open[k] {
                                Some(b) => drain(b).0,
                                None => vec![],
                            }
                        } else {
                            parse_events(&text(r.body).await)
                        };
                        if evs.len() != 1 || evs[0].data["id"] != json!(msg) || evs[0].id.is_empty() {
                            o.fail("http-answer", format!("{at}: {evs:?}"));
                            return;
                        }
                        ids.insert(msg, evs[0].id.clone());
                    },
                    E::Open(k, last) => {
                        if open[k].is_some() {
                            continue;
                        }
                        let sid = sname(k);
                        let mut hs = hd.to_vec();
                        hs.push(("mcp-session-id", sid.as_bytes()));
                        // -n: the n-th last event of the own session; 1: the other session's first; -9: unknown
                        let (from, after): (Option<String>, Option<usize>) = match last {
                            None => (None, None),
                            Some(-9) => (Some("never-stored".into()), None),
                            Some(1) => match log[1 - k].first() {
                                Some(m) => (Some(ids[m].clone()), None),
                                None => continue,
                            },
                            Some(n) => {
                                let n = (-n) as usize;
                                if log[k].len() < n {
                                    continue;
                                }
                                let p = log[k].len() - n;
                                (Some(ids[&log[k][p]].clone()), Some(p + 1))
                            },
                        };
                        if let Some(f) = &from {
                            hs.push(("Last-Event-ID", f.as_bytes()));
                        }
                        let r = call(&h.router, "GET", &hs, "").await;
                        if r.status != StatusCode::OK {
                            o.fail("http-reopen", format!("{at}: status {}", r.status));
                            return;
                        }
                        let mut b = r.body;
                        let (evs, ended) = drain(&mut b);
                        let got: Vec<(usize, String)> = evs.iter().map(|e| (e.data["id"].as_u64().unwrap_or(0) as usize, e.id.clone())).collect();
                        let want: Vec<(usize, String)> = after.map_or(vec![], |p| log[k][p..].iter().map(|m| (*m, ids[m].clone())).collect());
                        if got != want || ended {
                            o.fail("http-replay", format!("{at}: replayed {got:?} (ended {ended}), expected {want:?}"));
                            return;
                        }
                        open[k] = Some(b);
                    },
                }
                for k in 0..2 {
                    if let Some(b) = &mut open[k] {
                        let (e, ended) = drain(b);
                        if !e.is_empty() || ended {
                            o.fail("http-stray", format!("{at}: stream {k} got {e:?} ended {ended}"));
                        }
                    }
                }
            }
            o.observed = format!("{log:?}");
        });
        o
    });
}
