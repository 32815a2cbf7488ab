//! C33 HTTP client transports, C35 OAuth clients: the real clients against a
//! scripted server on the loopback interface.
use super::util::*;
use crate::ctx::Ctx;
use crate::explore::*;
use async_trait::async_trait;
use pmcp::client::auth::{OidcDiscoveryClient, TokenExchangeClient};
use pmcp::shared::http::{HttpConfig, HttpTransport};
use pmcp::shared::streamable_http::{AuthProvider, SendOptions};
use pmcp::shared::{StdioTransport, StreamableHttpTransport, StreamableHttpTransportConfig, Transport, TransportMessage};
use pmcp::types::protocol::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

// ---------------------------------------------------------------- scripted server

/// What the server does with one request.
#[derive(Clone, Debug, Default)]
pub struct Answer {
    status: u16,
    headers: Vec<(&'static str, String)>,
    /// parts of the body; each is a chunk of its own
    body: Vec<Vec<u8>>,
    chunked: bool,
    /// close the connection instead of answering
    dropped: bool,
    /// leave the body unfinished and the connection open
    open: bool,
    /// never answer
    silent: bool,
    /// after the body, go on with what the script sends (see `Script::live`)
    live: bool,
}
impl Answer {
    fn new(status: u16, ct: &str, body: impl Into<Vec<u8>>) -> Self {
        let headers = if ct.is_empty() { vec![] } else { vec![("content-type", ct.to_string())] };
        Answer { status, headers, body: vec![body.into()], ..Default::default() }
    }
    fn with(mut self, k: &'static str, v: &str) -> Self {
        self.headers.push((k, v.to_string()));
        self
    }
    fn dropped() -> Self {
        Answer { dropped: true, ..Default::default() }
    }
}

#[derive(Clone, Debug)]
pub struct Asked {
    method: String,
    path: String,
    headers: BTreeMap<String, String>,
    body: Vec<u8>,
}

#[derive(Clone, Default)]
struct Script {
    answers: Arc<Mutex<VecDeque<Answer>>>,
    asked: Log<Asked>,
    live: Arc<Mutex<Vec<Live>>>,
}

/// A stream that the script goes on writing to.
struct Live {
    send: tokio::sync::mpsc::UnboundedSender<Vec<u8>>,
    ended: tokio::sync::watch::Receiver<bool>,
}

async fn serve_connection(mut c: tokio::net::TcpStream, script: Script) {
    let _ = c.set_nodelay(true);
    let mut buf: Vec<u8> = vec![];
    let mut tmp = [0u8; 4096];
    loop {
        // read a request
        let head = loop {
            if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break i;
            }
            match c.read(&mut tmp).await {
                Ok(0) | Err(_) => return,
                Ok(n) => buf.extend_from_slice(&tmp[..n]),
            }
        };
        let text = String::from_utf8_lossy(&buf[..head]).into_owned();
        let mut lines = text.split("\r\n");
        let mut first = lines.next().unwrap_or("").split(' ');
        let (method, path) = (first.next().unwrap_or("").to_string(), first.next().unwrap_or("").to_string());
        let mut headers = BTreeMap::new();
        for l in lines {
            if let Some((k, v)) = l.split_once(':') {
                let e: &mut String = headers.entry(k.trim().to_ascii_lowercase()).or_default();
                if !e.is_empty() {
                    e.push_str(" && ");
                }
                e.push_str(v.trim());
            }
        }
        let len: usize = headers.get("content-length").and_then(|v: &String| v.parse().ok()).unwrap_or(0);
        while buf.len() < head + 4 + len {
            match c.read(&mut tmp).await {
                Ok(0) | Err(_) => return,
                Ok(n) => buf.extend_from_slice(&tmp[..n]),
            }
        }
        let body = buf[head + 4..head + 4 + len].to_vec();
        buf.drain(..head + 4 + len);
        script.asked.push(Asked { method, path, headers, body });
        let a = script.answers.lock().unwrap().pop_front().unwrap_or_else(|| Answer::new(599, "text/plain", "unexpected request"));
        if a.dropped {
            return;
        }
        if a.silent {
            let _ = c.read(&mut tmp).await;
            return;
        }
        let mut out = format!("HTTP/1.1 {} Status\r\n", a.status).into_bytes();
        for (k, v) in &a.headers {
            out.extend_from_slice(format!("{k}: {v}\r\n").as_bytes());
        }
        if a.chunked || a.open {
            out.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
            for p in a.body.iter().filter(|p| !p.is_empty()) {
                out.extend_from_slice(format!("{:x}\r\n", p.len()).as_bytes());
                out.extend_from_slice(p);
                out.extend_from_slice(b"\r\n");
            }
            if !a.open {
                out.extend_from_slice(b"0\r\n\r\n");
            }
        } else if a.status == 204 || a.status == 304 {
            out.extend_from_slice(b"\r\n");
        } else {
            let body = a.body.concat();
            out.extend_from_slice(format!("content-length: {}\r\n\r\n", body.len()).as_bytes());
            out.extend_from_slice(&body);
        }
        if c.write_all(&out).await.is_err() {
            return;
        }
        if a.live {
            let (send, mut recv) = tokio::sync::mpsc::unbounded_channel::<Vec<u8>>();
            let (end, ended) = tokio::sync::watch::channel(false);
            script.live.lock().unwrap().push(Live { send, ended });
            drop(script);
            loop {
                tokio::select! {
                    biased;
                    n = c.read(&mut tmp) => if matches!(n, Ok(0) | Err(_)) { break },
                    p = recv.recv() => {
                        let Some(p) = p else { return };
                        let mut out = format!("{:x}\r\n", p.len()).into_bytes();
                        out.extend_from_slice(&p);
                        out.extend_from_slice(b"\r\n");
                        if c.write_all(&out).await.is_err() {
                            break;
                        }
                    },
                }
            }
            let _ = end.send(true);
            return;
        }
    }
}

struct Bench {
    rt: tokio::runtime::Runtime,
    addr: std::net::SocketAddr,
    script: Arc<Mutex<Script>>,
    uses: usize,
}
thread_local! {
    static BENCH: RefCell<Option<Bench>> = const { RefCell::new(None) };
}

/// Run a case against this thread's scripted server.
fn with_server<R>(answers: Vec<Answer>, f: impl FnOnce(&tokio::runtime::Runtime, String, Script) -> R) -> R {
    BENCH.with(|b| {
        let mut b = b.borrow_mut();
        // A new port now and then, so that closed connections do not use them up
        if b.as_ref().is_some_and(|b| b.uses >= 1000) {
            *b = None;
        }
        let bench = b.get_or_insert_with(|| {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            let script: Arc<Mutex<Script>> = Arc::default();
            let s = script.clone();
            let addr = rt.block_on(async move {
                let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
                let addr = l.local_addr().unwrap();
                tokio::spawn(async move {
                    while let Ok((c, _)) = l.accept().await {
                        let script = s.lock().unwrap().clone();
                        tokio::spawn(serve_connection(c, script));
                    }
                });
                addr
            });
            Bench { rt, addr, script, uses: 0 }
        });
        bench.uses += 1;
        let script = Script { answers: Arc::new(Mutex::new(answers.into())), asked: Log::new(), live: Arc::default() };
        *bench.script.lock().unwrap() = script.clone();
        f(&bench.rt, format!("http://{}", bench.addr), script)
    })
}

const PATIENCE: Duration = Duration::from_secs(15);

/// A case is tried again when the loopback network itself got in the way (the
/// code under test then fails every time).
fn steady(f: impl Fn() -> Outcome) -> Outcome {
    let mut o = f();
    for _ in 0..3 {
        let network = |d: &str| ["(Canceled)", "(Connect)", "os error", "error sending request"].iter().any(|t| d.contains(t));
        if !o.fails.iter().any(|(_, d)| network(d)) {
            break;
        }
        o = f();
    }
    o
}

fn wire_all<T, I, F>(ctx: &Ctx, scenario: &str, cases: I, f: F)
where
    T: Send + std::fmt::Debug,
    I: IntoIterator<Item = T>,
    I::IntoIter: Send,
    F: Fn(&T) -> Outcome + Sync,
{
    for_all(ctx, scenario, cases, |c| steady(|| f(c)));
}

fn value(m: &TransportMessage) -> Value {
    StdioTransport::serialize_message(m).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null)
}

// ---------------------------------------------------------------- C33

/// An answer to a POST: the answer, the messages it holds (None: an error).
fn post_answer(k: usize, n: usize) -> (Answer, Option<Vec<Value>>) {
    let rsp = json!({"jsonrpc": "2.0", "id": n, "result": {"text": format!("é{n}\u{1F600}")}});
    let note = json!({"jsonrpc": "2.0", "method": "notifications/tools/list_changed"});
    let err = json!({"jsonrpc": "2.0", "id": format!("s{n}"), "error": {"code": -32000, "message": "no", "data": [1]}});
    let ev = |v: &Value| format!("data: {v}\n\n");
    let sse = |t: String| Answer { chunked: true, ..Answer::new(200, "text/event-stream", t) };
    match k {
        0 => (Answer::new(200, "application/json", rsp.to_string()), Some(vec![rsp])),
        1 => (Answer::new(200, "application/json; charset=utf-8", json!([rsp, err]).to_string()), Some(vec![rsp, err])),
        2 => (sse(ev(&rsp)), Some(vec![rsp])),
        3 => {
            // several events, with ids, another type, a comment, CRLF; split in every other byte
            let t = format!(": hi\r\nid: e{n}\r\nevent: message\r\n{}event: ping\ndata: {{\"jsonrpc\":\"2.0\",\"id\":99,\"result\":{{}}}}\n\nid: f{n}\nevent: message\n{}", ev(&note), ev(&rsp));
            let body = t.into_bytes().chunks(2).map(<[u8]>::to_vec).collect();
            (Answer { body, ..sse(String::new()) }, Some(vec![note, rsp]))
        },
        4 => (Answer::new(202, "", ""), Some(vec![])),
        5 => (Answer::new(202, "application/json", ""), Some(vec![])),
        6 => (Answer::new(404, "application/json", rsp.to_string()), None),
        7 => (Answer::new(500, "text/event-stream", ev(&rsp)), None),
        8 => (Answer::new(200, "text/plain", rsp.to_string()), None),
        9 => (Answer::new(200, "application/json", "{\"jsonrpc\":\"2.0\","), None),
        10 => (Answer::new(200, "application/json", rsp.to_string()).with("mcp-session-id", &format!("sess{n}")), Some(vec![rsp])),
        11 => (sse(format!("id: h{n}\n{}", ev(&rsp))).with("mcp-protocol-version", &format!("v{n}")).with("Mcp-Session-Id", "again"), Some(vec![rsp])),
        12 => (Answer::dropped(), None),
        13 => {
            let req = json!({"jsonrpc": "2.0", "id": n, "method": "roots/list"});
            (sse(format!("{}data: not json\n\ndata:\n\n{}id: g{n}\nevent: other\ndata: x\n\n", ev(&note), ev(&req))), Some(vec![note, req]))
        },
        // the stream stays open after the answer
        _ => (Answer { open: true, ..sse(ev(&err)) }, Some(vec![err])),
    }
}
const POSTS: usize = 15;

/// An answer to a GET (or to a POST's resumption): messages, or None for an error.
fn get_answer(k: usize, n: usize) -> (Answer, Option<Vec<Value>>) {
    let note = json!({"jsonrpc": "2.0", "method": "notifications/resources/updated", "params": {"uri": format!("u{n}é")}});
    let sse = |t: String| Answer { chunked: true, ..Answer::new(200, "text/event-stream", t) };
    match k {
        0 => (sse(format!("id: g{n}\ndata: {note}\n\n")), Some(vec![note])),
        1 => (Answer { open: true, ..sse(format!("data: {note}\n\nid: h{n}\ndata: {note}\n\n")) }, Some(vec![note.clone(), note])),
        2 => (Answer::new(405, "", ""), Some(vec![])),
        3 => (Answer::new(503, "text/event-stream", format!("data: {note}\n\n")), None),
        4 => (Answer::dropped(), None),
        _ => (sse(String::new()).with("mcp-session-id", &format!("gs{n}")), Some(vec![])),
    }
}
const GETS: usize = 6;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Step {
    Request(usize),
    Notify(usize),
    Get(usize),
    Resume(usize),
    /// answer to the DELETE: 200, 405, 500, dropped
    Close(usize),
}
fn steps() -> Vec<Step> {
    let mut v: Vec<Step> = (0..POSTS).map(Step::Request).collect();
    v.extend([0, 4, 5, 6].map(Step::Notify));
    v.extend((0..GETS).map(Step::Get));
    v.extend([0, 3].map(Step::Resume));
    v.extend((0..4).map(Step::Close));
    v
}

#[derive(Debug)]
struct Token(Mutex<usize>);
#[async_trait]
impl AuthProvider for Token {
    async fn get_access_token(&self) -> pmcp::Result<String> {
        let mut n = self.0.lock().unwrap();
        *n += 1;
        Ok(format!("token{n}"))
    }
}

async fn expect_messages(o: &mut Outcome, t: &mut impl Transport, want: &[Value], what: &str) -> bool {
    for (i, w) in want.iter().enumerate() {
        match tokio::time::timeout(PATIENCE, t.receive()).await {
            Err(_) => {
                o.fail("message-lost", format!("{what}: message {i} ({w}) was not handed over"));
                return false;
            },
            Ok(Err(e)) => {
                o.fail("message-lost", format!("{what}: receive failed: {e}"));
                return false;
            },
            Ok(Ok(m)) => {
                if !expect_eq(o, "message", format!("{what}: message {i}"), value(&m), w.clone()) {
                    return false;
                }
            },
        }
    }
    true
}

async fn expect_silence(o: &mut Outcome, t: &mut impl Transport, what: &str) {
    if let Ok(r) = tokio::time::timeout(Duration::from_millis(2), t.receive()).await {
        o.fail("extra-message", format!("{what}: one more message: {:?}", r.map(|m| value(&m))));
    }
}

fn streamable(plan: &[Step], first_session: Option<&str>, with_auth: bool) -> Outcome {
    let mut o = Outcome { transitions: plan.len() as u64, ..Default::default() };
    // the answers, in the order of the requests that will be made
    let mut answers = vec![];
    let mut session = first_session.map(String::from);
    let mut expected: Vec<(Step, Option<Vec<Value>>, usize)> = vec![];
    for (n, s) in plan.iter().enumerate() {
        let (a, m) = match *s {
            Step::Request(k) | Step::Notify(k) => post_answer(k, n),
            Step::Get(k) | Step::Resume(k) => get_answer(k, n),
            Step::Close(k) => (
                match k {
                    0 => Answer::new(200, "", ""),
                    1 => Answer::new(405, "", ""),
                    2 => Answer::new(500, "", ""),
                    _ => Answer::dropped(),
                },
                Some(vec![]),
            ),
        };
        expected.push((*s, m, n));
        let silent = matches!(s, Step::Close(_)) && session.is_none();
        if !silent {
            if !a.dropped {
                if let Some((_, v)) = a.headers.iter().rev().find(|(k, _)| k.eq_ignore_ascii_case("mcp-session-id")) {
                    session = Some(v.clone());
                }
            }
            answers.push(a);
        }
        if matches!(s, Step::Close(_)) {
            session = None;
        }
    }
    with_server(answers.clone(), |rt, url, script| {
        rt.block_on(async {
            let ids = Log::new();
            let ids2 = ids.clone();
            let config = StreamableHttpTransportConfig {
                url: url.parse().unwrap(),
                extra_headers: vec![("x-extra".into(), "one".into()), ("x-more".into(), "two".into())],
                auth_provider: if with_auth { Some(Arc::new(Token(Mutex::new(0)))) } else { None },
                session_id: first_session.map(Into::into),
                enable_json_response: false,
                on_resumption_token: Some(Arc::new(move |id| ids2.push(id))),
            };
            let mut t = StreamableHttpTransport::new(config);
            let mut session = first_session.map(String::from);
            let mut version: Option<String> = None;
            let mut last: Option<String> = None;
            let (mut asked, mut tokens) = (0, 0);
            for (step, messages, n) in expected {
                let what = format!("step {n} of {plan:?}");
                let message = match step {
                    Step::Notify(_) => TransportMessage::Notification(pmcp::types::Notification::Client(ClientNotification::RootsListChanged)),
                    _ => StdioTransport::parse_message(json!({"jsonrpc": "2.0", "id": n, "method": "tools/call", "params": {"name": format!("é{n}"), "arguments": {}}}).to_string().as_bytes()).unwrap(),
                };
                let wire = value(&message);
                let (r, method, body, resume): (pmcp::Result<()>, &str, Option<Value>, Option<String>) = match step {
                    Step::Request(_) | Step::Notify(_) => (t.send(message).await, "POST", Some(wire), None),
                    Step::Get(_) => (t.start_sse(None).await, "GET", None, None),
                    Step::Resume(_) => {
                        let id = format!("tok{n}");
                        (t.send_with_options(message, SendOptions { related_request_id: None, resumption_token: Some(id.clone()) }).await, "GET", None, Some(id))
                    },
                    Step::Close(_) => (t.close().await, "DELETE", None, None),
                };
                expect_eq(&mut o, "result", format!("{what}: result {r:?}: success"), r.is_ok(), messages.is_some());
                let silent = matches!(step, Step::Close(_)) && session.is_none();
                if !silent {
                    let all = script.asked.get();
                    let Some(q) = all.get(asked) else {
                        o.fail("not-asked", format!("{what}: the server was not asked"));
                        return;
                    };
                    asked += 1;
                    expect_eq(&mut o, "method", format!("{what}: method"), q.method.as_str(), method);
                    let h = |k: &str| q.headers.get(k).cloned();
                    expect_eq(&mut o, "session-header", format!("{what}: session header"), h("mcp-session-id"), session.clone());
                    expect_eq(&mut o, "version-header", format!("{what}: protocol version header"), h("mcp-protocol-version"), version.clone());
                    expect_eq(&mut o, "extra-headers", format!("{what}: configured headers"), (h("x-extra"), h("x-more")), (Some("one".into()), Some("two".into())));
                    if with_auth {
                        tokens += 1;
                        expect_eq(&mut o, "auth-header", format!("{what}: authorization"), h("authorization"), Some(format!("Bearer token{tokens}")));
                    } else {
                        expect_eq(&mut o, "auth-header", format!("{what}: authorization"), h("authorization"), None);
                    }
                    expect_eq(&mut o, "resume-header", format!("{what}: last event header"), h("last-event-id"), resume);
                    match method {
                        "POST" => {
                            expect_eq(&mut o, "content-type", format!("{what}: content type"), h("content-type").is_some_and(|c| c.starts_with("application/json")), true);
                            let acc = h("accept").unwrap_or_default();
                            expect_eq(&mut o, "accept", format!("{what}: accepts {acc:?}"), acc.contains("application/json") && acc.contains("text/event-stream"), true);
                            expect_eq(&mut o, "body", format!("{what}: body"), serde_json::from_slice::<Value>(&q.body).ok(), body);
                        },
                        "GET" => {
                            let acc = h("accept").unwrap_or_default();
                            expect_eq(&mut o, "accept", format!("{what}: accepts {acc:?}"), acc.contains("text/event-stream"), true);
                        },
                        _ => {},
                    }
                    let a = &answers[asked - 1];
                    if !a.dropped {
                        for (k, v) in &a.headers {
                            match k.to_ascii_lowercase().as_str() {
                                "mcp-session-id" => session = Some(v.clone()),
                                "mcp-protocol-version" => version = Some(v.clone()),
                                _ => {},
                            }
                        }
                        if a.status == 200 {
                            let text = String::from_utf8_lossy(&a.body.concat()).into_owned();
                            if let Some(id) = text.lines().filter_map(|l| l.strip_prefix("id: ")).last() {
                                last = Some(id.trim().to_string());
                            }
                        }
                    }
                }
                if matches!(step, Step::Close(_)) {
                    session = None;
                }
                expect_eq(&mut o, "session", format!("{what}: session"), t.session_id(), session.clone());
                expect_eq(&mut o, "version", format!("{what}: version"), t.protocol_version(), version.clone());
                if !o.fails.is_empty() || !expect_messages(&mut o, &mut t, &messages.unwrap_or_default(), &what).await {
                    return;
                }
            }
            expect_silence(&mut o, &mut t, &format!("after {plan:?}")).await;
            expect_eq(&mut o, "requests", format!("after {plan:?}: requests"), script.asked.len(), asked);
            // every id announced was announced by the server; the last one is remembered
            expect_eq(&mut o, "last-event", format!("after {plan:?}: last event"), t.last_event_id(), last.clone());
            expect_eq(&mut o, "last-event", format!("after {plan:?}: last announced event"), ids.get().last().cloned(), last);
        });
    });
    o
}

/// Streams that live on while others are opened and closed.
fn live_streams(ctx: &Ctx) {
    // 0 GET stream, 1 POST answered by a stream, 2 close, 3.. the server writes
    // to the last, the one before, ... stream it has been asked for
    let note = |n: usize, i: usize| json!({"jsonrpc": "2.0", "method": "notifications/resources/updated", "params": {"uri": format!("step {n}, stream {i}")}});
    wire_all(ctx, "streamable HTTP: streams that stay open", sequences_upto(6, ctx.by(5, 6)), |s| {
        let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
        // (writes to streams that do not exist add nothing)
        let mut opened = 0;
        for &a in s {
            match a {
                0 | 1 => opened += 1,
                2 => {},
                _ if a - 3 >= opened => return o,
                _ => {},
            }
        }
        let answer = Answer { open: true, live: true, ..Answer::new(200, "text/event-stream", "") };
        with_server(vec![answer; opened], |rt, url, script| {
            rt.block_on(async {
                let mut t = StreamableHttpTransport::new(StreamableHttpTransportConfig {
                    url: url.parse().unwrap(),
                    extra_headers: vec![],
                    auth_provider: None,
                    session_id: None,
                    enable_json_response: false,
                    on_resumption_token: None,
                });
                let mut alive: Vec<bool> = vec![];
                let mut get: Option<usize> = None;
                for (n, &a) in s.iter().enumerate() {
                    let what = format!("step {n} of {s:?}");
                    if a <= 1 {
                        let r = if a == 0 {
                            t.start_sse(None).await
                        } else {
                            t.send(StdioTransport::parse_message(json!({"jsonrpc": "2.0", "id": n, "method": "ping"}).to_string().as_bytes()).unwrap()).await
                        };
                        expect_eq(&mut o, "result", format!("{what}: result {r:?}: success"), r.is_ok(), true);
                        // (the server registers the stream after its answer)
                        let t0 = std::time::Instant::now();
                        while script.live.lock().unwrap().len() <= alive.len() && t0.elapsed() < PATIENCE {
                            tokio::task::yield_now().await;
                        }
                        if a == 0 {
                            if let Some(old) = get.replace(alive.len()) {
                                alive[old] = false;
                            }
                        }
                        alive.push(true);
                    } else if a == 2 {
                        let r = t.close().await;
                        expect_eq(&mut o, "result", format!("{what}: result {r:?}: success"), r.is_ok(), true);
                        if let Some(old) = get.take() {
                            alive[old] = false;
                        }
                    } else {
                        let i = alive.len() - 1 - (a - 3);
                        let m = note(n, i);
                        if alive[i] {
                            let _ = script.live.lock().unwrap()[i].send.send(format!("data: {m}\n\n").into_bytes());
                            if !expect_messages(&mut o, &mut t, &[m], &what).await {
                                return;
                            }
                        } else {
                            // a stream that was replaced or closed is over
                            let mut ended = script.live.lock().unwrap()[i].ended.clone();
                            if tokio::time::timeout(Duration::from_secs(3), ended.wait_for(|e| *e)).await.is_err() {
                                o.fail("stream-kept", format!("{what}: stream {i}, replaced or closed before, is still read"));
                                return;
                            }
                        }
                    }
                    if !o.fails.is_empty() {
                        return;
                    }
                }
                expect_silence(&mut o, &mut t, &format!("after {s:?}")).await;
                expect_eq(&mut o, "requests", format!("after {s:?}: requests"), script.asked.len(), opened);
            });
        });
        o
    });
}

fn plain_http(ctx: &Ctx) {
    let note = |n: usize| json!({"jsonrpc": "2.0", "method": "notifications/resources/updated", "params": {"uri": format!("u{n}é\u{1F600}")}});
    // ---- request/response
    let answers = 9;
    wire_all(ctx, "HTTP transport: answers", sequences_upto(answers, ctx.by(2, 3)), |s| {
        let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
        let make = |k: usize, n: usize| {
            let rsp = json!({"jsonrpc": "2.0", "id": n, "result": {"v": "é"}});
            match k {
                0 => (Answer::new(200, "application/json", rsp.to_string()), Some(vec![rsp])),
                1 => (Answer { chunked: true, body: rsp.to_string().into_bytes().chunks(1).map(<[u8]>::to_vec).collect(), ..Answer::new(200, "", "") }, Some(vec![rsp])),
                2 => (Answer::new(202, "", ""), Some(vec![])),
                3 => (Answer::new(204, "", ""), Some(vec![])),
                4 => (Answer::new(500, "application/json", rsp.to_string()), None),
                5 => (Answer::new(200, "application/json", "{\"jsonrpc\""), None),
                6 => (Answer::dropped(), None),
                7 => (Answer::new(401, "", ""), None),
                _ => (Answer::new(200, "application/json", note(n).to_string()), Some(vec![note(n)])),
            }
        };
        let plan: Vec<_> = s.iter().enumerate().map(|(n, &k)| make(k, n)).collect();
        with_server(plan.iter().map(|p| p.0.clone()).collect(), |rt, url, script| {
            rt.block_on(async {
                let mut t = HttpTransport::new(HttpConfig { base_url: url.parse().unwrap(), headers: vec![("x-a".into(), "1".into()), ("authorization".into(), "Bearer z".into())], ..Default::default() });
                for (n, (_, messages)) in plan.iter().enumerate() {
                    let what = format!("step {n} of {s:?}");
                    let m = StdioTransport::parse_message(json!({"jsonrpc": "2.0", "id": n, "method": "tools/call", "params": {"name": "é", "arguments": {}}}).to_string().as_bytes()).unwrap();
                    let wire = value(&m);
                    let r = t.send(m).await;
                    expect_eq(&mut o, "http-result", format!("{what}: result {r:?}: success"), r.is_ok(), messages.is_some());
                    let all = script.asked.get();
                    if let Some(q) = all.get(n) {
                        expect_eq(&mut o, "http-request", format!("{what}: request"), (q.method.as_str(), q.headers.get("x-a").map(String::as_str), q.headers.get("authorization").map(String::as_str)), ("POST", Some("1"), Some("Bearer z")));
                        expect_eq(&mut o, "http-body", format!("{what}: body"), serde_json::from_slice::<Value>(&q.body).ok(), Some(wire));
                    }
                    expect_eq(&mut o, "http-requests", format!("{what}: requests"), all.len(), n + 1);
                    if !o.fails.is_empty() || !expect_messages(&mut o, &mut t, messages.as_deref().unwrap_or(&[]), &what).await {
                        return;
                    }
                }
                expect_silence(&mut o, &mut t, &format!("after {s:?}")).await;
            });
        });
        o
    });
    // ---- event stream, cut anywhere
    let text = format!(": c\r\nid: 1\r\ndata: {}\r\n\r\nevent: message\ndata: {}\n\ndata: garbage\n\ndata: {}\n\n", note(1), note(2), note(3));
    let bytes = text.into_bytes();
    let n = bytes.len();
    let mut cuts: Vec<(usize, usize)> = (0..=n).map(|i| (i, n)).collect();
    // two cuts: everywhere (thorough), or around the characters of several bytes
    let hot: Vec<usize> = (1..n).filter(|&i| ctx.thorough() || bytes[i] >= 0x80 || bytes[i - 1] >= 0x80 || bytes[i] == b'\n').collect();
    for (a, &i) in hot.iter().enumerate() {
        for &j in &hot[a + 1..] {
            cuts.push((i, j));
        }
    }
    cuts.push((usize::MAX, 0));
    wire_all(ctx, "HTTP transport: event stream in every chunking of two cuts", cuts, |&(i, j)| {
        let mut o = Outcome { transitions: 3, ..Default::default() };
        let body: Vec<Vec<u8>> = if i == usize::MAX { bytes.iter().map(|b| vec![*b]).collect() } else { vec![bytes[..i].to_vec(), bytes[i..j].to_vec(), bytes[j..].to_vec()] };
        let a = Answer { open: true, body, ..Answer::new(200, "text/event-stream", "") };
        with_server(vec![a], |rt, url, script| {
            rt.block_on(async {
                let mut t = HttpTransport::new(HttpConfig { base_url: url.parse().unwrap(), headers: vec![("x-a".into(), "1".into())], ..Default::default() });
                let r = t.connect_sse().await;
                expect_eq(&mut o, "http-result", format!("connecting: {r:?}: success"), r.is_ok(), true);
                if let Some(q) = script.asked.get().first() {
                    expect_eq(&mut o, "http-request", "stream request", (q.method.as_str(), q.path.as_str(), q.headers.get("x-a").map(String::as_str)), ("GET", "/events", Some("1")));
                }
                if o.fails.is_empty() && expect_messages(&mut o, &mut t, &[note(1), note(2), note(3)], &format!("cut at {i} and {j}")).await {
                    expect_silence(&mut o, &mut t, &format!("cut at {i} and {j}")).await;
                }
            });
        });
        o
    });
    wire_all(ctx, "HTTP transport: stream refused", [404u16, 500, 204, 405].into_iter(), |&status| {
        let mut o = Outcome { transitions: 1, ..Default::default() };
        with_server(vec![Answer::new(status, "text/event-stream", "")], |rt, url, _| {
            rt.block_on(async {
                let t = HttpTransport::new(HttpConfig { base_url: url.parse().unwrap(), ..Default::default() });
                let r = t.connect_sse().await;
                expect_eq(&mut o, "http-result", format!("status {status}: {r:?}: error"), r.is_err(), true);
                expect_eq(&mut o, "http-connected", "connected", t.is_connected(), false);
            });
        });
        o
    });
    wire_all(ctx, "HTTP transport: no answer in time", 0..1usize, |_| {
        let mut o = Outcome { transitions: 1, ..Default::default() };
        with_server(vec![Answer { silent: true, ..Default::default() }], |rt, url, _| {
            rt.block_on(async {
                let mut t = HttpTransport::new(HttpConfig { base_url: url.parse().unwrap(), timeout: Duration::from_millis(50), ..Default::default() });
                let m = StdioTransport::parse_message(br#"{"jsonrpc":"2.0","id":1,"method":"ping"}"#).unwrap();
                match tokio::time::timeout(PATIENCE, t.send(m)).await {
                    Ok(Err(pmcp::Error::Timeout(_))) => {},
                    r => o.fail("http-timeout", format!("no answer within the timeout gave {r:?}")),
                }
            });
        });
        o
    });
}

pub fn c33(ctx: &Ctx) {
    let all = steps();
    let firsts = [(None, false), (Some("given"), true)];
    let cases = |len: usize, all: &[Step]| -> Vec<(Vec<Step>, usize)> { sequences(all.len(), len).flat_map(|s| (0..2).map(move |f| (s.clone(), f)).collect::<Vec<_>>()).map(|(s, f)| (s.into_iter().map(|i| all[i]).collect(), f)).collect() };
    for len in 1..=2 {
        wire_all(ctx, &format!("streamable transport: every {len} steps"), cases(len, &all), |(s, f)| streamable(s, firsts[*f].0, firsts[*f].1));
    }
    if ctx.thorough() {
        wire_all(ctx, "streamable transport: every 3 steps", cases(3, &all), |(s, f)| streamable(s, firsts[*f].0, firsts[*f].1));
    } else {
        let few = [Step::Request(0), Step::Request(3), Step::Request(6), Step::Request(10), Step::Request(11), Step::Notify(4), Step::Get(1), Step::Close(0)];
        wire_all(ctx, "streamable transport: 3 of the main steps", cases(3, &few), |(s, f)| streamable(s, firsts[*f].0, firsts[*f].1));
    }
    live_streams(ctx);
    plain_http(ctx);
    end_to_end(ctx);
    ctx.assume("The kernel's loopback TCP and reqwest/hyper below the transports are trusted; their timing is not explored. Answers are fully buffered before the next step is taken.");
}

// ---------------------------------------------------------------- C33, end to end

struct Echo;
#[async_trait]
impl pmcp::server::ToolHandler for Echo {
    async fn handle(&self, args: Value, _e: pmcp::RequestHandlerExtra) -> pmcp::Result<Value> {
        if args["slow"] == json!(true) {
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        if args["fail"] == json!(true) {
            return Err(pmcp::Error::internal(format!("refused {}", args["n"])));
        }
        Ok(json!(format!("é{}", args["n"])))
    }
}
struct Res;
#[async_trait]
impl pmcp::server::ResourceHandler for Res {
    async fn read(&self, uri: &str, _e: pmcp::RequestHandlerExtra) -> pmcp::Result<ReadResourceResult> {
        Ok(ReadResourceResult { contents: vec![pmcp::types::Content::Text { text: format!("read {uri}") }] })
    }
    async fn list(&self, c: Option<String>, _e: pmcp::RequestHandlerExtra) -> pmcp::Result<ListResourcesResult> {
        Ok(serde_json::from_value(json!({"resources": [{"uri": "u", "name": format!("after {c:?}")}]})).unwrap())
    }
}

const CALLS: [&str; 8] = ["tool", "failing tool", "unknown tool", "tools", "read", "resources", "ping", "two at once"];

fn end_to_end(ctx: &Ctx) {
    use pmcp::server::streamable_http_server::{StreamableHttpServer, StreamableHttpServerConfig};
    let modes = 4usize;
    let len = ctx.by(2, 3);
    let cases: Vec<(usize, Vec<usize>)> = (0..modes).flat_map(|m| sequences_upto(CALLS.len(), len).map(move |s| (m, s))).collect();
    wire_all(ctx, "end to end: every sequence of calls in every mode", cases, |(mode, s)| {
        let mut o = Outcome { transitions: s.len() as u64 + 1, ..Default::default() };
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async {
            let caps = pmcp::ServerCapabilities { tools: Some(Default::default()), resources: Some(Default::default()), ..Default::default() };
            let server = pmcp::Server::builder().name("s").version("1").capabilities(caps.clone()).tool("echo", Echo).resources(Res).build().unwrap();
            let n = std::sync::atomic::AtomicUsize::new(0);
            let config = StreamableHttpServerConfig {
                session_id_generator: if mode & 2 == 0 { None } else { Some(Box::new(move || format!("s{}", n.fetch_add(1, std::sync::atomic::Ordering::SeqCst)))) },
                enable_json_response: mode & 1 == 0,
                event_store: None,
                on_session_initialized: None,
                on_session_closed: None,
            };
            let srv = StreamableHttpServer::with_config("127.0.0.1:0".parse().unwrap(), Arc::new(tokio::sync::Mutex::new(server)), config);
            let (addr, task) = srv.start().await.expect("start");
            let _ = pmcp::server::mc_hook::take_routers();
            let t = StreamableHttpTransport::new(StreamableHttpTransportConfig {
                url: format!("http://{addr}").parse().unwrap(),
                extra_headers: vec![],
                auth_provider: None,
                session_id: None,
                enable_json_response: mode & 1 == 0,
                on_resumption_token: None,
            });
            let probe = t.clone();
            let mut c = pmcp::Client::new(t);
            let run = async {
                match c.initialize(pmcp::ClientCapabilities::default()).await {
                    Ok(r) => {
                        expect_eq(&mut o, "e2e-init", "server name", r.server_info.name.as_str(), "s");
                    },
                    Err(e) => {
                        o.fail("e2e-init", format!("mode {mode}: initialize failed: {e}"));
                        return;
                    },
                }
                expect_eq(&mut o, "e2e-session", format!("mode {mode}: session"), probe.session_id().is_some(), mode & 2 != 0);
                for (i, &k) in s.iter().enumerate() {
                    let what = format!("mode {mode}, call {i} of {:?}", s.iter().map(|&k| CALLS[k]).collect::<Vec<_>>());
                    let text = |r: pmcp::Result<CallToolResult>| match r {
                        Ok(v) => Ok(serde_json::to_value(v).unwrap()["content"][0]["text"].as_str().unwrap_or("?").to_string()),
                        Err(e) => Err(e.to_string()),
                    };
                    match k {
                        0 => {
                            let r = text(c.call_tool("echo".into(), json!({"n": i})).await);
                            expect_eq(&mut o, "e2e-call", &what, r.map(|t| t.contains(&format!("é{i}"))), Ok(true));
                        },
                        1 => {
                            let r = text(c.call_tool("echo".into(), json!({"n": i, "fail": true})).await);
                            if !matches!(&r, Err(e) if e.contains(&format!("refused {i}"))) {
                                o.fail("e2e-call", format!("{what}: {r:?} instead of the tool's error"));
                            }
                        },
                        2 => {
                            let r = text(c.call_tool(format!("none{i}"), json!({})).await);
                            if !matches!(&r, Err(e) if e.contains(&format!("none{i}"))) {
                                o.fail("e2e-call", format!("{what}: {r:?} instead of an error about the unknown tool"));
                            }
                        },
                        3 => {
                            let r = c.list_tools(None).await.map(|l| l.tools.iter().map(|t| t.name.clone()).collect::<Vec<_>>()).map_err(|e| e.to_string());
                            expect_eq(&mut o, "e2e-call", &what, r, Ok(vec!["echo".to_string()]));
                        },
                        4 => {
                            let r = c.read_resource(format!("u{i}")).await.map(|r| json!(r).to_string().contains(&format!("read u{i}"))).map_err(|e| e.to_string());
                            expect_eq(&mut o, "e2e-call", &what, r, Ok(true));
                        },
                        5 => {
                            let r = c.list_resources(Some(format!("c{i}"))).await.map(|r| json!(r).to_string().contains(&format!("c{i}"))).map_err(|e| e.to_string());
                            expect_eq(&mut o, "e2e-call", &what, r, Ok(true));
                        },
                        6 => {
                            let r = c.ping().await.map_err(|e| e.to_string());
                            expect_eq(&mut o, "e2e-call", &what, r, Ok(()));
                        },
                        _ => {
                            let (a, b) = tokio::join!(c.call_tool("echo".into(), json!({"n": 10 + i, "slow": true})), c.call_tool("echo".into(), json!({"n": 20 + i})));
                            let (a, b) = (text(a), text(b));
                            expect_eq(&mut o, "e2e-call", format!("{what}: slow"), a.map(|t| t.contains(&format!("é{}", 10 + i))), Ok(true));
                            expect_eq(&mut o, "e2e-call", format!("{what}: quick"), b.map(|t| t.contains(&format!("é{}", 20 + i))), Ok(true));
                        },
                    }
                    if !o.fails.is_empty() {
                        return;
                    }
                }
            };
            if tokio::time::timeout(PATIENCE, run).await.is_err() {
                o.fail("e2e-stuck", format!("mode {mode}, calls {:?}: a call never returns", s.iter().map(|&k| CALLS[k]).collect::<Vec<_>>()));
            }
            task.abort();
        });
        o
    });
}

// ---------------------------------------------------------------- C35

fn metadata(n: usize, full: bool) -> Value {
    let mut v = json!({
        "issuer": format!("http://issuer/{n}"), "authorization_endpoint": "http://a", "token_endpoint": "http://t",
        "response_types_supported": ["code"], "grant_types_supported": ["authorization_code", "refresh_token"],
        "scopes_supported": ["openid", "é"], "token_endpoint_auth_methods_supported": ["client_secret_basic"],
        "code_challenge_methods_supported": ["S256"],
    });
    if full {
        for k in ["jwks_uri", "userinfo_endpoint", "registration_endpoint", "revocation_endpoint", "introspection_endpoint"] {
            v[k] = json!(format!("http://{k}"));
        }
    }
    v
}

/// discovery answers; what they are: Some(metadata) good, None bad; may it be retried?
fn discovery_answer(k: usize, n: usize) -> (Answer, Option<Value>, bool) {
    let good = |full| (Answer::new(200, "application/json", metadata(n, full).to_string()), Some(metadata(n, full)), false);
    match k {
        0 => good(true),
        1 => good(false),
        2 => (Answer::dropped(), None, true),
        3 => (Answer::new(404, "application/json", metadata(n, true).to_string()), None, false),
        4 => (Answer::new(500, "text/plain", "network connection timeout"), None, true),
        5 => (Answer::new(503, "", ""), None, true),
        6 => (Answer::new(200, "application/json", "{\"issuer\": \"CORS network timeout connection\""), None, false),
        7 => (Answer::new(200, "application/json", "{\"issuer\": \"x\"}"), None, false),
        8 => (Answer::new(401, "application/json", "{}"), None, false),
        // the body breaks off
        _ => {
            let mut a = Answer::new(200, "application/json", "");
            a.headers.push(("x-cut", "1".into()));
            a.body = vec![];
            (a, None, false)
        },
    }
}

pub fn c35(ctx: &Ctx) {
    let kinds = 10;
    let cases: Vec<(usize, Vec<usize>, usize)> = (0..=ctx.by(4, 5)).flat_map(|max| sequences(kinds, max.max(1)).flat_map(move |s| (0..4).map(move |i| (max, s.clone(), i)))).collect();
    let issuers = ["", "/", "/tenant/network", "/t//"];
    wire_all(ctx, "discovery: every sequence of answers", cases, |(max, s, issuer)| {
        let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
        let plan: Vec<_> = s.iter().enumerate().map(|(n, &k)| discovery_answer(k, n)).collect();
        with_server(plan.iter().map(|p| p.0.clone()).collect(), |rt, url, script| {
            rt.block_on(async {
                let c = OidcDiscoveryClient::with_settings(*max, Duration::from_millis(1));
                let what = format!("at most {max} attempts, issuer {:?}, answers {s:?}", issuers[*issuer]);
                let Ok(r) = tokio::time::timeout(PATIENCE, c.discover(&format!("{url}{}", issuers[*issuer]))).await else {
                    o.fail("stuck", format!("{what}: discovery does not end"));
                    return;
                };
                let asked = script.asked.get();
                if asked.len() > *max {
                    o.fail("too-many-attempts", format!("{what}: {} attempts", asked.len()));
                    return;
                }
                for q in &asked {
                    let want = format!("{}/.well-known/openid-configuration", issuers[*issuer].trim_end_matches('/'));
                    expect_eq(&mut o, "address", format!("{what}: request"), (q.method.as_str(), q.path.clone()), ("GET", want));
                }
                if *max == 0 {
                    expect_eq(&mut o, "no-attempts", format!("{what}: error"), r.is_err(), true);
                    return;
                }
                if asked.is_empty() {
                    o.fail("no-attempts", format!("{what}: nothing was asked"));
                    return;
                }
                // all answers but the last were retried
                for (n, (_, m, may)) in plan.iter().enumerate().take(asked.len() - 1) {
                    if m.is_some() || !may {
                        o.fail("retried", format!("{what}: asked again after answer {n}"));
                    }
                }
                let n = asked.len() - 1;
                // a lost connection may succeed later
                if s[n] == 2 && asked.len() < *max {
                    o.fail("not-retried", format!("{what}: a lost connection was not tried again: {r:?}"));
                }
                match (&r, &plan[n].1) {
                    (Ok(got), Some(want)) => {
                        expect_eq(&mut o, "metadata", format!("{what}: metadata"), serde_json::to_value(got).unwrap_or_default(), want.clone());
                    },
                    (Err(_), None) => {},
                    (r, _) => o.fail("metadata", format!("{what}: {r:?} after {} requests", asked.len())),
                }
            });
        });
        o
    });

    // ---- token exchange
    let secrets = [None, Some("s3cret"), Some("a:b é")];
    let texts = ["plain", "a b&c=d+é%/", ""];
    let extras = [None, Some("ver ifier&x"), Some("")];
    let answers = 9usize;
    let total = 2 * secrets.len() * texts.len() * extras.len() * answers;
    wire_all(ctx, "token requests: every grant, field and answer", 0..total, |&i| {
        let mut i = i;
        let mut pick = |k: usize| {
            let r = i % k;
            i /= k;
            r
        };
        let (refresh, secret, text, extra, k) = (pick(2) == 1, secrets[pick(3)], texts[pick(3)], extras[pick(3)], pick(answers));
        let mut o = Outcome { transitions: 1, ..Default::default() };
        let full = json!({"access_token": "at", "token_type": "Bearer", "expires_in": 3600, "refresh_token": "rt", "scope": "a é"});
        let bare = json!({"access_token": "at", "token_type": "bearer"});
        let (a, want, told): (Answer, Option<Value>, &str) = match k {
            0 => (Answer::new(200, "application/json", full.to_string()), Some(full), ""),
            1 => (Answer::new(200, "application/json", bare.to_string()), Some(bare), ""),
            2 => (Answer::new(400, "application/json", "{\"error\":\"invalid_grant\"}"), None, "invalid_grant"),
            3 => (Answer::new(401, "text/plain", "who are you"), None, "who are you"),
            4 => (Answer::new(500, "", full.to_string()), None, ""),
            5 => (Answer::new(200, "application/json", "{\"access_token\":\"at\"}"), None, ""),
            6 => (Answer::new(200, "application/json", "access_token=at"), None, ""),
            7 => (Answer::dropped(), None, ""),
            _ => (Answer::new(201, "application/json", full.to_string()), Some(full), ""),
        };
        with_server(vec![a], |rt, url, script| {
            rt.block_on(async {
                let c = TokenExchangeClient::new();
                let what = format!("refresh {refresh}, secret {secret:?}, {text:?}, {extra:?}, answer {k}");
                let at = format!("{url}/oauth2/token?x=1");
                let r = if refresh {
                    tokio::time::timeout(PATIENCE, c.refresh_token(&at, text, "client é", secret, extra)).await
                } else {
                    tokio::time::timeout(PATIENCE, c.exchange_code(&at, text, "client é", secret, "http://r/?a=b&c", extra)).await
                };
                let Ok(r) = r else {
                    o.fail("stuck", format!("{what}: the request does not end"));
                    return;
                };
                let asked = script.asked.get();
                if !expect_eq(&mut o, "requests", format!("{what}: requests"), asked.len(), 1) {
                    return;
                }
                let q = &asked[0];
                expect_eq(&mut o, "request", format!("{what}: request"), (q.method.as_str(), q.path.as_str()), ("POST", "/oauth2/token?x=1"));
                let mut fields: Vec<(String, String)> = form(&q.body);
                fields.sort();
                let mut wanted: Vec<(String, String)> = if refresh {
                    vec![("grant_type".into(), "refresh_token".into()), ("refresh_token".into(), text.into()), ("client_id".into(), "client é".into())]
                } else {
                    vec![("grant_type".into(), "authorization_code".into()), ("code".into(), text.into()), ("client_id".into(), "client é".into()), ("redirect_uri".into(), "http://r/?a=b&c".into())]
                };
                if let Some(e) = extra {
                    wanted.push((if refresh { "scope" } else { "code_verifier" }.into(), e.into()));
                }
                wanted.sort();
                expect_eq(&mut o, "fields", format!("{what}: fields"), fields, wanted);
                use base64::Engine;
                let auth = secret.map(|s| format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(format!("client é:{s}"))));
                expect_eq(&mut o, "client-auth", format!("{what}: authorization"), q.headers.get("authorization").cloned(), auth);
                expect_eq(&mut o, "form", format!("{what}: content type"), q.headers.get("content-type").is_some_and(|c| c.starts_with("application/x-www-form-urlencoded")), true);
                match (&r, &want) {
                    (Ok(got), Some(want)) => {
                        expect_eq(&mut o, "token", format!("{what}: token"), serde_json::to_value(got).unwrap_or_default(), want.clone());
                    },
                    (Err(e), None) => {
                        if !e.to_string().contains(told) {
                            o.fail("token-error", format!("{what}: the error does not say what the server said: {e}"));
                        }
                    },
                    (r, _) => o.fail("token", format!("{what}: {r:?}")),
                }
            });
        });
        o
    });
    ctx.assume("Whether a server error (5xx) is retried is left open; a rejected or malformed answer is final, a lost connection is retried while attempts are left. Redirects are reqwest's.");
}

fn form(b: &[u8]) -> Vec<(String, String)> {
    let dec = |s: &str| {
        let b = s.as_bytes();
        let (mut out, mut i) = (vec![], 0);
        while i < b.len() {
            match b[i] {
                b'+' => out.push(b' '),
                b'%' => {
                    out.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap_or("0"), 16).unwrap_or(0));
                    i += 2;
                },
                c => out.push(c),
            }
            i += 1;
        }
        String::from_utf8_lossy(&out).into_owned()
    };
    String::from_utf8_lossy(b).split('&').filter(|p| !p.is_empty()).map(|p| p.split_once('=').map_or((dec(p), String::new()), |(k, v)| (dec(k), dec(v)))).collect()
}
