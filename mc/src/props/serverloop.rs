//! C01 request/response, C02 dispatch, C03 notifications, C08 batches:
//! the real connected server loop on a scripted transport.
use super::util::*;
use crate::aengine::*;
use crate::ctx::Ctx;
use crate::explore::*;
use async_trait::async_trait;
use pmcp::server::cancellation::RequestHandlerExtra;
use pmcp::shared::batch::{BatchRequest, BatchResponse};
use pmcp::shared::{StdioTransport, Transport, TransportMessage};
use pmcp::types::jsonrpc::{JSONRPCError, ResponsePayload};
use pmcp::types::protocol::*;
use pmcp::types::{JSONRPCRequest, JSONRPCResponse, RequestId};
use pmcp::utils::parallel_batch::{process_batch_parallel, process_batch_parallel_stateful, BatchProcessor, ParallelBatchConfig};
use pmcp::{ClientCapabilities, Server, ServerCapabilities};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

// ------------------------------------------------------------ scripted transport

pub enum In {
    Msg(Box<TransportMessage>),
    /// raw text as it would come over the wire
    Text(String),
    Fail,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Response(RequestId, Result<Value, (i32, String)>),
    Note(String),
    Other(String),
}

#[derive(Debug)]
pub struct Scripted {
    inbox: tokio::sync::mpsc::UnboundedReceiver<In>,
    out: Log<Out>,
    /// sends (by index) that fail
    fail_send: Option<usize>,
    sends: usize,
    slow: bool,
}
impl std::fmt::Debug for In {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("In")
    }
}
impl<T> std::fmt::Debug for Log<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Log")
    }
}

pub fn to_out(m: &TransportMessage) -> Out {
    match m {
        TransportMessage::Response(r) => Out::Response(
            r.id.clone(),
            match &r.payload {
                ResponsePayload::Result(v) => Ok(v.clone()),
                ResponsePayload::Error(e) => Err((e.code, e.message.clone())),
            },
        ),
        TransportMessage::Notification(n) => Out::Note(serde_json::to_string(n).unwrap_or_default()),
        other => Out::Other(format!("{other:?}")),
    }
}

#[async_trait]
impl Transport for Scripted {
    async fn send(&mut self, message: TransportMessage) -> pmcp::Result<()> {
        if self.slow {
            tokio::task::yield_now().await;
        }
        let k = self.sends;
        self.sends += 1;
        if self.fail_send == Some(k) {
            return Err(pmcp::Error::internal("send failed"));
        }
        self.out.push(to_out(&message));
        Ok(())
    }
    async fn receive(&mut self) -> pmcp::Result<TransportMessage> {
        match self.inbox.recv().await {
            Some(In::Msg(m)) => Ok(*m),
            Some(In::Text(t)) => StdioTransport::parse_message(t.as_bytes()),
            Some(In::Fail) | None => Err(pmcp::Error::internal("connection lost")),
        }
    }
    async fn close(&mut self) -> pmcp::Result<()> {
        Ok(())
    }
}

/// A running server: feed messages, read what it wrote.
pub struct Live {
    pub tx: tokio::sync::mpsc::UnboundedSender<In>,
    pub out: Log<Out>,
    pub server: Option<Arc<Server>>,
    run: tokio::task::JoinHandle<()>,
}
impl Drop for Live {
    fn drop(&mut self) {
        self.run.abort();
    }
}

pub async fn start(server: Server, fail_send: Option<usize>, slow: bool) -> Live {
    let (tx, inbox) = tokio::sync::mpsc::unbounded_channel();
    let out = Log::new();
    let t = Scripted { inbox, out: out.clone(), fail_send, sends: 0, slow };
    let _ = pmcp::server::mc_hook::take_running();
    let run = tokio::spawn(async move {
        let _ = server.run(t).await;
    });
    let mut handle = None;
    for _ in 0..50 {
        tokio::task::yield_now().await;
        if let Some(s) = pmcp::server::mc_hook::take_running().pop() {
            handle = Some(s);
            break;
        }
    }
    Live { tx, out, server: handle, run }
}

pub fn creq(r: ClientRequest) -> Request {
    Request::Client(Box::new(r))
}

// ------------------------------------------------------------ handlers

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub kind: &'static str,
    pub name: String,
    pub args: Value,
    pub id: String,
}

/// Behaves according to its arguments: {"do":"err"} fails, {"wait":ms} sleeps.
#[derive(Clone)]
struct H {
    name: String,
    calls: Log<Call>,
    done: Log<String>,
}
impl H {
    fn new(name: &str, calls: &Log<Call>, done: &Log<String>) -> H {
        H { name: name.into(), calls: calls.clone(), done: done.clone() }
    }
    async fn act(&self, kind: &'static str, args: Value, id: &str) -> pmcp::Result<()> {
        self.calls.push(Call { kind, name: self.name.clone(), args: args.clone(), id: id.to_string() });
        if let Some(ms) = args.get("wait").and_then(|v| v.as_u64().or_else(|| v.as_str().and_then(|s| s.parse().ok()))) {
            tokio::time::sleep(Duration::from_millis(ms)).await;
        }
        self.done.push(id.to_string());
        match refusal(&args) {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
}
/// How a handler given these arguments fails: {"do": "err"} or {"do": "err:<kind>"}.
fn refusal(args: &Value) -> Option<pmcp::Error> {
    use pmcp::error::{Error as E, ErrorCode, TransportError as T};
    let kind = ["do", "uri", "cursor", "system"].iter().filter_map(|k| args.get(k)?.as_str()).find_map(|v| v.strip_prefix("err"))?;
    let text = || "handler refused".to_string();
    let code = |c: i32| E::Protocol { code: ErrorCode::other(c), message: text(), data: Some(json!({"why": [c]})) };
    Some(match kind {
        ":timeout" => E::Timeout(1234),
        ":cancelled" => E::Cancelled,
        ":closed" => E::Transport(T::ConnectionClosed),
        ":io" => E::Transport(T::Io(text())),
        ":garbage" => E::Transport(T::InvalidMessage(text())),
        ":decode" => E::Transport(T::Deserialization(text())),
        ":json" => E::Serialization(serde_json::from_str::<Value>("{").unwrap_err()),
        ":auth" => E::Authentication(text()),
        ":caps" => E::UnsupportedCapability(text()),
        ":internal" => E::Internal(text()),
        ":notfound" => E::NotFound(text()),
        ":state" => E::InvalidState(text()),
        ":other" => E::Other(std::io::Error::other(text()).into()),
        ":parse" => code(-32700),
        ":request" => code(-32600),
        ":method" => code(-32601),
        ":params" => code(-32602),
        ":reqtimeout" => code(-32001),
        ":denied" => code(-32004),
        ":app" => code(42),
        _ => E::Validation(text()),
    })
}
const REFUSALS: [&str; 21] = [
    "err", "err:timeout", "err:cancelled", "err:closed", "err:io", "err:garbage", "err:decode", "err:json", "err:auth", "err:caps", "err:internal", "err:notfound", "err:state", "err:other", "err:parse", "err:request",
    "err:method", "err:params", "err:reqtimeout", "err:denied", "err:app",
];
const REFUSING: [&str; 5] = ["tool", "prompt", "read", "list", "sampling"];
/// A request whose handler fails in the given way.
fn refused(kind: &str, how: &str) -> Request {
    match kind {
        "tool" => call("t", json!({"do": how})),
        "prompt" => creq(ClientRequest::GetPrompt(GetPromptRequest { name: "p".into(), arguments: HashMap::from([("do".into(), how.into())]) })),
        "read" => creq(ClientRequest::ReadResource(ReadResourceRequest { uri: how.into() })),
        "list" => creq(ClientRequest::ListResources(ListResourcesRequest { cursor: Some(how.into()) })),
        _ => creq(ClientRequest::CreateMessage(CreateMessageParams {
            messages: vec![],
            model_preferences: None,
            system_prompt: Some(how.into()),
            include_context: IncludeContext::None,
            temperature: None,
            max_tokens: None,
            stop_sequences: None,
            metadata: None,
        })),
    }
}
fn tool_result(name: &str, args: &Value) -> Value {
    json!({"tool": name, "got": args})
}
#[async_trait]
impl pmcp::ToolHandler for H {
    async fn handle(&self, args: Value, extra: RequestHandlerExtra) -> pmcp::Result<Value> {
        self.act("tool", args.clone(), &extra.request_id).await?;
        Ok(tool_result(&self.name, &args))
    }
}
fn prompt_result(name: &str, args: &Value) -> pmcp::GetPromptResult {
    pmcp::GetPromptResult { description: Some(format!("{name} {}", args.as_object().map_or(0, |o| o.len()))), messages: vec![] }
}
#[async_trait]
impl pmcp::PromptHandler for H {
    async fn handle(&self, args: HashMap<String, String>, extra: RequestHandlerExtra) -> pmcp::Result<pmcp::GetPromptResult> {
        let v = json!(args.into_iter().collect::<std::collections::BTreeMap<_, _>>());
        self.act("prompt", v.clone(), &extra.request_id).await?;
        Ok(prompt_result(&self.name, &v))
    }
}
#[async_trait]
impl pmcp::ResourceHandler for H {
    async fn read(&self, uri: &str, extra: RequestHandlerExtra) -> pmcp::Result<pmcp::ReadResourceResult> {
        self.act("read", json!({"uri": uri, "do": if uri == "bad://" {"err"} else {"ok"}}), &extra.request_id).await?;
        Ok(pmcp::ReadResourceResult { contents: vec![pmcp::Content::Text { text: format!("read {uri}") }] })
    }
    async fn list(&self, cursor: Option<String>, extra: RequestHandlerExtra) -> pmcp::Result<pmcp::ListResourcesResult> {
        self.act("list", json!({"cursor": cursor}), &extra.request_id).await?;
        Ok(pmcp::ListResourcesResult {
            resources: vec![pmcp::ResourceInfo { uri: "u://1".into(), name: "one".into(), description: None, mime_type: None }],
            next_cursor: cursor.map(|c| format!("{c}+")),
        })
    }
}
#[async_trait]
impl pmcp::SamplingHandler for H {
    async fn create_message(&self, p: CreateMessageParams, extra: RequestHandlerExtra) -> pmcp::Result<CreateMessageResult> {
        self.act("sampling", json!({"n": p.messages.len(), "system": p.system_prompt}), &extra.request_id).await?;
        Ok(CreateMessageResult { content: pmcp::Content::Text { text: "made".into() }, model: "m".into(), usage: None, stop_reason: None })
    }
}

/// bits: 1 tool "t", 2 tool "tt", 4 prompt "p", 8 resources, 16 sampling, 32 capabilities set
fn build(cfg: usize, calls: &Log<Call>, done: &Log<String>) -> Server {
    let mut b = Server::builder().name(format!("srv{cfg}")).version("1.2.3");
    if cfg & 32 != 0 {
        b = b.capabilities(full_caps());
    }
    if cfg & 1 != 0 {
        b = b.tool("t", H::new("t", calls, done));
    }
    if cfg & 2 != 0 {
        b = b.tool("tt", H::new("tt", calls, done));
    }
    if cfg & 4 != 0 {
        b = b.prompt("p", H::new("p", calls, done));
    }
    if cfg & 8 != 0 {
        b = b.resources(H::new("r", calls, done));
    }
    if cfg & 16 != 0 {
        b = b.sampling(H::new("s", calls, done));
    }
    b.build().unwrap()
}

fn full_caps() -> ServerCapabilities {
    serde_json::from_value(json!({
        "tools": {"listChanged": true}, "prompts": {"listChanged": false}, "resources": {"subscribe": true, "listChanged": true},
        "logging": {}, "completions": {}, "experimental": {"x": {"y": [1, 2]}}
    }))
    .unwrap()
}

// ------------------------------------------------------------ C01

fn ids_for(k: usize) -> RequestId {
    match k {
        0 => RequestId::Number(1),
        1 => RequestId::String("1".into()),
        2 => RequestId::Number(0),
        3 => RequestId::String(String::new()),
        4 => RequestId::Number(i64::MIN),
        _ => RequestId::String(format!("id {k} \u{e9}\n")),
    }
}

fn call(name: &str, args: Value) -> Request {
    creq(ClientRequest::CallTool(CallToolRequest { name: name.into(), arguments: args }))
}

/// The incoming alphabet: None = not a request.
fn c01_msg(k: usize, id: &RequestId) -> (TransportMessage, bool) {
    let r = |request: Request| (TransportMessage::Request { id: id.clone(), request }, true);
    let n = |x: Notification| (TransportMessage::Notification(x), false);
    match k {
        0 => r(creq(ClientRequest::Ping)),
        1 => r(call("t", json!({"a": 1}))),
        2 => r(call("t", json!({"do": "err"}))),
        3 => r(call("t", json!({"wait": 50}))),
        4 => r(call("nope", json!({}))),
        5 => r(creq(ClientRequest::GetPrompt(GetPromptRequest { name: "p".into(), arguments: HashMap::from([("do".into(), "err".into())]) }))),
        6 => r(Request::Server(Box::new(ServerRequest::ListRoots))),
        7 => n(Notification::Client(ClientNotification::Initialized)),
        8 => n(Notification::Client(ClientNotification::Cancelled(CancelledNotification { request_id: id.clone(), reason: None }))),
        9 => (TransportMessage::Response(JSONRPCResponse::success(id.clone(), json!({"stray": 1}))), false),
        10 => r(creq(ClientRequest::ReadResource(ReadResourceRequest { uri: "bad://".into() }))),
        11 => r(creq(ClientRequest::Initialize(InitializeRequest {
            protocol_version: "2025-03-26".into(),
            capabilities: ClientCapabilities::default(),
            client_info: pmcp::Implementation { name: "c".into(), version: "0".into() },
        }))),
        12 => r(creq(ClientRequest::ListTools(ListToolsRequest { cursor: Some("x".into()) }))),
        _ => n(Notification::Server(ServerNotification::ToolsChanged)),
    }
}
const C01_N: usize = 14;

/// Judge the written frames against the requests sent, in order.
fn c01_judge(o: &mut Outcome, what: &str, sent: &[RequestId], out: &[Out], complete: bool) {
    let got: Vec<&RequestId> = out.iter().filter_map(|x| if let Out::Response(i, _) = x { Some(i) } else { None }).collect();
    let want: Vec<&RequestId> = sent.iter().collect();
    if let Some(x) = out.iter().find(|x| matches!(x, Out::Other(_))) {
        o.fail("not-a-response", format!("{what}: the server wrote {x:?}"));
    }
    let prefix = got.len() <= want.len() && got[..] == want[..got.len()];
    if complete && got == want || !complete && prefix {
        return;
    }
    let key = if got.len() < want.len() && prefix {
        "unanswered"
    } else {
        let (mut g, mut w): (Vec<String>, Vec<String>) = (got.iter().map(|i| format!("{i:?}")).collect(), want.iter().map(|i| format!("{i:?}")).collect());
        g.sort();
        w.sort();
        if g == w {
            "order"
        } else if got.len() > want.len() {
            "extra-response"
        } else {
            "wrong-id"
        }
    };
    o.fail(key, format!("{what}: responses for {got:?}, requests were {want:?}"));
}

pub fn c01(ctx: &Ctx) {
    let depth = ctx.by(4, 5);
    for_all(ctx, &format!("message sequences, length {depth}"), sequences(C01_N, depth), |s| {
        let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
        let r = seq(async {
            let (calls, done) = (Log::new(), Log::new());
            let live = start(build(63, &calls, &done), None, false).await;
            let mut want = vec![];
            for (k, &m) in s.iter().enumerate() {
                let id = ids_for(k + s[0] % 3);
                let (msg, is_req) = c01_msg(m, &id);
                if is_req {
                    want.push(id);
                }
                let _ = live.tx.send(In::Msg(Box::new(msg)));
            }
            tokio::time::sleep(Duration::from_secs(2)).await;
            (want, live.out.get())
        });
        let Some((want, out)) = r else {
            deadlock(&mut o, "server");
            return o;
        };
        c01_judge(&mut o, &format!("messages {s:?}"), &want, &out, true);
        if out.iter().any(|x| matches!(x, Out::Note(_))) {
            o.fail("not-a-response", format!("messages {s:?}: unsolicited {out:?}"));
        }
        o.observed = format!("{}", out.iter().map(|x| match x { Out::Response(_, Ok(_)) => 'r', Out::Response(_, Err(_)) => 'e', _ => 'n' }).collect::<String>());
        o
    });
    // two messages, many ids including duplicates
    for_all(ctx, "id shapes", (0..9usize).flat_map(|a| (0..9usize).map(move |b| (a, b))), |&(a, b)| {
        let mut o = Outcome::default();
        let idof = |k: usize| match k {
            6 => RequestId::Number(i64::MAX),
            7 => RequestId::Number(-1),
            8 => RequestId::String("x".repeat(5000)),
            k => ids_for(k),
        };
        let (want, out) = seq(async {
            let live = start(build(63, &Log::new(), &Log::new()), None, false).await;
            let want = vec![idof(a), idof(b)];
            for (id, m) in want.iter().zip([1usize, 2]) {
                let _ = live.tx.send(In::Msg(Box::new(c01_msg(m, id).0)));
            }
            tokio::time::sleep(Duration::from_secs(2)).await;
            (want, live.out.get())
        })
        .unwrap();
        c01_judge(&mut o, "ids", &want, &out, true);
        o.observed = format!("{a}{b}");
        o
    });
    // long pipelines: every request is written before the first answer is read
    for_all(ctx, "long pipelines of requests", SIZES.iter().flat_map(|&n| (0..4usize).map(move |k| (n, k))), |&(n, mix)| {
        let mut o = Outcome { transitions: n as u64, ..Default::default() };
        let (want, out) = seq(async {
            let live = start(build(63, &Log::new(), &Log::new()), None, false).await;
            let mut want = vec![];
            for k in 0..n {
                let id = if k % 2 == 0 { RequestId::Number(k as i64) } else { RequestId::String(format!("{}", k - 1)) };
                let m = match mix {
                    0 => 0,
                    1 => 1,
                    2 => [2usize, 4, 5, 10][k % 4],
                    _ => [3usize, 0, 7, 1, 9, 12, 8][k % 7],
                };
                let (msg, is_req) = c01_msg(m, &id);
                if is_req {
                    want.push(id);
                }
                let _ = live.tx.send(In::Msg(Box::new(msg)));
            }
            tokio::time::sleep(Duration::from_secs(60)).await;
            (want, live.out.get())
        })
        .unwrap();
        c01_judge(&mut o, &format!("{n} requests of mix {mix}"), &want, &out, true);
        o.observed = format!("{}", out.len());
        o
    });
    // whatever way a handler fails, that request and the ones around it are answered
    let fails: Vec<(usize, usize)> = (0..REFUSING.len()).flat_map(|k| (0..REFUSALS.len()).map(move |h| (k, h))).collect();
    let nf = fails.len();
    let pairs = (0..nf).flat_map(|a| (0..nf).map(move |b| (a, b))).flat_map(|(a, b)| (0..3usize).map(move |p| (a, b, p)));
    for_all(ctx, "every way two handlers can fail, among other requests", pairs, |&(a, b, p)| {
        let mut o = Outcome { transitions: 4, ..Default::default() };
        let mut reqs = vec![refused(REFUSING[fails[a].0], REFUSALS[fails[a].1]), refused(REFUSING[fails[b].0], REFUSALS[fails[b].1])];
        reqs.insert(p, creq(ClientRequest::Ping));
        reqs.push(call("t", json!({"a": 1})));
        let want: Vec<RequestId> = (0..reqs.len()).map(ids_for).collect();
        let out = seq(async {
            let live = start(build(63, &Log::new(), &Log::new()), None, false).await;
            for (id, request) in want.iter().zip(reqs) {
                let _ = live.tx.send(In::Msg(Box::new(TransportMessage::Request { id: id.clone(), request })));
            }
            tokio::time::sleep(Duration::from_secs(2)).await;
            live.out.get()
        })
        .unwrap();
        c01_judge(&mut o, &format!("handlers failing with {:?} and {:?}, ping at {p}", fails.get(a).map(|f| (REFUSING[f.0], REFUSALS[f.1])), fails.get(b).map(|f| (REFUSING[f.0], REFUSALS[f.1]))), &want, &out, true);
        o.observed = format!("{a} {b}");
        o
    });
    // schedules: requests arriving over time, notifications sent by the server meanwhile
    let alpha = [1usize, 2, 3, 0];
    explore(ctx, "arrivals, handlers and server notifications under schedules", Bounds::dev(ctx.by(3, 4)).secs(ctx.by(120, 1800)), |ex| {
        let ms: Vec<usize> = (0..2).map(|_| alpha[ex.choose(4)]).collect();
        let gap = [0u64, 20][ex.choose(2)];
        let slow = ex.choose(2) == 1;
        let mut o = Outcome::default();
        let r = run_async(&ex, HOUR, true, async {
            let live = start(build(63, &Log::new(), &Log::new()), None, slow).await;
            let server = live.server.clone();
            let n = tokio::spawn(async move {
                if let Some(s) = server {
                    s.send_notification(ServerNotification::ToolsChanged).await;
                    tokio::time::sleep(Duration::from_millis(30)).await;
                    s.send_notification(ServerNotification::PromptsChanged).await;
                }
            });
            let mut want = vec![];
            for (k, &m) in ms.iter().enumerate() {
                let id = ids_for(k);
                want.push(id.clone());
                let _ = live.tx.send(In::Msg(Box::new(c01_msg(m, &id).0)));
                if gap > 0 {
                    tokio::time::sleep(Duration::from_millis(gap)).await;
                }
            }
            n.await.unwrap();
            tokio::time::sleep(Duration::from_secs(2)).await;
            (want, live.out.get())
        });
        let Some((want, out)) = r else {
            deadlock(&mut o, "server");
            return o;
        };
        o.observed = format!("{ms:?} {:?}", out.iter().map(|x| matches!(x, Out::Note(_))).collect::<Vec<_>>());
        c01_judge(&mut o, &format!("messages {ms:?}, gap {gap}"), &want, &out, true);
        o
    });
    // transport faults: the k-th send fails, or the connection drops after k messages
    for_all(ctx, "transport faults", sequences(5, 3).flat_map(|s| (0..4usize).flat_map(move |f| { let s = s.clone(); (0..2usize).map(move |kind| (s.clone(), f, kind)) })), |(s, f, kind)| {
        let mut o = Outcome { transitions: 3, ..Default::default() };
        let r = seq(async {
            let live = start(build(63, &Log::new(), &Log::new()), (*kind == 0).then_some(*f), false).await;
            let mut want = vec![];
            for (k, &m) in s.iter().enumerate() {
                if *kind == 1 && k == *f {
                    let _ = live.tx.send(In::Fail);
                }
                let id = ids_for(k);
                let (msg, req) = c01_msg(m, &id);
                if req && (*kind == 0 || k < *f) {
                    want.push(id);
                }
                let _ = live.tx.send(In::Msg(Box::new(msg)));
            }
            tokio::time::sleep(Duration::from_secs(2)).await;
            (want, live.out.get())
        });
        let Some((want, out)) = r else {
            deadlock(&mut o, "server");
            return o;
        };
        o.observed = format!("{}", out.len());
        if *kind == 1 {
            c01_judge(&mut o, &format!("messages {s:?}, connection lost before message {f}"), &want, &out[..out.len().min(99)], true);
        } else {
            // Everything before the failing send is answered exactly once; nothing is repeated afterwards.
            let mut w = want.clone();
            if *f < w.len() {
                w.remove(*f);
            }
            let before = &want[..(*f).min(want.len())];
            let got: Vec<&RequestId> = out.iter().filter_map(|x| if let Out::Response(i, _) = x { Some(i) } else { None }).collect();
            let ok = got.len() >= before.len() && got[..before.len()].iter().zip(before).all(|(a, b)| *a == b) && {
                let mut it = w.iter();
                got.iter().all(|g| it.any(|x| x == *g))
            };
            if !ok {
                o.fail("after-failed-send", format!("messages {s:?}, send {f} fails: responses {got:?}"));
            }
        }
        o
    });
    // the wire: text decoded as the stdio transport does
    let texts: &[(&str, Option<&str>, bool)] = &[
        (r#"{"jsonrpc":"2.0","id":@,"method":"ping"}"#, Some("ping"), true),
        (r#"{"jsonrpc":"2.0","id":@,"method":"tools/list","params":{}}"#, Some("list"), true),
        (r#"{"jsonrpc":"2.0","method":"notifications/initialized"}"#, None, true),
        (r#"{"jsonrpc":"2.0","id":@,"method":"no/such"}"#, Some("unknown method"), false),
        (r#"{"jsonrpc":"2.0","id":@,"method":"tools/call","params":{"name":5}}"#, Some("bad parameters"), false),
        (r#"{"jsonrpc":"2.0","id":@,"method":"tools/call","params":{"name":"t"}}"#, Some("call without arguments"), true),
    ];
    for_all(ctx, "wire text, length 3", sequences(texts.len(), 3), |s| {
        let mut o = Outcome { transitions: 3, ..Default::default() };
        let (want, out) = seq(async {
            let live = start(build(63, &Log::new(), &Log::new()), None, false).await;
            let mut want = vec![];
            for (k, &m) in s.iter().enumerate() {
                let id = ids_for(k);
                let (t, req, _) = texts[m];
                if req.is_some() {
                    want.push(id.clone());
                }
                let _ = live.tx.send(In::Text(t.replace('@', &serde_json::to_string(&id).unwrap())));
            }
            tokio::time::sleep(Duration::from_secs(2)).await;
            (want, live.out.get())
        })
        .unwrap();
        o.observed = format!("{}/{}", out.len(), want.len());
        let decodable = s.iter().all(|m| texts[*m].2);
        let mut t = Outcome::default();
        c01_judge(&mut t, &format!("texts {:?}", s.iter().map(|m| texts[*m].0).collect::<Vec<_>>()), &want, &out, true);
        for (k, d) in t.fails {
            // A request the transport cannot decode ends the loop: one known defect, told apart
            // from any other way of going wrong.
            let first_bad = s.iter().position(|m| !texts[*m].2);
            let answered_before = s[..first_bad.unwrap_or(3)].iter().filter(|m| texts[**m].1.is_some()).count();
            if !decodable && k == "unanswered" && out.len() == answered_before {
                o.fail("undecodable-request-ends-the-loop", d);
            } else {
                o.fail(k, d);
            }
        }
        o
    });
}

// ------------------------------------------------------------ C02

#[derive(Clone, Debug)]
enum Want {
    Ok(Value),
    Any,
    Err,
}

fn c02_alphabet() -> Vec<(&'static str, Request)> {
    let mut v: Vec<(&'static str, Request)> = vec![];
    for n in ["t", "tt", "", "T", "ttt", "p", " t"] {
        v.push(("call", call(n, json!({"k": [1, {"x": null}], "s": "q\"\u{1F600}"}))));
    }
    for a in [Value::Null, json!([1, 2]), json!("text"), json!(1.5), json!({}), json!({"do": "err"})] {
        v.push(("call", call("t", a)));
    }
    for n in ["p", "pp", "", "t", "p "] {
        for args in [vec![], vec![("a", "1"), ("b", "")], vec![("do", "err")]] {
            v.push(("prompt", creq(ClientRequest::GetPrompt(GetPromptRequest { name: n.into(), arguments: args.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect() }))));
        }
    }
    for c in [None, Some("c1".to_string()), Some(String::new())] {
        v.push(("tools", creq(ClientRequest::ListTools(ListToolsRequest { cursor: c.clone() }))));
        v.push(("prompts", creq(ClientRequest::ListPrompts(ListPromptsRequest { cursor: c.clone() }))));
        v.push(("resources", creq(ClientRequest::ListResources(ListResourcesRequest { cursor: c.clone() }))));
        v.push(("templates", creq(ClientRequest::ListResourceTemplates(ListResourceTemplatesRequest { cursor: c.clone() }))));
    }
    for u in ["file:///x", "", "bad://"] {
        v.push(("read", creq(ClientRequest::ReadResource(ReadResourceRequest { uri: u.into() }))));
    }
    v.push(("empty", creq(ClientRequest::Subscribe(SubscribeRequest { uri: "u".into() }))));
    v.push(("empty", creq(ClientRequest::Unsubscribe(UnsubscribeRequest { uri: "u".into() }))));
    v.push(("empty", creq(ClientRequest::SetLoggingLevel { level: LoggingLevel::Error })));
    v.push(("empty", creq(ClientRequest::Ping)));
    v.push((
        "complete",
        creq(ClientRequest::Complete(CompleteRequest { r#ref: CompletionReference::Prompt { name: "p".into() }, argument: CompletionArgument { name: "a".into(), value: "v".into() } })),
    ));
    for n in [0usize, 2] {
        let messages = (0..n).map(|i| SamplingMessage { role: Role::User, content: pmcp::Content::Text { text: format!("m{i}") } }).collect();
        v.push((
            "sampling",
            creq(ClientRequest::CreateMessage(CreateMessageParams {
                messages,
                model_preferences: None,
                system_prompt: Some("sys".into()),
                include_context: IncludeContext::None,
                temperature: None,
                max_tokens: None,
                stop_sequences: None,
                metadata: None,
            })),
        ));
    }
    for (ver, caps) in [("2025-06-18", json!({})), ("2025-03-26", json!({"roots": {}})), ("2025-01-01", json!({})), ("2999-01-01", json!({})), ("2024-11-05", json!({"sampling": {}, "roots": {"listChanged": true}})), ("1900-01-01", json!({"experimental": {"q": {}}})), ("", json!({}))] {
        v.push((
            "init",
            creq(ClientRequest::Initialize(InitializeRequest {
                protocol_version: ver.into(),
                capabilities: serde_json::from_value(caps).unwrap(),
                client_info: pmcp::Implementation { name: "c".into(), version: "0".into() },
            })),
        ));
    }
    v.push(("server", Request::Server(Box::new(ServerRequest::ListRoots))));
    v
}

/// The reference dispatcher: expected answer and handler calls.
fn reference(cfg: usize, r: &Request, id: &RequestId) -> (Want, Vec<Call>) {
    let has = |b: usize| cfg & b != 0;
    let mk = |kind: &'static str, name: &str, args: Value| Call { kind, name: name.into(), args, id: id.to_string() };
    let Request::Client(c) = r else { return (Want::Err, vec![]) };
    match &**c {
        ClientRequest::CallTool(q) => {
            let known = q.name == "t" && has(1) || q.name == "tt" && has(2);
            if !known {
                return (Want::Err, vec![]);
            }
            let calls = vec![mk("tool", &q.name, q.arguments.clone())];
            if q.arguments.get("do") == Some(&json!("err")) {
                return (Want::Err, calls);
            }
            let text = tool_result(&q.name, &q.arguments).to_string();
            (Want::Ok(json!({"content": [{"type": "text", "text": text}], "isError": false})), calls)
        },
        ClientRequest::GetPrompt(q) => {
            if !(q.name == "p" && has(4)) {
                return (Want::Err, vec![]);
            }
            let a = json!(q.arguments.clone().into_iter().collect::<std::collections::BTreeMap<_, _>>());
            let calls = vec![mk("prompt", "p", a.clone())];
            if q.arguments.get("do").map(String::as_str) == Some("err") {
                return (Want::Err, calls);
            }
            (Want::Ok(serde_json::to_value(prompt_result("p", &a)).unwrap()), calls)
        },
        ClientRequest::ListTools(_) => {
            let mut t = vec![];
            if has(1) {
                t.push("t");
            }
            if has(2) {
                t.push("tt");
            }
            (Want::Ok(json!({ "names": t })), vec![])
        },
        ClientRequest::ListPrompts(_) => (Want::Ok(json!({"names": if has(4) { vec!["p"] } else { vec![] }})), vec![]),
        ClientRequest::ListResources(q) => {
            if !has(8) {
                return (Want::Ok(json!({"resources": []})), vec![]);
            }
            let mut w = json!({"resources": [{"uri": "u://1", "name": "one"}]});
            if let Some(c) = &q.cursor {
                w["nextCursor"] = json!(format!("{c}+"));
            }
            (Want::Ok(w), vec![mk("list", "r", json!({"cursor": q.cursor}))])
        },
        ClientRequest::ListResourceTemplates(_) => (Want::Ok(json!({"resourceTemplates": []})), vec![]),
        ClientRequest::ReadResource(q) => {
            if !has(8) {
                return (Want::Err, vec![]);
            }
            let bad = q.uri == "bad://";
            let calls = vec![mk("read", "r", json!({"uri": q.uri, "do": if bad {"err"} else {"ok"}}))];
            if bad {
                return (Want::Err, calls);
            }
            (Want::Ok(json!({"contents": [{"type": "text", "text": format!("read {}", q.uri)}]})), calls)
        },
        ClientRequest::CreateMessage(q) => {
            if !has(16) {
                return (Want::Err, vec![]);
            }
            (
                Want::Ok(json!({"content": {"type": "text", "text": "made"}, "model": "m"})),
                vec![mk("sampling", "s", json!({"n": q.messages.len(), "system": q.system_prompt}))],
            )
        },
        ClientRequest::Initialize(i) => {
            let mut caps = if has(32) { serde_json::to_value(full_caps()).unwrap() } else { json!({}) };
            if has(16) {
                caps["sampling"] = json!({});
            }
            let asked = i.protocol_version.as_str();
            let version = if pmcp::SUPPORTED_PROTOCOL_VERSIONS.contains(&asked) { asked } else { pmcp::DEFAULT_PROTOCOL_VERSION };
            (Want::Ok(json!({"caps": caps, "version": version})), vec![])
        },
        ClientRequest::Complete(_) | ClientRequest::ElicitInputResponse(_) => (Want::Any, vec![]),
        _ => (Want::Ok(json!({})), vec![]),
    }
}

/// Compare one answer with the reference; listings are compared as sets of names.
fn c02_check(o: &mut Outcome, what: &str, cfg: usize, kind: &str, want: &Want, got: &Result<Value, (i32, String)>) {
    match (want, got) {
        (Want::Any, _) => {},
        (Want::Err, Err((code, _))) => {
            if *code == 0 {
                o.fail("error-shape", format!("{what}: error code 0"));
            }
        },
        (Want::Err, Ok(v)) => o.fail(format!("{kind}-accepted"), format!("{what}: got {v}, expected an error")),
        (Want::Ok(w), Err(e)) => o.fail(format!("{kind}-refused"), format!("{what}: got error {e:?}, expected {w}")),
        (Want::Ok(w), Ok(v)) => {
            let ok = match kind {
                "tools" | "prompts" => {
                    let list = v[kind].as_array().cloned().unwrap_or_default();
                    let mut names: Vec<String> = list.iter().filter_map(|t| t["name"].as_str().map(String::from)).collect();
                    names.sort();
                    names.len() == list.len() && json!(names) == w["names"]
                },
                "init" => {
                    v["protocolVersion"] == w["version"]
                        && same_json(&v["capabilities"], &w["caps"])
                        && v["serverInfo"]["name"] == json!(format!("srv{cfg}"))
                        && v["serverInfo"]["version"] == json!("1.2.3")
                },
                _ => same_json(v, w),
            };
            if !ok {
                o.fail(format!("{kind}-result"), format!("{what}: got {v}, expected {w}"));
            }
        },
    }
}

/// Equality ignoring object member order (serde_json is built with preserve_order).
pub fn same_json(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same_json(v, w))),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| same_json(v, w)),
        _ => a == b,
    }
}

pub fn c02(ctx: &Ctx) {
    let alpha = c02_alphabet();
    let n = alpha.len();
    // every configuration x every request, through the loop and through the batch entry
    for_all(ctx, "configurations x requests, two entry points", (0..64usize).flat_map(|c| (0..n).flat_map(move |r| (0..2usize).map(move |e| (c, r, e)))), |&(cfg, k, entry)| {
        let mut o = Outcome::default();
        let (kind, r) = &alpha[k];
        let id = RequestId::Number(40 + k as i64);
        let (want, wcalls) = reference(cfg, r, &id);
        let what = format!("config {cfg:#b}, {}", serde_json::to_string(r).unwrap());
        let calls = Log::new();
        let got = seq(async {
            if entry == 0 {
                let live = start(build(cfg, &calls, &Log::new()), None, false).await;
                let _ = live.tx.send(In::Msg(Box::new(TransportMessage::Request { id: id.clone(), request: r.clone() })));
                tokio::time::sleep(Duration::from_secs(1)).await;
                if let (Request::Client(c), Some(s)) = (r, &live.server) {
                    if let ClientRequest::Initialize(i) = &**c {
                        if !s.is_initialized().await || serde_json::to_value(s.get_client_capabilities().await).unwrap() != serde_json::to_value(Some(&i.capabilities)).unwrap() {
                            return Some(Err((0, "client capabilities not recorded".into())));
                        }
                    } else if s.is_initialized().await {
                        return Some(Err((0, "initialized without initialize".into())));
                    }
                }
                match live.out.get().as_slice() {
                    [Out::Response(i, r)] if *i == id => Some(r.clone()),
                    _ => None,
                }
            } else {
                let server = Arc::new(build(cfg, &calls, &Log::new()));
                let q = pmcp::shared::create_request(id.clone(), r.clone());
                match server.handle_batch_request(BatchRequest::Single(q)).await {
                    Ok(BatchResponse::Single(x)) if x.id == id => Some(match x.payload {
                        ResponsePayload::Result(v) => Ok(v),
                        ResponsePayload::Error(e) => Err((e.code, e.message)),
                    }),
                    _ => None,
                }
            }
        });
        let Some(Some(got)) = got else {
            o.fail("no-answer", format!("{what}: no single answer with the request's id"));
            return o;
        };
        c02_check(&mut o, &what, cfg, kind, &want, &got);
        let c = calls.get();
        if c != wcalls {
            o.fail(format!("{kind}-handler"), format!("{what}: handlers invoked {c:?}, expected {wcalls:?}"));
        }
        o.observed = format!("{got:?}");
        o
    });
    // a failing handler's error is what the caller gets, and its neighbours keep their answers
    let fails: Vec<(usize, usize)> = (0..REFUSING.len()).flat_map(|k| (0..REFUSALS.len()).map(move |h| (k, h))).collect();
    for_all(ctx, "failing handlers: kind x error x entry x neighbour", fails.iter().flat_map(|&(k, h)| (0..2usize).flat_map(move |e| (0..n).map(move |r| (k, h, e, r)))), |&(k, h, entry, other)| {
        let mut o = Outcome { transitions: 2, ..Default::default() };
        let what = format!("{} handler failing with {:?}, entry {entry}, beside request {other}", REFUSING[k], REFUSALS[h]);
        let reqs = [refused(REFUSING[k], REFUSALS[h]), alpha[other].1.clone()];
        let calls = Log::new();
        let out: Vec<(RequestId, Result<Value, JSONRPCError>)> = seq(async {
            if entry == 0 {
                let live = start(build(63, &calls, &Log::new()), None, false).await;
                for (i, request) in reqs.iter().enumerate() {
                    let _ = live.tx.send(In::Msg(Box::new(TransportMessage::Request { id: RequestId::Number(i as i64), request: request.clone() })));
                }
                tokio::time::sleep(Duration::from_secs(1)).await;
                live.out.get().into_iter().filter_map(|x| match x { Out::Response(i, r) => Some((i, r.map_err(|(c, m)| JSONRPCError::new(c, m)))), _ => None }).collect()
            } else {
                let server = Arc::new(build(63, &calls, &Log::new()));
                let q = BatchRequest::Batch(reqs.iter().enumerate().map(|(i, r)| pmcp::shared::create_request(RequestId::Number(i as i64), r.clone())).collect());
                match server.handle_batch_request(q).await {
                    Ok(BatchResponse::Batch(v)) => v
                        .into_iter()
                        .map(|x| (x.id, match x.payload { ResponsePayload::Result(v) => Ok(v), ResponsePayload::Error(e) => Err(e) }))
                        .collect(),
                    _ => vec![],
                }
            }
        })
        .unwrap_or_default();
        let ids: Vec<&RequestId> = out.iter().map(|x| &x.0).collect();
        if !expect_eq(&mut o, "no-answer", format!("{what}: ids answered"), format!("{ids:?}"), format!("{:?}", [RequestId::Number(0), RequestId::Number(1)])) {
            return o;
        }
        let args = json!({"do": REFUSALS[h]});
        let e = refusal(&args).unwrap();
        match (&out[0].1, &e) {
            (Ok(v), _) => o.fail("refusal-lost", format!("{what}: got the result {v}")),
            (Err(g), pmcp::Error::Protocol { code, message, data }) => {
                if g.code != code.as_i32() || g.message != *message || entry == 1 && g.data != *data {
                    o.fail("refusal-changed", format!("{what}: got {g:?}, the handler said {e:?}"));
                }
            },
            (Err(g), _) => {
                if g.code == 0 || !g.message.contains(&e.to_string()) {
                    o.fail("refusal-changed", format!("{what}: got {g:?}, the handler said {e}"));
                }
            },
        }
        let (want, wc) = reference(63, &alpha[other].1, &RequestId::Number(1));
        c02_check(&mut o, &what, 63, alpha[other].0, &want, &out[1].1.clone().map_err(|e| (e.code, e.message)));
        let c = calls.get();
        if c.len() != 1 + wc.len() || c[1..] != wc[..] || c[0].kind != REFUSING[k] {
            o.fail("handler-history", format!("{what}: handlers invoked {c:?}"));
        }
        o.observed = format!("{:?}", out[0].1);
        o
    });
    // histories: the answer to a request does not depend on what came before
    let len = 3;
    let cfgs = [63usize, 0, 5, 26];
    let deeper = ctx.by(0, 1);
    for_all(ctx, &format!("request sequences, length {len}{}", if deeper > 0 { " and 4" } else { "" }), sequences(n, len).flat_map(|s| cfgs.iter().map(move |c| (*c, s.clone()))).chain(sequences(n, 4).take(if deeper > 0 { usize::MAX } else { 0 }).map(|s| (63, s))), |(cfg, s)| {
        let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
        let calls = Log::new();
        let out = seq(async {
            let live = start(build(*cfg, &calls, &Log::new()), None, false).await;
            for (k, &r) in s.iter().enumerate() {
                let _ = live.tx.send(In::Msg(Box::new(TransportMessage::Request { id: RequestId::Number(k as i64), request: alpha[r].1.clone() })));
            }
            tokio::time::sleep(Duration::from_secs(1)).await;
            live.out.get()
        })
        .unwrap_or_default();
        let mut wcalls = vec![];
        for (k, &r) in s.iter().enumerate() {
            let id = RequestId::Number(k as i64);
            let (want, wc) = reference(*cfg, &alpha[r].1, &id);
            wcalls.extend(wc);
            match out.get(k) {
                Some(Out::Response(i, got)) if *i == id => c02_check(&mut o, &format!("config {cfg:#b}, sequence {s:?}, answer {k}"), *cfg, alpha[r].0, &want, got),
                other => o.fail("no-answer", format!("config {cfg:#b}, sequence {s:?}: answer {k} is {other:?}")),
            }
        }
        if calls.get() != wcalls {
            o.fail("handler-history", format!("config {cfg:#b}, sequence {s:?}: handlers invoked {:?}, expected {wcalls:?}", calls.get()));
        }
        o.observed = format!("{cfg}{s:?}");
        o
    });
    // many tools: names of every length and awkward spelling reach their own handler
    let names: Vec<String> = (0..40).map(|i| "n".repeat(i)).chain(["é".into(), "a/b".into(), "a b".into(), "A".into(), "a".into(), "tools/call".into(), "\u{0}".into()]).collect();
    for_all(ctx, "many handlers", 0..names.len(), |&k| {
        let mut o = Outcome::default();
        let calls = Log::new();
        let (list, got, pgot) = seq(async {
            let mut b = Server::builder().name("s").version("1");
            for n in &names {
                b = b.tool(n.clone(), H::new(n, &calls, &Log::new())).prompt(n.clone(), H::new(n, &calls, &Log::new()));
            }
            let live = start(b.build().unwrap(), None, false).await;
            for (i, r) in [
                creq(ClientRequest::ListTools(ListToolsRequest { cursor: None })),
                call(&names[k], json!({"k": k})),
                creq(ClientRequest::GetPrompt(GetPromptRequest { name: names[k].clone(), arguments: HashMap::new() })),
            ]
            .into_iter()
            .enumerate()
            {
                let _ = live.tx.send(In::Msg(Box::new(TransportMessage::Request { id: RequestId::Number(i as i64), request: r })));
            }
            tokio::time::sleep(Duration::from_secs(1)).await;
            let out = live.out.get();
            (out.first().cloned(), out.get(1).cloned(), out.get(2).cloned())
        })
        .unwrap();
        let listed: BTreeSet<String> = match &list {
            Some(Out::Response(_, Ok(v))) => v["tools"].as_array().map(|a| a.iter().filter_map(|t| t["name"].as_str().map(String::from)).collect()).unwrap_or_default(),
            _ => BTreeSet::new(),
        };
        expect_eq(&mut o, "tools-result", "tools listed", listed, names.iter().cloned().collect());
        if !matches!((&got, &pgot), (Some(Out::Response(_, Ok(_))), Some(Out::Response(_, Ok(_))))) {
            o.fail("call-refused", format!("{:?}: {got:?} {pgot:?}", names[k]));
        }
        let c: Vec<(&str, String)> = calls.get().into_iter().map(|c| (c.kind, c.name)).collect();
        expect_eq(&mut o, "call-handler", "handlers invoked", c, vec![("tool", names[k].clone()), ("prompt", names[k].clone())]);
        o
    });
    // names like a registered one, but not registered: no handler is invoked
    let close: Vec<String> = ["Tool-1", "tool-1", "a/b", "x", "caf\u{e9}"].iter().map(|s| s.to_string()).collect();
    let mut misses: Vec<String> = vec![String::new(), " ".into()];
    for n in &close {
        for v in [
            format!(" {n}"), format!("{n} "), format!("{n}\n"), format!("\t{n}"), n.to_uppercase(), n.to_lowercase(), n.replace('-', "_"), n.replace('/', "."), n.replace('\u{e9}', "e\u{301}"),
            format!("{n}{n}"), format!("{n}."), format!("{n}/"), format!("/{n}"), format!("{n}\0"), format!("{n}*"), n.chars().take(n.chars().count() - 1).collect(), n.chars().skip(1).collect(),
            format!("ns/{n}"), format!("ns.{n}"), format!("ns:{n}"), format!("{n}@1"), format!("{n}?v=1"), format!("\"{n}\""), n.replace('-', "%2D"), n.replace('/', "%2F"), "*".into(), format!("\u{200b}{n}"), format!("{n}\u{a0}"),
        ] {
            if !close.contains(&v) && !misses.contains(&v) {
                misses.push(v);
            }
        }
    }
    for_all(ctx, "names close to a registered one", 0..misses.len(), |&k| {
        let mut o = Outcome::default();
        let calls = Log::new();
        let out = seq(async {
            let mut b = Server::builder().name("s").version("1");
            for n in &close {
                b = b.tool(n.clone(), H::new(n, &calls, &Log::new())).prompt(n.clone(), H::new(n, &calls, &Log::new()));
            }
            let live = start(b.build().unwrap(), None, false).await;
            for (i, r) in [
                call(&misses[k], json!({"k": k})),
                creq(ClientRequest::GetPrompt(GetPromptRequest { name: misses[k].clone(), arguments: HashMap::new() })),
                creq(ClientRequest::ListTools(ListToolsRequest { cursor: None })),
                call(&misses[k], json!({})),
            ]
            .into_iter()
            .enumerate()
            {
                let _ = live.tx.send(In::Msg(Box::new(TransportMessage::Request { id: RequestId::Number(i as i64), request: r })));
            }
            tokio::time::sleep(Duration::from_secs(1)).await;
            live.out.get()
        })
        .unwrap();
        let got: Vec<Option<bool>> = out.iter().map(|m| if let Out::Response(_, r) = m { Some(r.is_ok()) } else { None }).collect();
        expect_eq(&mut o, "unknown-name", format!("{:?} with {close:?} registered: which succeed", misses[k]), got, vec![Some(false), Some(false), Some(true), Some(false)]);
        expect_eq(&mut o, "call-handler", format!("{:?} with {close:?} registered: handlers invoked", misses[k]), calls.get().len(), 0);
        o
    });
    // builder: name and version are required
    for_all(ctx, "builder requirements", 0..4usize, |&k| {
        let mut o = Outcome::default();
        let mut b = Server::builder();
        if k & 1 != 0 {
            b = b.name("n");
        }
        if k & 2 != 0 {
            b = b.version("v");
        }
        expect_eq(&mut o, "builder", format!("build with name={} version={}", k & 1, k & 2), b.build().is_ok(), k == 3);
        o
    });
}

// ------------------------------------------------------------ C03

fn note(k: usize) -> ServerNotification {
    match k % 4 {
        0 => ServerNotification::ToolsChanged,
        1 => ServerNotification::ResourceUpdated(ResourceUpdatedParams { uri: format!("u{k}") }),
        2 => ServerNotification::LogMessage(LogMessageParams { level: LogLevel::Info, logger: None, message: format!("m{k}"), data: None }),
        _ => ServerNotification::Progress(ProgressNotification { progress_token: ProgressToken::Number(k as i64), progress: k as f64, message: None }),
    }
}
/// The k-th notification of a script whose notifications may all be alike.
fn note_of(alike: bool, k: usize) -> ServerNotification {
    note(if alike { 0 } else { k })
}
fn note_text(k: usize) -> String {
    serde_json::to_string(&Notification::Server(note(k))).unwrap()
}

/// C04 on the connected server: a request that has been answered, however it went, is no longer
/// there to cancel.
pub fn c04_finished(ctx: &Ctx) {
    let kinds: Vec<(&str, Request)> = vec![
        ("call", call("t", json!({}))),
        ("failing call", call("t", json!({"do": "err"}))),
        ("unknown tool", call("zz", json!({}))),
        ("prompt", creq(ClientRequest::GetPrompt(GetPromptRequest { name: "p".into(), arguments: HashMap::new() }))),
        ("failing prompt", creq(ClientRequest::GetPrompt(GetPromptRequest { name: "p".into(), arguments: [("do".to_string(), "err".to_string())].into() }))),
        ("unknown prompt", creq(ClientRequest::GetPrompt(GetPromptRequest { name: "zz".into(), arguments: HashMap::new() }))),
        ("read", creq(ClientRequest::ReadResource(ReadResourceRequest { uri: "file:///x".into() }))),
        ("failing read", creq(ClientRequest::ReadResource(ReadResourceRequest { uri: "bad://".into() }))),
        ("list", creq(ClientRequest::ListResources(ListResourcesRequest { cursor: None }))),
        ("ping", creq(ClientRequest::Ping)),
    ];
    let n = kinds.len();
    let ids = [RequestId::Number(1), RequestId::String("r".into()), RequestId::String(String::new())];
    for_all(ctx, "server: cancelling answered requests", sequences(n, 2).flat_map(|s| (0..ids.len()).map(move |i| (s.clone(), i))), |(s, i)| {
        let mut o = Outcome { transitions: 4, ..Default::default() };
        let what = format!("{:?} with ids {}", s.iter().map(|&k| kinds[k].0).collect::<Vec<_>>(), ids[*i]);
        let r = seq(async {
            let live = start(build(63, &Log::new(), &Log::new()), None, false).await;
            let server = live.server.clone()?;
            let mut counts = vec![];
            for (k, &m) in s.iter().enumerate() {
                // the second request reuses the id of the first, as a client may once it is answered
                let _ = live.tx.send(In::Msg(Box::new(TransportMessage::Request { id: ids[*i].clone(), request: kinds[m].1.clone() })));
                tokio::time::sleep(Duration::from_secs(1)).await;
                if k == 1 {
                    for id in &ids {
                        let _ = server.cancel_request(id.to_string(), Some("late".into())).await;
                    }
                    tokio::time::sleep(Duration::from_secs(1)).await;
                }
                let out = live.out.get();
                counts.push((out.iter().filter(|x| matches!(x, Out::Response(..))).count(), out.iter().filter(|x| !matches!(x, Out::Response(..))).count()));
            }
            Some(counts)
        });
        let Some(Some(counts)) = r else {
            deadlock(&mut o, &what);
            return o;
        };
        o.observed = format!("{counts:?}");
        expect_eq(&mut o, "finished-still-cancellable", format!("{what}: (responses, other messages) after each; afterwards every id is cancelled"), counts, vec![(1, 0), (2, 0)]);
        o
    });
}

pub fn c03(ctx: &Ctx) {
    explore(ctx, "notifications, requests and handlers under schedules", Bounds::dev(ctx.by(3, 4)).secs(ctx.by(150, 2400)), |ex| {
        // a script of 4 steps by the environment; notifications are numbered
        let steps: Vec<usize> = (0..3).map(|_| ex.choose(4)).collect(); // 0 notify, 1 ping, 2 slow call, 3 pause
        let slow = ex.choose(2) == 1;
        let alike = ex.choose(2) == 1;
        let mut o = Outcome::default();
        let r = run_async(&ex, HOUR, true, async {
            let live = start(build(63, &Log::new(), &Log::new()), None, slow).await;
            let server = live.server.clone()?;
            let mut sent = 0usize;
            let mut reqs = 0i64;
            let mut waiting_ok = true;
            for s in &steps {
                match s {
                    0 => {
                        server.send_notification(note_of(alike, sent)).await;
                        sent += 1;
                    },
                    1 | 2 => {
                        let r = if *s == 1 { creq(ClientRequest::Ping) } else { call("t", json!({"wait": 40})) };
                        let _ = live.tx.send(In::Msg(Box::new(TransportMessage::Request { id: RequestId::Number(reqs), request: r })));
                        reqs += 1;
                    },
                    _ => {
                        tokio::time::sleep(Duration::from_millis(100)).await;
                        // everything sent so far should be out by now
                        let notes = live.out.get().iter().filter(|x| matches!(x, Out::Note(_))).count();
                        waiting_ok &= notes >= sent;
                    },
                }
            }
            tokio::time::sleep(Duration::from_secs(1)).await;
            let quiet = live.out.get();
            // each further message lets at least one held-back notification out
            for _ in 0..sent.max(1) {
                let _ = live.tx.send(In::Msg(Box::new(TransportMessage::Request { id: RequestId::Number(reqs), request: creq(ClientRequest::Ping) })));
                reqs += 1;
                tokio::time::sleep(Duration::from_secs(1)).await;
            }
            Some((sent, reqs, waiting_ok, quiet, live.out.get()))
        });
        let Some(r) = r else {
            deadlock(&mut o, "server with notifications");
            return o;
        };
        let Some((sent, reqs, waiting_ok, quiet, out)) = r else {
            o.fail("hook", "the running server was not published");
            return o;
        };
        let what = format!("steps {steps:?} (0 notify, 1 ping, 2 slow call, 3 pause): wrote {out:?}");
        o.observed = out.iter().map(|x| match x { Out::Response(i, _) => format!("r{i}"), Out::Note(_) => "n".into(), Out::Other(_) => "?".into() }).collect::<Vec<_>>().join(" ");
        let notes: Vec<String> = out.iter().filter_map(|x| if let Out::Note(n) = x { Some(n.clone()) } else { None }).collect();
        let want: Vec<String> = (0..sent).map(|k| note_text(if alike { 0 } else { k })).collect();
        if notes != want {
            let (mut a, mut b) = (notes.clone(), want.clone());
            a.sort();
            b.sort();
            let key = if notes.len() < want.len() { "lost" } else if notes.len() > want.len() { "duplicated" } else if a == b { "reordered" } else { "altered" };
            o.fail(key, format!("{what}; notifications sent {want:?}"));
        }
        c01_judge(&mut o, &what, &(0..reqs).map(RequestId::Number).collect::<Vec<_>>(), &out, true);
        let qn = quiet.iter().filter(|x| matches!(x, Out::Note(_))).count();
        if qn < sent || !waiting_ok {
            o.fail("held-until-next-message", format!("steps {steps:?}: {} of {sent} notifications were written while the connection was idle", qn));
        }
        o
    });
    // two senders: each one's order is kept, everything arrives once
    explore(ctx, "two senders", Bounds::dev(ctx.by(4, 5)).secs(ctx.by(60, 900)), |ex| {
        let n = 2usize;
        let sub = ex.choose(2) == 1; // second sender uses subscriptions
        let mut o = Outcome::default();
        let r = run_async(&ex, HOUR, true, async {
            let live = start(build(63, &Log::new(), &Log::new()), None, false).await;
            let server = live.server.clone()?;
            let a = {
                let s = server.clone();
                tokio::spawn(async move {
                    for k in 0..n {
                        s.send_notification(note(4 * k + 2)).await;
                    }
                })
            };
            let b = {
                let s = server.clone();
                tokio::spawn(async move {
                    if sub {
                        let _ = s.subscribe_resource("u101".into(), "c".into()).await;
                        let _ = s.notify_resource_updated("u101".into()).await;
                        let _ = s.notify_resource_updated("none".into()).await;
                        let _ = s.notify_resource_updated("u101".into()).await;
                    } else {
                        s.send_notification(note(101)).await;
                        s.send_notification(note(105)).await;
                    }
                })
            };
            let _ = live.tx.send(In::Msg(Box::new(TransportMessage::Request { id: RequestId::Number(0), request: creq(ClientRequest::Ping) })));
            a.await.unwrap();
            b.await.unwrap();
            tokio::time::sleep(Duration::from_secs(1)).await;
            for id in 1..=4 {
                let _ = live.tx.send(In::Msg(Box::new(TransportMessage::Request { id: RequestId::Number(id), request: creq(ClientRequest::Ping) })));
                tokio::time::sleep(Duration::from_secs(1)).await;
            }
            Some(live.out.get())
        });
        let Some(Some(out)) = r else {
            deadlock(&mut o, "two notification senders");
            return o;
        };
        let notes: Vec<String> = out.iter().filter_map(|x| if let Out::Note(n) = x { Some(n.clone()) } else { None }).collect();
        let a: Vec<String> = (0..n).map(|k| note_text(4 * k + 2)).collect();
        let b: Vec<String> = if sub { vec![note_text(101), note_text(101)] } else { vec![note_text(101), note_text(105)] };
        let ga: Vec<String> = notes.iter().filter(|x| a.contains(x)).cloned().collect();
        let gb: Vec<String> = notes.iter().filter(|x| !a.contains(x)).cloned().collect();
        o.observed = format!("{notes:?}");
        if ga != a || gb != b {
            o.fail("lost", format!("sent {a:?} and {b:?}, written {notes:?}"));
        }
        c01_judge(&mut o, "two senders", &(0..=4).map(RequestId::Number).collect::<Vec<_>>(), &out, true);
        o
    });
    // volume: n notifications queued while nothing arrives
    for_all(ctx, "bursts", [1usize, 10, 99, 100, 101, 150].into_iter().flat_map(|n| [(n, false), (n, true)]), |&(n, sub)| {
        let mut o = Outcome::default();
        let r = seq(async {
            let live = start(build(63, &Log::new(), &Log::new()), None, false).await;
            let server = live.server.clone()?;
            let h = tokio::spawn(async move {
                if sub {
                    let _ = server.subscribe_resource("u1".into(), "c".into()).await;
                }
                for k in 0..n {
                    if sub {
                        let _ = server.notify_resource_updated("u1".into()).await;
                    } else {
                        server.send_notification(note(4 * k + 2)).await;
                    }
                }
            });
            for k in 0..n as i64 {
                tokio::time::sleep(Duration::from_secs(1)).await;
                let _ = live.tx.send(In::Msg(Box::new(TransportMessage::Request { id: RequestId::Number(k), request: creq(ClientRequest::Ping) })));
            }
            tokio::time::sleep(Duration::from_secs(1)).await;
            let fin = h.is_finished();
            Some((live.out.get(), fin))
        });
        let Some(Some((out, fin))) = r else {
            deadlock(&mut o, "burst");
            return o;
        };
        let notes: Vec<String> = out.iter().filter_map(|x| if let Out::Note(n) = x { Some(n.clone()) } else { None }).collect();
        let want: Vec<String> = (0..n).map(|k| if sub { note_text(1) } else { note_text(4 * k + 2) }).collect();
        o.observed = format!("{n} {}", notes.len());
        if notes != want || !fin {
            // more queued updates than the channel holds, while the loop waits for input
            let key = if sub && n > 100 && notes.len() >= 100 && notes.len() < n { "overflow-dropped" } else { "lost" };
            o.fail(key, format!("{n} notifications sent (through subscriptions: {sub}), {} written, sender finished: {fin}", notes.len()));
        }
        o
    });
}

// ------------------------------------------------------------ C08

fn breq(id: RequestId, params: Value) -> JSONRPCRequest {
    JSONRPCRequest { jsonrpc: "2.0".into(), id, method: "m".into(), params: Some(params) }
}

#[derive(Default)]
struct Gauge {
    now: AtomicUsize,
    max: AtomicUsize,
    started: AtomicUsize,
}
struct Running(Arc<Gauge>);
impl Running {
    fn enter(g: &Arc<Gauge>) -> Running {
        let n = g.now.fetch_add(1, Ordering::SeqCst) + 1;
        g.max.fetch_max(n, Ordering::SeqCst);
        g.started.fetch_add(1, Ordering::SeqCst);
        Running(g.clone())
    }
}
impl Drop for Running {
    fn drop(&mut self) {
        self.0.now.fetch_sub(1, Ordering::SeqCst);
    }
}

/// behaviours: 0..=2 ok after that many steps, 3 error at once, 4 error after 2, 5 hang
async fn behave(g: Arc<Gauge>, q: JSONRPCRequest) -> JSONRPCResponse {
    let _r = Running::enter(&g);
    let b = q.params.as_ref().and_then(|p| p["b"].as_u64()).unwrap_or(0);
    let k = q.params.as_ref().and_then(|p| p["k"].as_u64()).unwrap_or(0);
    match b {
        0..=2 => tokio::time::sleep(Duration::from_millis(100 * b)).await,
        4 => tokio::time::sleep(Duration::from_millis(200)).await,
        5 => tokio::time::sleep(Duration::from_secs(3600 * 24)).await,
        _ => {},
    }
    if b == 3 || b == 4 {
        JSONRPCResponse::error(q.id, JSONRPCError::new(-32000 - k as i32, "no"))
    } else {
        JSONRPCResponse::success(q.id, json!(k))
    }
}

fn c08_judge(o: &mut Outcome, what: &str, ids: &[RequestId], bs: &[usize], rs: &[JSONRPCResponse], timeout: bool) {
    let got: Vec<&RequestId> = rs.iter().map(|r| &r.id).collect();
    if rs.len() != ids.len() {
        o.fail("count", format!("{what}: {} responses for {} requests", rs.len(), ids.len()));
        return;
    }
    for (k, r) in rs.iter().enumerate() {
        if r.id != ids[k] {
            let key = if bs[k] == 5 { "timeout-id" } else { "id-or-order" };
            o.fail(key, format!("{what}: response ids {got:?}, request ids {ids:?}"));
            return;
        }
        let ok = match (&r.payload, bs[k]) {
            (ResponsePayload::Result(v), 0..=2) => *v == json!(k),
            (ResponsePayload::Error(e), 3 | 4) => e.code == -32000 - k as i32,
            (ResponsePayload::Error(_), 5) => timeout,
            _ => false,
        };
        if !ok {
            o.fail("content", format!("{what}: response {k} is {:?}", r.payload));
        }
    }
}

pub fn c08(ctx: &Ctx) {
    let len = ctx.by(4usize, 5usize);
    let cases = (0..=len).flat_map(move |n| sequences(6, n)).flat_map(|b| {
        let n = b.len();
        [1usize, 2, 3, 10].into_iter().filter(move |l| *l <= n.max(1) || *l == 10).flat_map(move |lim| { let b = b.clone(); (0..4usize).map(move |v| (b.clone(), lim, v)) })
    });
    for_all(ctx, &format!("batches up to {len} x outcomes x limits x entry points"), cases, |(bs, lim, variant)| {
        let mut o = Outcome { transitions: bs.len() as u64, ..Default::default() };
        let g = Arc::new(Gauge::default());
        // distinct ids, or all equal
        let ids: Vec<RequestId> = (0..bs.len()).map(|k| if *variant == 3 { RequestId::Number(7) } else { ids_for(k) }).collect();
        let hang = bs.contains(&5);
        let cfg = ParallelBatchConfig { max_concurrency: *lim, fail_fast: *variant == 1, request_timeout_ms: if hang || *variant == 2 { Some(1000) } else { None } };
        let reqs: Vec<JSONRPCRequest> = bs.iter().enumerate().map(|(k, b)| breq(ids[k].clone(), json!({"b": b, "k": k}))).collect();
        let what = format!("behaviours {bs:?} (5 = hangs), limit {lim}, variant {variant}");
        let g2 = g.clone();
        let r = seq(async {
            match variant {
                0 | 3 => process_batch_parallel(reqs, move |q| behave(g2.clone(), q), cfg).await.ok().map(|r| (r, None)),
                1 => process_batch_parallel_stateful(reqs, Arc::new(tokio::sync::RwLock::new(0u32)), move |q, _s| behave(g2.clone(), q), cfg).await.ok().map(|r| (r, None)),
                _ => {
                    let p = BatchProcessor::new(cfg);
                    let r = p.process(reqs, move |q| behave(g2.clone(), q)).await.ok()?;
                    let m = p.metrics().await;
                    Some((r, Some((m.total_requests, m.successful_responses, m.error_responses, m.timeout_responses))))
                },
            }
        });
        let Some(Some((rs, metrics))) = r else {
            o.fail("no-result", format!("{what}: the batch never finished or failed"));
            return o;
        };
        c08_judge(&mut o, &what, &ids, bs, &rs, true);
        let max = g.max.load(Ordering::SeqCst);
        if max > *lim {
            o.fail("concurrency", format!("{what}: {max} handlers ran at once"));
        }
        if g.started.load(Ordering::SeqCst) != bs.len() || g.now.load(Ordering::SeqCst) != 0 {
            o.fail("handler-runs", format!("{what}: {} handlers started for {} requests, {} still running", g.started.load(Ordering::SeqCst), bs.len(), g.now.load(Ordering::SeqCst)));
        }
        if let Some(m) = metrics {
            let c = |f: &dyn Fn(usize) -> bool| bs.iter().filter(|b| f(**b)).count() as u64;
            expect_eq(&mut o, "metrics", format!("{what}: metrics (total, ok, error, timeout)"), m, (bs.len() as u64, c(&|b| b < 3), c(&|b| b == 3 || b == 4), c(&|b| b == 5)));
        }
        o.observed = format!("{bs:?}{max}");
        o
    });
    // larger batches through every limit around the sizes
    for_all(ctx, "large batches", (0..=40usize).flat_map(|n| [1usize, 2, 7, 10, 40].into_iter().map(move |l| (n, l))), |&(n, lim)| {
        let mut o = Outcome { transitions: n as u64, ..Default::default() };
        let g = Arc::new(Gauge::default());
        let bs: Vec<usize> = (0..n).map(|k| (k * 7 + 3) % 6).collect();
        let ids: Vec<RequestId> = (0..n).map(|k| if k % 2 == 0 { RequestId::Number(k as i64) } else { RequestId::String(format!("{}", k - 1)) }).collect();
        let reqs = bs.iter().enumerate().map(|(k, b)| breq(ids[k].clone(), json!({"b": b, "k": k}))).collect();
        let g2 = g.clone();
        let cfg = ParallelBatchConfig { max_concurrency: lim, fail_fast: false, request_timeout_ms: Some(1000) };
        match seq(process_batch_parallel(reqs, move |q| behave(g2.clone(), q), cfg)) {
            Some(Ok(rs)) => c08_judge(&mut o, &format!("{n} requests, limit {lim}"), &ids, &bs, &rs, true),
            _ => o.fail("no-result", format!("{n} requests, limit {lim}")),
        }
        let max = g.max.load(Ordering::SeqCst);
        if max > lim {
            o.fail("concurrency", format!("{n} requests, limit {lim}: {max} at once"));
        }
        o.observed = format!("{n} {lim} {max}");
        o
    });
    // two batches on one processor under schedules: counters add up
    explore(ctx, "two batches on one processor", Bounds::dev(ctx.by(2, 4)).secs(ctx.by(60, 600)), |ex| {
        let a: Vec<usize> = (0..2).map(|_| ex.choose(6)).collect();
        let b: Vec<usize> = vec![ex.choose(6)];
        let mut o = Outcome::default();
        let r = run_async(&ex, HOUR * 48, true, async {
            let p = Arc::new(BatchProcessor::new(ParallelBatchConfig { max_concurrency: 1, fail_fast: false, request_timeout_ms: Some(1000) }));
            let mut hs = vec![];
            for bs in [a.clone(), b.clone()] {
                let p = p.clone();
                hs.push(tokio::spawn(async move {
                    let g = Arc::new(Gauge::default());
                    let ids: Vec<RequestId> = (0..bs.len()).map(ids_for).collect();
                    let reqs = bs.iter().enumerate().map(|(k, b)| breq(ids[k].clone(), json!({"b": b, "k": k}))).collect();
                    let g2 = g.clone();
                    let rs = p.process(reqs, move |q| behave(g2.clone(), q)).await;
                    (ids, bs, rs, g.max.load(Ordering::SeqCst))
                }));
            }
            let mut out = vec![];
            for h in hs {
                out.push(h.await.unwrap());
            }
            let m = p.metrics().await;
            (out, (m.total_requests, m.successful_responses, m.error_responses, m.timeout_responses))
        });
        let Some((out, m)) = r else {
            deadlock(&mut o, "batch processing");
            return o;
        };
        for (ids, bs, rs, max) in &out {
            match rs {
                Ok(rs) => c08_judge(&mut o, "concurrent batches", ids, bs, rs, true),
                Err(e) => o.fail("no-result", e.to_string()),
            }
            if *max > 1 {
                o.fail("concurrency", format!("{max} handlers at once under limit 1"));
            }
        }
        let all: Vec<usize> = a.iter().chain(&b).copied().collect();
        let c = |f: &dyn Fn(usize) -> bool| all.iter().filter(|b| f(**b)).count() as u64;
        expect_eq(&mut o, "metrics", "metrics after two batches", m, (3, c(&|b| b < 3), c(&|b| b == 3 || b == 4), c(&|b| b == 5)));
        o.observed = format!("{a:?}{b:?}{m:?}");
        o
    });
    // through the server: mixed valid, unknown, malformed and failing requests
    let alpha: Vec<(Value, bool)> = vec![
        (json!({"method": "ping"}), true),
        (json!({"method": "tools/call", "params": {"name": "t", "arguments": {"wait": 50}}}), true),
        (json!({"method": "tools/call", "params": {"name": "t", "arguments": {"do": "err"}}}), false),
        (json!({"method": "nope"}), false),
        (json!({"method": "tools/call", "params": {"name": 1}}), false),
        (json!({"method": "tools/call", "params": {"name": "t", "arguments": {"wait": 100000}}}), false),
    ];
    for_all(ctx, "server batches up to 3", sequences_upto(alpha.len(), 3).flat_map(|s| [false, true].into_iter().map(move |x| (s.clone(), x))), |(s, json_in)| {
        let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
        let r = seq(async {
            let server = Arc::new(build(63, &Log::new(), &Log::new()));
            let vals: Vec<Value> = s.iter().enumerate().map(|(k, &m)| {
                let mut v = alpha[m].0.clone();
                v["jsonrpc"] = json!("2.0");
                v["id"] = serde_json::to_value(ids_for(k)).unwrap();
                v
            }).collect();
            let batch = if *json_in {
                BatchRequest::from_value(Value::Array(vals)).map_err(|e| e.to_string())?
            } else {
                BatchRequest::Batch(vals.into_iter().map(|v| serde_json::from_value(v).unwrap()).collect())
            };
            server.handle_batch_request(batch).await.map_err(|e| e.to_string())
        });
        match r {
            Some(Ok(b)) => {
                let rs = b.into_responses();
                o.observed = format!("{s:?}{}", rs.len());
                let ids: Vec<RequestId> = (0..s.len()).map(ids_for).collect();
                let got: Vec<RequestId> = rs.iter().map(|r| r.id.clone()).collect();
                if expect_eq(&mut o, "id-or-order", format!("server batch {s:?}: ids"), got, ids) {
                    for (k, r) in rs.iter().enumerate() {
                        let single = s.len() == 1 && s[0] == 5; // one request is not subject to the batch timeout
                        if r.is_success() != alpha[s[k]].1 && !single {
                            o.fail("content", format!("server batch {s:?}: response {k} {:?}", r.payload));
                        }
                    }
                }
            },
            other => o.fail("no-result", format!("server batch {s:?}: {other:?}")),
        }
        o
    });
}
