//! C10 what a client may send, C11 responses belong to their calls: the real
//! `Client` on a scripted transport.
use super::util::*;
use crate::aengine::*;
use crate::ctx::Ctx;
use crate::explore::*;
use async_trait::async_trait;
use pmcp::shared::{StdioTransport, Transport, TransportMessage};
use pmcp::types::jsonrpc::{JSONRPCError, ResponsePayload};
use pmcp::types::protocol::*;
use pmcp::types::{JSONRPCResponse, RequestId};
use pmcp::{Client, ClientCapabilities};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::mpsc;

/// What the peer does with a request it is given.
#[derive(Clone, Debug)]
pub enum Reply {
    Result(Value),
    Error(i32, &'static str),
    ReceiveFails,
    SendFails,
    NotAResponse,
}

/// Client side transport: every sent message is logged as its wire object and
/// given to the peer task over a channel.
#[derive(Debug)]
pub struct Peer {
    pub sent: Log<Value>,
    to_peer: mpsc::UnboundedSender<TransportMessage>,
    from_peer: mpsc::UnboundedReceiver<pmcp::Result<TransportMessage>>,
    fail_send: Arc<Mutex<Option<usize>>>,
    sends: usize,
    slow: bool,
}

pub struct PeerEnd {
    pub rx: mpsc::UnboundedReceiver<TransportMessage>,
    pub tx: mpsc::UnboundedSender<pmcp::Result<TransportMessage>>,
    pub sent: Log<Value>,
    pub fail_send: Arc<Mutex<Option<usize>>>,
}

pub fn peer(slow: bool) -> (Peer, PeerEnd) {
    let (a, rx) = mpsc::unbounded_channel();
    let (tx, b) = mpsc::unbounded_channel();
    let sent = Log::new();
    let fail_send = Arc::new(Mutex::new(None));
    (Peer { sent: sent.clone(), to_peer: a, from_peer: b, fail_send: fail_send.clone(), sends: 0, slow }, PeerEnd { rx, tx, sent, fail_send })
}

#[async_trait]
impl Transport for Peer {
    async fn send(&mut self, m: TransportMessage) -> pmcp::Result<()> {
        if self.slow {
            tokio::task::yield_now().await;
        }
        let k = self.sends;
        self.sends += 1;
        if *self.fail_send.lock().unwrap() == Some(k) {
            return Err(pmcp::Error::internal("send failed"));
        }
        let bytes = StdioTransport::serialize_message(&m)?;
        self.sent.push(serde_json::from_slice(&bytes).unwrap_or(Value::Null));
        let _ = self.to_peer.send(m);
        Ok(())
    }
    async fn receive(&mut self) -> pmcp::Result<TransportMessage> {
        match self.from_peer.recv().await {
            Some(r) => r,
            None => Err(pmcp::Error::internal("connection closed")),
        }
    }
    async fn close(&mut self) -> pmcp::Result<()> {
        Ok(())
    }
}

fn reply_message(id: &RequestId, r: &Reply) -> pmcp::Result<TransportMessage> {
    let payload = match r {
        Reply::Result(v) => ResponsePayload::Result(v.clone()),
        Reply::Error(c, m) => ResponsePayload::Error(JSONRPCError { code: *c, message: (*m).into(), data: Some(json!({"d": 1})) }),
        Reply::ReceiveFails | Reply::SendFails => return Err(pmcp::Error::internal("connection lost")),
        Reply::NotAResponse => {
            return Ok(TransportMessage::Request { id: RequestId::Number(1), request: Request::Client(Box::new(ClientRequest::Ping)) })
        },
    };
    Ok(TransportMessage::Response(JSONRPCResponse { jsonrpc: "2.0".into(), id: id.clone(), payload }))
}

fn from<T: serde::de::DeserializeOwned>(v: Value) -> T {
    serde_json::from_value(v).expect("typed value")
}

/// server capabilities from a bit set
fn caps(bits: usize) -> Value {
    let mut c = plain_caps(bits & ALL_CAPS);
    // bits above: how the capabilities speak of list changes
    if bits > ALL_CAPS {
        for k in ["tools", "prompts", "resources"] {
            if let Some(v) = c.get_mut(k) {
                v["listChanged"] = json!(bits >> 7 == 2);
            }
        }
    }
    c
}
fn plain_caps(bits: usize) -> Value {
    let mut c = serde_json::Map::new();
    for (i, k) in ["tools", "prompts", "logging", "completions", "sampling"].iter().enumerate() {
        if bits >> i & 1 == 1 {
            c.insert((*k).into(), json!({}));
        }
    }
    match bits >> 5 & 3 {
        1 => {
            c.insert("resources".into(), json!({}));
        },
        2 => {
            c.insert("resources".into(), json!({"subscribe": false}));
        },
        3 => {
            c.insert("resources".into(), json!({"subscribe": true}));
        },
        _ => {},
    }
    Value::Object(c)
}
const ALL_CAPS: usize = 0b111_1111;

struct Op {
    name: &'static str,
    /// wire method and params sent when allowed
    method: &'static str,
    params: Option<Value>,
    /// the served result
    result: Value,
    notification: bool,
}

/// The operations, with the reference of what goes over the wire.
fn ops() -> Vec<Op> {
    let o = |name, method, params, result| Op { name, method, params, result, notification: false };
    let msg = json!({"messages": [{"role": "user", "content": {"type": "text", "text": "q"}}], "includeContext": "none"});
    let mut v = vec![
        o("ping", "ping", None, json!({})),
        o("set_level", "logging/setLevel", Some(json!({"level": "warning"})), json!({})),
        o("list_tools", "tools/list", Some(json!({})), json!({"tools": [{"name": "t", "inputSchema": {"type": "object"}}]})),
        o("list_tools_page", "tools/list", Some(json!({"cursor": "c"})), json!({"tools": [], "nextCursor": "n"})),
        o("call_tool", "tools/call", Some(json!({"name": "t", "arguments": {"a": 1}})), json!({"content": [{"type": "text", "text": "x"}], "isError": false})),
        o("list_prompts", "prompts/list", Some(json!({"cursor": "c"})), json!({"prompts": [{"name": "p"}]})),
        o("get_prompt", "prompts/get", Some(json!({"name": "p", "arguments": {"k": "v"}})), json!({"messages": []})),
        o("list_resources", "resources/list", Some(json!({})), json!({"resources": [{"uri": "u", "name": "n"}]})),
        o("list_templates", "resources/templates/list", Some(json!({})), json!({"resourceTemplates": []})),
        o("read_resource", "resources/read", Some(json!({"uri": "u"})), json!({"contents": []})),
        o("subscribe", "resources/subscribe", Some(json!({"uri": "u"})), json!({})),
        o("unsubscribe", "resources/unsubscribe", Some(json!({"uri": "u"})), json!({})),
        o("complete", "completion/complete", Some(json!({"ref": {"type": "ref/prompt", "name": "p"}, "argument": {"name": "a", "value": "v"}})), json!({"completion": {"values": ["x"], "hasMore": false}})),
        o("create_message", "sampling/createMessage", Some(msg), json!({"content": {"type": "text", "text": "r"}, "model": "m"})),
    ];
    let n = |name, method, params| Op { name, method, params, result: Value::Null, notification: true };
    v.push(n("roots_changed", "notifications/roots/list_changed", None));
    v.push(n("cancel", "notifications/cancelled", Some(json!({"requestId": "9"}))));
    v.push(n("progress", "notifications/progress", Some(json!({"progressToken": "t", "progress": 1.0}))));
    v.push(Op { name: "authenticate", method: "", params: None, result: Value::Null, notification: true });
    v
}

fn allowed(op: &Op, bits: usize, roots: usize) -> bool {
    let res = bits >> 5 & 3;
    match op.name {
        "ping" | "cancel" | "progress" | "authenticate" => true,
        "set_level" => bits >> 2 & 1 == 1,
        "list_tools" | "list_tools_page" | "call_tool" => bits & 1 == 1,
        "list_prompts" | "get_prompt" => bits >> 1 & 1 == 1,
        "list_resources" | "list_templates" | "read_resource" | "unsubscribe" => res != 0,
        "subscribe" => res == 3,
        "complete" => bits >> 3 & 1 == 1,
        "create_message" => bits >> 4 & 1 == 1,
        "roots_changed" => roots == 2,
        _ => unreachable!(),
    }
}

async fn invoke(c: &Client<Peer>, op: &Op) -> pmcp::Result<Value> {
    let v = |r: pmcp::Result<()>| r.map(|()| json!({}));
    fn w<T: serde::Serialize>(r: pmcp::Result<T>) -> pmcp::Result<Value> {
        r.map(|x| serde_json::to_value(x).unwrap())
    }
    match op.name {
        "ping" => v(c.ping().await),
        "set_level" => v(c.set_logging_level(LoggingLevel::Warning).await),
        "list_tools" => w(c.list_tools(None).await),
        "list_tools_page" => w(c.list_tools(Some("c".into())).await),
        "call_tool" => w(c.call_tool("t".into(), json!({"a": 1})).await),
        "list_prompts" => w(c.list_prompts(Some("c".into())).await),
        "get_prompt" => w(c.get_prompt("p".into(), HashMap::from([("k".to_string(), "v".to_string())])).await),
        "list_resources" => w(c.list_resources(None).await),
        "list_templates" => w(c.list_resource_templates(None).await),
        "read_resource" => w(c.read_resource("u".into()).await),
        "subscribe" => v(c.subscribe_resource("u".into()).await),
        "unsubscribe" => v(c.unsubscribe_resource("u".into()).await),
        "complete" => w(c.complete(from(op.params.clone().unwrap())).await),
        "create_message" => w(c.create_message(from(op.params.clone().unwrap())).await),
        "roots_changed" => c.send_roots_list_changed().await.map(|()| Value::Null),
        "cancel" => c.cancel_request(&RequestId::String("9".into())).await.map(|()| Value::Null),
        "progress" => c.send_progress(ProgressNotification { progress_token: ProgressToken::String("t".into()), progress: 1.0, message: None }).await.map(|()| Value::Null),
        "authenticate" => c.authenticate(&from(json!({"scheme": "bearer", "token": "x"}))).map(|()| Value::Null),
        _ => unreachable!(),
    }
}

/// does `got` contain everything in `want` (extra nulls / defaults allowed)?
fn covers(got: &Value, want: &Value) -> bool {
    match (got, want) {
        (Value::Object(g), Value::Object(w)) => w.iter().all(|(k, v)| g.get(k).is_some_and(|x| covers(x, v))),
        (Value::Array(g), Value::Array(w)) => g.len() == w.len() && g.iter().zip(w).all(|(a, b)| covers(a, b)),
        _ => got == want,
    }
}
/// compare ignoring members that are null
fn params_eq(got: Option<&Value>, want: Option<&Value>) -> bool {
    let norm = |v: Option<&Value>| match v {
        Some(Value::Object(m)) => {
            let m: serde_json::Map<String, Value> = m.iter().filter(|(k, v)| !v.is_null() && k.as_str() != "reason").map(|(k, v)| (k.clone(), v.clone())).collect();
            if m.is_empty() { Value::Null } else { Value::Object(m) }
        },
        Some(v) => v.clone(),
        None => Value::Null,
    };
    super::serverloop::same_json(&norm(got), &norm(want))
}

/// check the messages sent by one operation
fn check_sent(o: &mut Outcome, what: &str, sent: &[Value], want: &[(&str, Option<Value>, bool)]) {
    if sent.len() != want.len() {
        let extra = sent.len() > want.len();
        o.fail(if want.is_empty() { "sent-though-refused" } else if extra { "sent-too-much" } else { "not-sent" }, format!("{what}: sent {sent:?}, expected {want:?}"));
        return;
    }
    for (s, (m, p, note)) in sent.iter().zip(want) {
        if s["method"] != *m || !params_eq(s.get("params"), p.as_ref()) || s.get("id").is_none() != *note || s["jsonrpc"] != "2.0" {
            o.fail("wrong-message", format!("{what}: sent {s}, expected method {m}, params {p:?}, notification={note}"));
        }
    }
}

fn init_result(version: &str, bits: usize) -> Value {
    json!({"protocolVersion": version, "capabilities": caps(bits), "serverInfo": {"name": "srv", "version": "9"}, "instructions": "do"})
}

/// how the server treats initialization
fn init_replies() -> Vec<(Reply, bool)> {
    let mut v: Vec<(Reply, bool)> = pmcp::SUPPORTED_PROTOCOL_VERSIONS.iter().enumerate().map(|(k, x)| (Reply::Result(init_result(x, if k == 0 { ALL_CAPS } else { ALL_CAPS & !(1 << (k % 3)) })), true)).collect();
    for bad in ["", "1.0", "2024-11-04", "2024-11-05 ", "2099-01-01"] {
        v.push((Reply::Result(init_result(bad, ALL_CAPS)), false));
    }
    // bare answers: no instructions, no capabilities
    for mut x in [init_result(pmcp::LATEST_PROTOCOL_VERSION, ALL_CAPS), json!({"protocolVersion": pmcp::LATEST_PROTOCOL_VERSION, "capabilities": {}, "serverInfo": {"name": "srv", "version": "9"}})] {
        x.as_object_mut().unwrap().remove("instructions");
        v.push((Reply::Result(x), true));
    }
    v.push((Reply::Result(json!({})), false));
    v.push((Reply::Result(Value::Null), false));
    v.push((Reply::Result(json!({"protocolVersion": "2024-11-05"})), false));
    v.push((Reply::Error(-32602, "no"), false));
    v.push((Reply::Error(-32603, "boom"), false));
    v.push((Reply::ReceiveFails, false));
    v.push((Reply::SendFails, false));
    v.push((Reply::NotAResponse, false));
    v
}

fn client_caps(roots: usize) -> ClientCapabilities {
    from(match roots {
        0 => json!({}),
        1 => json!({"roots": {"listChanged": false}}),
        _ => json!({"roots": {"listChanged": true}}),
    })
}

/// run `f` against a peer that answers requests by `replies` in turn
async fn serve(mut end: PeerEnd, replies: Arc<Mutex<std::collections::VecDeque<Reply>>>) {
    while let Some(m) = end.rx.recv().await {
        if let TransportMessage::Request { id, .. } = m {
            let r = replies.lock().unwrap().pop_front().unwrap_or(Reply::ReceiveFails);
            let _ = end.tx.send(reply_message(&id, &r));
        }
    }
}

pub fn c10(ctx: &Ctx) {
    let alpha = ops();
    // every capability set x client roots capability x operation x answer
    for_all(
        ctx,
        "capability sets x operations",
        (0..3 * (ALL_CAPS + 1)).flat_map(|b| (0..3usize).map(move |r| (b, r))),
        |&(bits, roots)| {
            let mut o = Outcome::default();
            seq(async {
                for op in &alpha {
                    for answer in 0..3 {
                        let (p, end) = peer(false);
                        let sent = end.sent.clone();
                        let replies = Arc::new(Mutex::new([Reply::Result(init_result(pmcp::LATEST_PROTOCOL_VERSION, bits))].into_iter().collect::<std::collections::VecDeque<_>>()));
                        replies.lock().unwrap().push_back(match answer {
                            0 => Reply::Result(op.result.clone()),
                            1 => Reply::Error(-32002, "refused"),
                            _ => Reply::ReceiveFails,
                        });
                        let h = tokio::spawn(serve(end, replies));
                        let mut c = Client::new(p);
                        let what = format!("server capabilities {}, client roots {roots}, {} (answer {answer})", caps(bits), op.name);
                        if let Err(e) = c.initialize(client_caps(roots)).await {
                            o.fail("initialize", format!("{what}: initialize failed: {e}"));
                            continue;
                        }
                        let init = sent.take();
                        check_sent(
                            &mut o,
                            &what,
                            &init,
                            &[
                                ("initialize", Some(json!({"protocolVersion": pmcp::LATEST_PROTOCOL_VERSION, "capabilities": serde_json::to_value(client_caps(roots)).unwrap(), "clientInfo": {"name": "pmcp-client", "version": init[0]["params"]["clientInfo"]["version"]}})), false),
                                ("notifications/initialized", None, true),
                            ],
                        );
                        let r = invoke(&c, op).await;
                        let ok = allowed(op, bits, roots);
                        let s = sent.take();
                        if ok && op.name != "authenticate" {
                            check_sent(&mut o, &what, &s, &[(op.method, op.params.clone(), op.notification)]);
                        } else {
                            check_sent(&mut o, &what, &s, &[]);
                        }
                        match (&r, ok, answer, op.notification) {
                            (Err(_), false, ..) => {},
                            (Ok(v), true, _, true) if v.is_null() => {},
                            (Ok(v), true, 0, false) if covers(v, &op.result) => {},
                            (Err(e), true, 1, false) if e.error_code().map(|c| c.as_i32()) == Some(-32002) || e.to_string().contains("refused") => {},
                            (Err(_), true, 2, false) => {},
                            _ => o.fail("result", format!("{what}: returned {r:?}")),
                        }
                        o.transitions += 3;
                        h.abort();
                    }
                }
            });
            o.observed = format!("{bits} {roots}");
            o
        },
    );
    // histories: initializations of every kind, operations before and after
    let inits = init_replies();
    let pool: Vec<usize> = [0usize, 2, 4, 14, 15, 16, 17].to_vec(); // ping, list_tools, call_tool, roots, cancel, progress, authenticate
    let n = inits.len() + 1 + pool.len(); // + one: initialized notification cannot be sent
    let len = ctx.by(4, 5);
    for_all(ctx, &format!("histories of initializations and operations, length {len}"), sequences(n, len), |s| {
        let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
        seq(async {
            let (p, end) = peer(false);
            let sent = end.sent.clone();
            let fail = end.fail_send.clone();
            let replies = Arc::new(Mutex::new(std::collections::VecDeque::new()));
            let h = tokio::spawn(serve(end, replies.clone()));
            let mut c = Client::new(p);
            let mut initialized = false;
            let mut given = Value::Null;
            let mut offered = 2;
            let mut sends = 0usize;
            for (k, &i) in s.iter().enumerate() {
                let what = format!("history {s:?} step {k}");
                replies.lock().unwrap().clear();
                if i <= inits.len() {
                    let note_fails = i == inits.len();
                    let (mut reply, good) = if note_fails { inits[0].clone() } else { inits[i].clone() };
                    if let (true, Reply::Result(v)) = (note_fails, &mut reply) {
                        // another server than the one that answers later
                        v["serverInfo"] = json!({"name": "first", "version": "1"});
                        v["instructions"] = json!("first");
                        v["capabilities"] = json!({"prompts": {}});
                    }
                    let offers = (i + k) % 2 * 2;
                    *fail.lock().unwrap() = if note_fails { Some(sends + 1) } else if matches!(reply, Reply::SendFails) { Some(sends) } else { None };
                    replies.lock().unwrap().push_back(reply.clone());
                    let r = c.initialize(client_caps(offers)).await;
                    let out = sent.take();
                    if let Some(first) = out.first() {
                        expect_eq(&mut o, "initialize-messages", format!("{what}: capabilities offered"), first["params"]["capabilities"].clone(), serde_json::to_value(client_caps(offers)).unwrap());
                    }
                    let methods: Vec<&str> = out.iter().filter_map(|v| v["method"].as_str()).collect();
                    if initialized {
                        if r.is_ok() {
                            o.fail("second-initialize", format!("{what}: accepted"));
                        }
                        check_sent(&mut o, &what, &out, &[]);
                    } else {
                        let want: &[&str] = match (&reply, good && !note_fails) {
                            (Reply::SendFails, _) => &[],
                            (_, true) => &["initialize", "notifications/initialized"],
                            _ => &["initialize"],
                        };
                        expect_eq(&mut o, "initialize-messages", &what, methods.clone(), want.to_vec());
                        let good = good && !note_fails;
                        if r.is_ok() != good {
                            o.fail("initialize-result", format!("{what}: reply {reply:?}: returned {r:?}"));
                        }
                        if good {
                            if let Reply::Result(v) = &reply {
                                given = v.clone();
                            }
                            offered = offers;
                        }
                        initialized |= good;
                        sends += match (&reply, note_fails) {
                            (Reply::SendFails, _) => 1,
                            (_, true) => 2,
                            _ => want.len(),
                        };
                    }
                    *fail.lock().unwrap() = None;
                    if initialized {
                        let caps = c.get_server_capabilities().map(|c| serde_json::to_value(c).unwrap());
                        let kinds = |v: &Value| v.as_object().map(|m| m.iter().filter(|(_, v)| !v.is_null()).map(|(k, _)| k.clone()).collect::<std::collections::BTreeSet<_>>());
                        if !caps.as_ref().is_some_and(|c| covers(c, &given["capabilities"]) && kinds(c) == kinds(&given["capabilities"])) {
                            o.fail("server-info", format!("{what}: capabilities {caps:?}"));
                        }
                        expect_eq(&mut o, "server-info", format!("{what}: version"), c.get_server_version().map(|v| (v.name.clone(), v.version.clone())), Some(("srv".into(), "9".into())));
                        expect_eq(&mut o, "server-info", format!("{what}: instructions"), c.get_instructions().map(String::from), given["instructions"].as_str().map(String::from));
                    }
                } else {
                    let op = &alpha[pool[i - inits.len() - 1]];
                    replies.lock().unwrap().push_back(Reply::Result(op.result.clone()));
                    let r = invoke(&c, op).await;
                    let out = sent.take();
                    sends += out.len();
                    let what = format!("{what} {} (initialized={initialized})", op.name);
                    let ok = initialized && (op.method.split('/').next() != Some("tools") || given["capabilities"].get("tools").is_some()) && (op.name != "roots_changed" || offered == 2);
                    if ok && op.name != "authenticate" {
                        check_sent(&mut o, &what, &out, &[(op.method, op.params.clone(), op.notification)]);
                    } else {
                        check_sent(&mut o, &what, &out, &[]);
                    }
                    if r.is_ok() != ok {
                        o.fail("result", format!("{what}: {r:?}"));
                    }
                }
            }
            h.abort();
        });
        o.observed = format!("{s:?}");
        o
    });
    // concurrent operations before / during initialization of a shared transport
    explore(ctx, "a clone taken before initialization", Bounds::dev(ctx.by(3, 5)).secs(ctx.by(60, 600)), |ex| {
        let op_i = ex.choose(alpha.len());
        let op = &alpha[op_i];
        let mut o = Outcome::default();
        let r = run_async(&ex, HOUR, true, async {
            let (p, end) = peer(true);
            let sent = end.sent.clone();
            let replies = Arc::new(Mutex::new((0..3).map(|_| Reply::Result(init_result(pmcp::LATEST_PROTOCOL_VERSION, ALL_CAPS))).collect()));
            let h = tokio::spawn(serve(end, replies));
            let mut c = Client::new(p);
            let early = c.clone();
            let name = op.name;
            let h2 = tokio::spawn(async move {
                let alpha = ops();
                let op = alpha.iter().find(|o| o.name == name).unwrap();
                invoke(&early, op).await.is_ok()
            });
            let a = c.initialize(client_caps(2)).await.is_ok();
            let b = h2.await.unwrap();
            h.abort();
            (a, b, sent.get())
        });
        let Some((a, b, sent)) = r else {
            deadlock(&mut o, "initialization beside another call");
            return o;
        };
        if !a || b {
            o.fail("clone", format!("{}: initialize ok={a}, uninitialized clone's call ok={b}", op.name));
        }
        let m: Vec<&str> = sent.iter().filter_map(|v| v["method"].as_str()).collect();
        expect_eq(&mut o, "initialize-messages", op.name, m, vec!["initialize", "notifications/initialized"]);
        o.observed = op.name.into();
        o
    });
}

// ------------------------------------------------------------ C11

/// what the peer does about the k-th request it sees
#[derive(Clone, Copy, Debug, PartialEq)]
enum Behave {
    Now,
    Late,
    NoteFirst,
    Error,
    /// hold the answer until another request has been answered
    AfterNext,
}
const BEHAVE: [Behave; 5] = [Behave::Now, Behave::Late, Behave::NoteFirst, Behave::Error, Behave::AfterNext];

async fn echo_server(mut end: PeerEnd, plan: Vec<Behave>, seen: Log<(RequestId, Value)>) {
    let mut held: Vec<pmcp::Result<TransportMessage>> = vec![];
    let mut k = 0;
    loop {
        let m = match tokio::time::timeout(Duration::from_millis(if held.is_empty() { 1_000_000 } else { 300 }), end.rx.recv()).await {
            Ok(Some(m)) => m,
            Ok(None) => return,
            Err(_) => {
                for h in held.drain(..) {
                    let _ = end.tx.send(h);
                }
                continue;
            },
        };
        let TransportMessage::Request { id, request } = m else { continue };
        let v = serde_json::to_value(&request).unwrap();
        let name = v["params"]["name"].clone();
        seen.push((id.clone(), name.clone()));
        let b = plan.get(k).copied().unwrap_or(Behave::Now);
        k += 1;
        let r = if b == Behave::Error {
            TransportMessage::Response(JSONRPCResponse { jsonrpc: "2.0".into(), id: id.clone(), payload: ResponsePayload::Error(JSONRPCError { code: -32000, message: name.as_str().unwrap_or("").into(), data: None }) })
        } else {
            TransportMessage::Response(JSONRPCResponse { jsonrpc: "2.0".into(), id: id.clone(), payload: ResponsePayload::Result(json!({"content": [{"type": "text", "text": name}], "isError": false})) })
        };
        match b {
            Behave::Late => tokio::time::sleep(Duration::from_millis(100)).await,
            Behave::NoteFirst => {
                let _ = end.tx.send(Ok(TransportMessage::Notification(Notification::Server(ServerNotification::ToolsChanged))));
            },
            Behave::AfterNext => {
                held.push(Ok(r));
                continue;
            },
            _ => {},
        }
        let _ = end.tx.send(Ok(r));
        for h in held.drain(..) {
            let _ = end.tx.send(h);
        }
    }
}

async fn initialized(plan: Vec<Behave>, slow: bool) -> (Client<Peer>, tokio::task::JoinHandle<()>, Log<(RequestId, Value)>) {
    let (p, mut end) = peer(slow);
    let seen = Log::new();
    let s2 = seen.clone();
    let h = tokio::spawn(async move {
        if let Some(TransportMessage::Request { id, .. }) = end.rx.recv().await {
            let _ = end.tx.send(reply_message(&id, &Reply::Result(init_result(pmcp::LATEST_PROTOCOL_VERSION, ALL_CAPS))));
        }
        echo_server(end, plan, s2).await;
    });
    let mut c = Client::new(p);
    let _ = c.initialize(client_caps(2)).await;
    (c, h, seen)
}

fn text_of(r: &pmcp::Result<CallToolResult>) -> Result<String, String> {
    match r {
        Ok(v) => Ok(serde_json::to_value(v).unwrap()["content"][0]["text"].as_str().unwrap_or("?").to_string()),
        Err(e) => Err(e.to_string()),
    }
}

fn c11_judge(o: &mut Outcome, what: &str, name: &str, r: &Result<String, String>, plan_errors: bool, others: &[String]) {
    match r {
        Ok(t) if t == name => {},
        Ok(t) => o.fail("foreign-response", format!("{what}: the call {name} returned the response to {t}")),
        Err(e) => {
            if others.iter().any(|n| n != name && e.contains(n.as_str())) {
                o.fail("foreign-error", format!("{what}: the call {name} returned the error of another: {e}"));
            } else if !plan_errors || !e.contains(name) {
                o.fail("call-failed", format!("{what}: the call {name} failed: {e}"));
            }
        },
    }
}

/// Many calls in flight at once from clones of one client.
fn c11_many(ctx: &Ctx) {
    let cases = SIZES.iter().flat_map(|&n| (0..4usize).map(move |k| (n, k)));
    for_all(ctx, "many concurrent calls", cases, |&(n, mix)| {
        let mut o = Outcome { transitions: n as u64, ..Default::default() };
        let plan: Vec<Behave> = (0..n)
            .map(|k| match mix {
                0 => Behave::Now,
                1 => Behave::Error,
                2 => [Behave::AfterNext, Behave::Now][k % 2],
                _ => BEHAVE[k % BEHAVE.len()],
            })
            .collect();
        let p2 = plan.clone();
        let r = seq(async {
            let (c, h, seen) = initialized(p2, false).await;
            let hs: Vec<_> = (0..n)
                .map(|k| {
                    let c = c.clone();
                    tokio::spawn(async move { c.call_tool(format!("call-{k}."), json!({})).await })
                })
                .collect();
            let mut rs = vec![];
            for h in hs {
                rs.push(text_of(&h.await.unwrap()));
            }
            h.abort();
            (rs, seen.get())
        });
        let what = format!("{n} concurrent calls, mix {mix}");
        let Some((rs, seen)) = r else {
            deadlock(&mut o, &format!("{what}: a call never ended although the server answered"));
            return o;
        };
        let names: Vec<String> = (0..n).map(|k| format!("call-{k}.")).collect();
        for (k, r) in rs.iter().enumerate() {
            let at = seen.iter().position(|(_, v)| v == &json!(names[k]));
            let errs = at.and_then(|i| plan.get(i)) == Some(&Behave::Error);
            c11_judge(&mut o, &what, &names[k], r, errs, &names);
            if errs && r.is_ok() {
                o.fail("error-as-result", format!("{what}: {r:?}"));
            }
        }
        let ids: std::collections::BTreeSet<String> = seen.iter().map(|(i, _)| format!("{i:?}")).collect();
        expect_eq(&mut o, "request-ids", format!("{what}: distinct ids"), ids.len(), n);
        o.fails.truncate(3);
        o.observed = what;
        o
    });
}

pub fn c11(ctx: &Ctx) {
    c11_many(ctx);
    explore(ctx, "concurrent calls from clones", Bounds::dev(ctx.by(2, 4)).secs(ctx.by(150, 1800)), |ex| {
        let n = 2 + ex.choose(2);
        let plan: Vec<Behave> = (0..n).map(|_| BEHAVE[ex.choose(BEHAVE.len())]).collect();
        let slow = ex.choose(2) == 1;
        let mut o = Outcome::default();
        let p2 = plan.clone();
        let r = run_async(&ex, HOUR, true, async {
            let (c, h, seen) = initialized(p2, slow).await;
            let hs: Vec<_> = (0..n)
                .map(|k| {
                    let c = c.clone();
                    tokio::spawn(async move { c.call_tool(format!("call-{k}"), json!({})).await })
                })
                .collect();
            let mut rs = vec![];
            for h in hs {
                rs.push(text_of(&h.await.unwrap()));
            }
            h.abort();
            (rs, seen.get())
        });
        let Some((rs, seen)) = r else {
            deadlock(&mut o, "concurrent calls: a call never ended although the server answered");
            return o;
        };
        let names: Vec<String> = (0..n).map(|k| format!("call-{k}")).collect();
        let what = format!("server plan {plan:?}");
        for (k, r) in rs.iter().enumerate() {
            let at = seen.iter().position(|(_, v)| v == &json!(names[k]));
            let errs = at.and_then(|i| plan.get(i)) == Some(&Behave::Error);
            c11_judge(&mut o, &what, &names[k], r, errs, &names);
            if errs && r.is_ok() {
                o.fail("error-as-result", format!("{what}: {r:?}"));
            }
        }
        let mut ids: Vec<String> = seen.iter().map(|(i, _)| format!("{i:?}")).collect();
        ids.sort();
        ids.dedup();
        expect_eq(&mut o, "request-ids", format!("{what}: distinct ids"), ids.len(), n);
        o.observed = format!("{rs:?}");
        o
    });
    // sequential histories with abandoned calls (dropped while waiting)
    let len = ctx.by(3, 4);
    let kinds = 2 * BEHAVE.len(); // behaviour x (abandon after 50ms or wait)
    explore(ctx, &format!("histories with abandoned calls, length {len}"), Bounds::dev(ctx.by(0, 1)).secs(ctx.by(120, 1200)), |ex| {
        let s: Vec<usize> = (0..len).map(|_| ex.choose(kinds)).collect();
        let pause = ex.choose(2) == 1;
        let mut o = Outcome { transitions: len as u64, ..Default::default() };
        let r = run_async(&ex, HOUR, true, async {
            let plan: Vec<Behave> = s.iter().map(|k| BEHAVE[k / 2]).collect();
            let (c, h, seen) = initialized(plan, false).await;
            let mut rs = vec![];
            for (k, i) in s.iter().enumerate() {
                let call = c.call_tool(format!("call-{k}"), json!({}));
                let r = if i % 2 == 1 { tokio::time::timeout(Duration::from_millis(50), call).await.ok() } else { Some(call.await) };
                rs.push(r.map(|r| text_of(&r)));
                if pause {
                    tokio::time::sleep(Duration::from_millis(500)).await;
                }
            }
            h.abort();
            (rs, seen.len())
        });
        let what = format!("history {:?} pause={pause}", s.iter().map(|k| (BEHAVE[k / 2], k % 2 == 1)).collect::<Vec<_>>());
        let Some((rs, seen)) = r else {
            deadlock(&mut o, &what);
            return o;
        };
        if seen > len {
            o.fail("requests-sent", format!("{what}: {seen} requests for {len} calls"));
        }
        let names: Vec<String> = (0..len).map(|k| format!("call-{k}")).collect();
        for (k, r) in rs.iter().enumerate() {
            if let Some(r) = r {
                c11_judge(&mut o, &what, &names[k], r, BEHAVE[s[k] / 2] == Behave::Error, &names);
            }
        }
        o.observed = format!("{rs:?}");
        o
    });
    // abandonment at every await point while another clone is calling
    explore(ctx, "abandoning one of two concurrent calls", Bounds::dev(ctx.by(2, 4)).secs(ctx.by(60, 900)), |ex| {
        let plan: Vec<Behave> = (0..2).map(|_| BEHAVE[ex.choose(BEHAVE.len())]).collect();
        let cut = [0u64, 1, 50, 100, 101][ex.choose(5)];
        let mut o = Outcome::default();
        let p2 = plan.clone();
        let r = run_async(&ex, HOUR, true, async {
            let (c, h, _) = initialized(p2, true).await;
            let (c1, c2) = (c.clone(), c.clone());
            let a = tokio::spawn(async move { tokio::time::timeout(Duration::from_millis(cut), c1.call_tool("call-0".into(), json!({}))).await.ok() });
            let b = tokio::spawn(async move { c2.call_tool("call-1".into(), json!({})).await });
            let a = a.await.unwrap();
            let b = b.await.unwrap();
            let last = c.call_tool("call-2".into(), json!({})).await;
            h.abort();
            (a.map(|r| text_of(&r)), text_of(&b), text_of(&last))
        });
        let what = format!("plan {plan:?}, first call abandoned after {cut}ms");
        let Some((a, b, last)) = r else {
            deadlock(&mut o, &what);
            return o;
        };
        let names: Vec<String> = (0..3).map(|k| format!("call-{k}")).collect();
        let e = plan.contains(&Behave::Error);
        if let Some(a) = &a {
            c11_judge(&mut o, &what, "call-0", a, e, &names);
        }
        c11_judge(&mut o, &what, "call-1", &b, e, &names);
        c11_judge(&mut o, &what, "call-2", &last, e, &names);
        o.observed = format!("{a:?} {b:?} {last:?}");
        o
    });
}
