//! C04 cancellation, C07 dynamic registry, C09 elicitation.
use super::util::*;
use crate::aengine::*;
use crate::ctx::Ctx;
use crate::explore::*;
use async_trait::async_trait;
use pmcp::server::cancellation::{CancellationManager, RequestHandlerExtra};
use pmcp::server::dynamic::{DynamicConfig, DynamicConfigBuilder, DynamicServerManager};
use pmcp::server::elicitation::ElicitationManager;
use pmcp::shared::batch::{BatchRequest, BatchResponse};
use pmcp::types::elicitation::{ElicitInputRequest, ElicitInputResponse, InputType};
use pmcp::types::protocol::{Notification, ServerRequest};
use pmcp::types::{ClientNotification, JSONRPCRequest, RequestId};
use pmcp::{Server, ToolHandler};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use std::time::Duration;

// ---------------------------------------------------------------- C04

fn cancel_manager(log: &Log<(String, Option<String>)>) -> CancellationManager {
    let mut m = CancellationManager::new();
    let l = log.clone();
    m.set_notification_sender(Arc::new(move |n| match n {
        Notification::Client(ClientNotification::Cancelled(c)) => l.push((c.request_id.to_string(), c.reason)),
        other => l.push((format!("?{other:?}"), None)),
    }));
    m
}

#[derive(Clone, Copy, Debug)]
enum CanOp {
    Create(usize),
    Cancel(usize, bool),
    Remove(usize),
    External(usize),
    Clear,
}

pub fn c04(ctx: &Ctx) {
    let pairs: &[[&str; 2]] = &[["1", "11"], ["", " "], ["req", "REQ"]];
    let mut ops = vec![CanOp::Clear];
    for i in 0..2 {
        ops.extend([CanOp::Create(i), CanOp::Cancel(i, true), CanOp::Cancel(i, false), CanOp::Remove(i), CanOp::External(i)]);
    }
    for (pi, ids) in pairs.iter().enumerate() {
        let depth = if pi == 0 { ctx.by(6, 7) } else { 4 };
        for_all(ctx, &format!("histories over ids {ids:?}, length {depth}"), sequences(ops.len(), depth), |s| {
            let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
            seq(async {
                let log = Log::new();
                let m = cancel_manager(&log);
                // every token ever issued: (token, id, cancelled by model, superseded)
                let mut toks: Vec<(tokio_util_token::Tok, usize, bool, bool)> = vec![];
                let mut cur: [Option<usize>; 2] = [None, None];
                let mut notes = vec![];
                for (k, &i) in s.iter().enumerate() {
                    let at = format!("after {:?}", s[..=k].iter().map(|&i| ops[i]).collect::<Vec<_>>());
                    match ops[i] {
                        CanOp::Create(i) => {
                            let t = m.create_token(ids[i].into()).await;
                            if let Some(old) = cur[i] {
                                toks[old].3 = true;
                            }
                            toks.push((tokio_util_token::Tok::new(ids[i], t), i, false, false));
                            cur[i] = Some(toks.len() - 1);
                        },
                        CanOp::Cancel(i, r) => {
                            let reason = r.then(|| "why".to_string());
                            if m.cancel_request(ids[i].into(), reason.clone()).await.is_err() {
                                o.fail("cancel-error", format!("{at}: cancel_request failed"));
                            }
                            if let Some(t) = cur[i].take() {
                                toks[t].2 = true;
                                notes.push((ids[i].to_string(), reason));
                            }
                        },
                        CanOp::Remove(i) => {
                            m.remove_token(ids[i]).await;
                            cur[i] = None;
                        },
                        CanOp::External(i) => {
                            if let Some(t) = cur[i] {
                                toks[t].0.cancel();
                                toks[t].2 = true;
                            }
                        },
                        CanOp::Clear => {
                            m.clear().await;
                            for c in &mut cur {
                                if let Some(t) = c.take() {
                                    toks[t].2 = true;
                                }
                            }
                        },
                    }
                    for (n, (t, i, want, superseded)) in toks.iter().enumerate() {
                        if *superseded {
                            continue; // its id was registered again: either reading is defensible
                        }
                        let got = t.is_cancelled();
                        if got != *want {
                            o.fail(if got { "cancelled-wrongly" } else { "not-cancelled" }, format!("{at}: token {n} of request {:?}: cancelled={got}", ids[*i]));
                        }
                    }
                    for i in 0..2 {
                        let has = m.get_token(ids[i]).await;
                        match (has, cur[i]) {
                            (Some(t), Some(c)) => {
                                expect_eq(&mut o, "table", format!("{at}: token in table for {:?} is cancelled", ids[i]), t.is_cancelled(), toks[c].2);
                                expect_eq(&mut o, "is-cancelled", format!("{at}: is_cancelled({:?})", ids[i]), m.is_cancelled(ids[i]).await, toks[c].2);
                            },
                            (None, None) => {},
                            (h, _) => o.fail("table", format!("{at}: request {:?} registered={}, expected {}", ids[i], h.is_some(), cur[i].is_some())),
                        }
                    }
                    let got = log.get();
                    let same = got.len() == notes.len()
                        && got.iter().zip(&notes).all(|(g, w)| g.0 == w.0 && (w.1.is_none() || g.1 == w.1));
                    if !same {
                        o.fail("notices", format!("{at}: peer notices {got:?}, expected {notes:?}"));
                    }
                    if !o.fails.is_empty() {
                        return;
                    }
                }
                o.observed = format!("{:?}", toks.iter().map(|t| (t.1, t.2)).collect::<Vec<_>>());
            });
            o
        });
    }
    // concurrent cancel / finish / register with waiters
    explore(ctx, "cancel, finish and register racing, with waiters", Bounds::dev(ctx.by(4, 5)).secs(ctx.by(60, 900)), |ex| {
        let acts: Vec<usize> = (0..2).map(|_| ex.choose(5)).collect();
        let mut o = Outcome::default();
        let r = run_async(&ex, HOUR, true, async {
            let log = Log::new();
            let m = Arc::new(cancel_manager(&log));
            let a = m.create_token("a".into()).await;
            let b = m.create_token("b".into()).await;
            let mut waiters = vec![];
            for (n, t) in [("a", a.clone()), ("b", b.clone())] {
                let extra = RequestHandlerExtra::new(n.into(), t);
                waiters.push(tokio::spawn(async move { tokio::time::timeout(Duration::from_secs(5), extra.cancelled()).await.is_ok() }));
            }
            let mut ds = vec![];
            for act in acts.clone() {
                let m = m.clone();
                ds.push(tokio::spawn(async move {
                    match act {
                        0 | 1 => m.cancel_request("a".into(), None).await.unwrap(),
                        2 => m.remove_token("a").await,
                        3 => m.cancel_request("b".into(), Some("x".into())).await.unwrap(),
                        _ => {
                            m.create_token("c".into()).await;
                            m.remove_token("b").await;
                        },
                    }
                }));
            }
            for d in ds {
                d.await.unwrap();
            }
            let mut seen = vec![];
            for w in waiters {
                seen.push(w.await.unwrap());
            }
            (seen, sorted(log.get().into_iter().map(|x| x.0).collect()), a.is_cancelled(), b.is_cancelled(), m.get_token("a").await.is_some(), m.get_token("b").await.is_some())
        });
        let Some((seen, notes, a, b, ta, tb)) = r else {
            deadlock(&mut o, "cancellation operations");
            return o;
        };
        o.observed = format!("{seen:?} {notes:?} {a} {b}");
        let cancels_a = acts.iter().filter(|x| **x < 2).count();
        let removes_a = acts.contains(&2);
        let na = notes.iter().filter(|n| *n == "a").count();
        let nb = notes.iter().filter(|n| *n == "b").count();
        if seen != vec![a, b] {
            o.fail("waiter", format!("{acts:?}: waiters finished {seen:?} but cancelled = {:?}", (a, b)));
        }
        if na > 1 || nb > 1 {
            o.fail("notices", format!("{acts:?}: told more than once: {notes:?}"));
        }
        if (na == 1) != a || (nb == 1) != b {
            o.fail("notices", format!("{acts:?}: cancelled {:?} but notices {notes:?}", (a, b)));
        }
        if a && cancels_a == 0 || b && !acts.contains(&3) {
            o.fail("cancelled-wrongly", format!("{acts:?}: cancelled {:?}", (a, b)));
        }
        if cancels_a > 0 && !removes_a && !a || acts.contains(&3) && !acts.contains(&4) && !b {
            o.fail("not-cancelled", format!("{acts:?}: cancelled {:?}", (a, b)));
        }
        if ta != (cancels_a == 0 && !removes_a) || tb != (!acts.contains(&3) && !acts.contains(&4)) {
            o.fail("table", format!("{acts:?}: still registered a={ta} b={tb}"));
        }
        o
    });
    // many requests in progress
    for_all(ctx, "many requests in progress", SIZES.iter().flat_map(|&n| [(n, false), (n, true)]), |&(n, rev)| {
        let mut o = Outcome { transitions: 2 * n as u64, ..Default::default() };
        seq(async {
            let log = Log::new();
            let m = cancel_manager(&log);
            let id = |k: usize| format!("r{k}");
            let mut toks = vec![];
            for k in 0..n {
                toks.push(tokio_util_token::Tok::new(&id(k), m.create_token(id(k)).await));
            }
            let order: Vec<usize> = if rev { (0..n).rev().collect() } else { (0..n).collect() };
            let mut notes = vec![];
            for &k in &order {
                match k % 4 {
                    0 => {
                        let _ = m.cancel_request(id(k), None).await;
                        notes.push(id(k));
                    },
                    1 => m.remove_token(&id(k)).await,
                    _ => {},
                }
            }
            let what = format!("{n} requests, every fourth cancelled, every fourth finished");
            for (k, t) in toks.iter().enumerate() {
                expect_eq(&mut o, if k % 4 == 0 { "not-cancelled" } else { "cancelled-wrongly" }, format!("{what}: request {k} cancelled"), t.is_cancelled(), k % 4 == 0);
                expect_eq(&mut o, "table", format!("{what}: request {k} registered"), m.get_token(&id(k)).await.is_some(), k % 4 > 1);
            }
            expect_eq(&mut o, "notices", format!("{what}: peer notices"), log.get().into_iter().map(|x| x.0).collect::<Vec<_>>(), notes);
            m.clear().await;
            for (k, t) in toks.iter().enumerate().filter(|(k, _)| k % 4 != 1) {
                expect_eq(&mut o, "not-cancelled", format!("{what}, then cleared: request {k} cancelled"), t.is_cancelled(), true);
            }
            o.fails.truncate(3);
            o.observed = format!("{n}");
        });
        o
    });
    c04_server(ctx);
    super::serverloop::c04_finished(ctx);
}

mod tokio_util_token {
    /// The token type is not re-exported by pmcp; hold it through `RequestHandlerExtra`.
    pub struct Tok(pmcp::RequestHandlerExtra);
    impl Tok {
        pub fn new<T: Into<Holder>>(id: &str, t: T) -> Tok {
            Tok((t.into().0)(id.to_string()))
        }
        pub fn is_cancelled(&self) -> bool {
            self.0.is_cancelled()
        }
        pub fn cancel(&self) {
            self.0.cancellation_token.cancel();
        }
    }
    pub struct Holder(Box<dyn FnOnce(String) -> pmcp::RequestHandlerExtra>);
    impl From<tokio_util::sync::CancellationToken> for Holder {
        fn from(t: tokio_util::sync::CancellationToken) -> Self {
            Holder(Box::new(move |id| pmcp::RequestHandlerExtra::new(id, t)))
        }
    }
}

/// A handler of every kind that waits for cancellation (up to 10 s) and reports what it saw.
#[derive(Clone)]
struct Waits {
    started: Log<String>,
    ended: Log<(String, bool)>,
    /// what the handlers keep after they are done
    kept: Log<RequestHandlerExtra>,
}
impl Waits {
    async fn wait(&self, extra: RequestHandlerExtra) -> pmcp::Result<()> {
        let id = extra.request_id.clone();
        self.kept.push(extra.clone());
        self.started.push(id.clone());
        let c = tokio::time::timeout(Duration::from_secs(10), extra.cancelled()).await.is_ok();
        self.ended.push((id.clone(), c));
        if id == "r10" {
            return Err(pmcp::Error::validation("refused"));
        }
        Ok(())
    }
}
#[async_trait]
impl ToolHandler for Waits {
    async fn handle(&self, _args: Value, extra: RequestHandlerExtra) -> pmcp::Result<Value> {
        self.wait(extra).await.map(|()| json!(1))
    }
}
#[async_trait]
impl pmcp::PromptHandler for Waits {
    async fn handle(&self, _args: HashMap<String, String>, extra: RequestHandlerExtra) -> pmcp::Result<pmcp::GetPromptResult> {
        self.wait(extra).await?;
        Ok(pmcp::GetPromptResult { description: None, messages: vec![] })
    }
}
#[async_trait]
impl pmcp::ResourceHandler for Waits {
    async fn read(&self, _uri: &str, extra: RequestHandlerExtra) -> pmcp::Result<pmcp::ReadResourceResult> {
        self.wait(extra).await?;
        Ok(pmcp::ReadResourceResult { contents: vec![] })
    }
    async fn list(&self, _cursor: Option<String>, extra: RequestHandlerExtra) -> pmcp::Result<pmcp::ListResourcesResult> {
        self.wait(extra).await?;
        Ok(pmcp::ListResourcesResult { resources: vec![], next_cursor: None })
    }
}
#[async_trait]
impl pmcp::SamplingHandler for Waits {
    async fn create_message(&self, _p: pmcp::types::protocol::CreateMessageParams, extra: RequestHandlerExtra) -> pmcp::Result<pmcp::types::protocol::CreateMessageResult> {
        self.wait(extra).await?;
        Ok(pmcp::types::protocol::CreateMessageResult { content: pmcp::Content::Text { text: "made".into() }, model: "m".into(), usage: None, stop_reason: None })
    }
}

fn c04_server(ctx: &Ctx) {
    let ids: [RequestId; 3] = [RequestId::String("r1".into()), RequestId::String("r10".into()), RequestId::Number(7)];
    let kinds: [(&str, Value); 5] = [
        ("tools/call", json!({"name": "w", "arguments": {}})),
        ("prompts/get", json!({"name": "w", "arguments": {}})),
        ("resources/read", json!({"uri": "file:///w"})),
        ("resources/list", json!({})),
        ("sampling/createMessage", json!({"messages": []})),
    ];
    explore(ctx, "server: cancelling running requests", Bounds::dev(ctx.by(2, 3)).secs(ctx.by(90, 900)), |ex| {
        // which ids to cancel, in which order
        let first = ex.choose(5); // 0..2 id, 3 unknown, 4 none
        let second = ex.choose(5);
        let kind = ex.choose(kinds.len());
        let mut o = Outcome::default();
        let r = run_async(&ex, HOUR, true, async {
            let w = Waits { started: Log::new(), ended: Log::new(), kept: Log::new() };
            let server = Arc::new(Server::builder().name("s").version("1").tool("w", w.clone()).prompt("w", w.clone()).resources(w.clone()).sampling(w.clone()).build().unwrap());
            let mut hs = vec![];
            for (k, id) in ids.iter().enumerate() {
                let (server, id) = (server.clone(), id.clone());
                let (method, params) = kinds[(kind + k) % kinds.len()].clone();
                hs.push(tokio::spawn(async move {
                    let req = JSONRPCRequest { jsonrpc: "2.0".into(), id, method: method.into(), params: Some(params) };
                    match server.handle_batch_request(BatchRequest::Single(req)).await {
                        Ok(BatchResponse::Single(r)) => format!("{:?}", r.id),
                        other => format!("?{other:?}"),
                    }
                }));
            }
            tokio::time::sleep(Duration::from_secs(1)).await;
            let n_started = w.started.len();
            for c in [first, second] {
                match c {
                    0..=2 => server.cancel_request(ids[c].to_string(), None).await.unwrap(),
                    3 => server.cancel_request("r".into(), None).await.unwrap(),
                    _ => {},
                }
            }
            tokio::time::sleep(Duration::from_secs(1)).await;
            let early = w.ended.len();
            let mut rs = vec![];
            for h in hs {
                rs.push(h.await.unwrap());
            }
            // afterwards a finished id can be cancelled without effect, whatever is
            // left of the request
            for id in &ids {
                server.cancel_request(id.to_string(), None).await.unwrap();
            }
            let kept: Vec<_> = w.kept.get().iter().map(|e| (e.request_id.clone(), e.is_cancelled())).collect();
            (n_started, early, rs, sorted(w.ended.get()), sorted(kept))
        });
        let Some((n, early, rs, ended, kept)) = r else {
            deadlock(&mut o, "server requests with cancellation");
            return o;
        };
        let want: BTreeSet<usize> = [first, second].into_iter().filter(|c| *c < 3).collect();
        o.observed = format!("{n} {early} {rs:?} {ended:?}");
        let what = format!("{} and the following kinds, cancelled {want:?}", kinds[kind].0);
        expect_eq(&mut o, "server-start", format!("{what}: handlers running before the cancellations"), n, 3);
        expect_eq(&mut o, "server-response", format!("{what}: responses"), rs, ids.iter().map(|i| format!("{i:?}")).collect());
        let seen = sorted(ids.iter().enumerate().map(|(k, i)| (i.to_string(), want.contains(&k))).collect::<Vec<_>>());
        expect_eq(&mut o, "server-cancel", format!("{what}: (request, observed cancellation)"), ended, seen.clone());
        expect_eq(&mut o, "server-cancel", format!("{what}: handlers that ended promptly"), early, want.len());
        expect_eq(&mut o, "cancelled-wrongly", format!("{what}: (request, cancelled) once all have been answered and then cancelled"), kept, seen);
        o
    });
}

// ---------------------------------------------------------------- C07

struct Tag(#[allow(dead_code)] usize);
#[async_trait]
impl ToolHandler for Tag {
    async fn handle(&self, _a: Value, _e: RequestHandlerExtra) -> pmcp::Result<Value> {
        Ok(json!(self.0))
    }
}
#[async_trait]
impl pmcp::PromptHandler for Tag {
    async fn handle(&self, _a: HashMap<String, String>, _e: RequestHandlerExtra) -> pmcp::Result<pmcp::GetPromptResult> {
        Ok(pmcp::GetPromptResult { description: Some(self.0.to_string()), messages: vec![] })
    }
}
#[async_trait]
impl pmcp::ResourceHandler for Tag {
    async fn read(&self, _u: &str, _e: RequestHandlerExtra) -> pmcp::Result<pmcp::ReadResourceResult> {
        Ok(pmcp::ReadResourceResult { contents: vec![] })
    }
    async fn list(&self, _c: Option<String>, _e: RequestHandlerExtra) -> pmcp::Result<pmcp::ListResourcesResult> {
        Ok(pmcp::ListResourcesResult { resources: vec![], next_cursor: None })
    }
}

#[async_trait]
impl pmcp::SamplingHandler for Tag {
    async fn create_message(&self, _p: pmcp::types::CreateMessageParams, _e: RequestHandlerExtra) -> pmcp::Result<pmcp::types::CreateMessageResult> {
        Err(pmcp::Error::internal("unused"))
    }
}

#[derive(Clone, Copy, Debug)]
enum DynOp {
    AddT(usize),
    RemT(usize),
    AddP(usize),
    RemP(usize),
    Reload(usize),
    SetRes,
    RemRes,
    SetSam,
    RemSam,
}

const DN: [&str; 3] = ["alpha", "static", "al"];

fn tool_info(n: &str) -> pmcp::ToolInfo {
    pmcp::ToolInfo { name: n.into(), description: None, input_schema: json!({}) }
}
fn prompt_info(n: &str) -> pmcp::types::PromptInfo {
    pmcp::types::PromptInfo { name: n.into(), description: None, arguments: None }
}

/// Configuration k: bit 0 tool alpha, bit 1 tool al, bit 2 prompt alpha,
/// bit 3 resources, bit 4 sampling.
fn dyn_config(k: usize) -> (DynamicConfig, Vec<&'static str>, Vec<&'static str>) {
    let mut b = DynamicConfigBuilder::new();
    let (mut t, mut p) = (vec![], vec![]);
    if k & 1 != 0 {
        b = b.tool("alpha", Arc::new(Tag(900)), tool_info("alpha"));
        t.push("alpha");
    }
    if k & 2 != 0 {
        b = b.tool("al", Arc::new(Tag(901)), tool_info("al"));
        t.push("al");
    }
    if k & 4 != 0 {
        b = b.prompt("alpha", Arc::new(Tag(902)), prompt_info("alpha"));
        p.push("alpha");
    }
    if k & 8 != 0 {
        b = b.resources(Arc::new(Tag(903)));
    }
    if k & 16 != 0 {
        b = b.sampling(Arc::new(Tag(904)));
    }
    (b.build(), t, p)
}

pub fn c07(ctx: &Ctx) {
    let mut ops = vec![];
    for i in 0..3 {
        ops.extend([DynOp::AddT(i), DynOp::RemT(i)]);
    }
    for i in 0..2 {
        ops.extend([DynOp::AddP(i), DynOp::RemP(i)]);
    }
    ops.extend([DynOp::Reload(0), DynOp::Reload(3), DynOp::Reload(4), DynOp::Reload(7), DynOp::Reload(16), DynOp::Reload(25), DynOp::SetRes, DynOp::RemRes, DynOp::SetSam, DynOp::RemSam]);
    let depth = ctx.by(4, 5);
    for_all(ctx, &format!("histories, length {depth}"), sequences(ops.len(), depth), |s| {
        let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
        seq(async {
            let server = Arc::new(Server::builder().name("s").version("1").tool("static", Tag(0)).prompt("static", Tag(0)).build().unwrap());
            let m = DynamicServerManager::new(server);
            let heard = Log::<String>::new();
            let l = heard.clone();
            m.add_capability_listener(move |c| l.push(format!("t{}p{}r{}s{}", c.tools.is_some(), c.prompts.is_some(), c.resources.is_some(), c.sampling.is_some()))).await;
            let heard2 = Log::<String>::new();
            let l2 = heard2.clone();
            m.add_capability_listener(move |c| l2.push(format!("t{}p{}r{}s{}", c.tools.is_some(), c.prompts.is_some(), c.resources.is_some(), c.sampling.is_some()))).await;
            // model: name -> address of the handler registered last
            let mut tools: BTreeMap<String, usize> = BTreeMap::new();
            let mut prompts: BTreeMap<String, usize> = BTreeMap::new();
            let mut tag = 0usize;
            for (k, &i) in s.iter().enumerate() {
                let at = format!("after {:?}", s[..=k].iter().map(|&i| ops[i]).collect::<Vec<_>>());
                let before = heard.len();
                tag += 1;
                let mut expect_heard: Vec<&str> = vec![];
                match ops[i] {
                    DynOp::AddT(n) => {
                        let h: Arc<dyn ToolHandler> = Arc::new(Tag(tag));
                        tools.insert(DN[n].into(), Arc::as_ptr(&h) as *const () as usize);
                        let r = m.add_tool(DN[n], h, tool_info(DN[n])).await;
                        expect_eq(&mut o, "result", format!("{at}: add"), r.is_ok(), true);
                        expect_heard = vec!["t"];
                    },
                    DynOp::RemT(n) => {
                        let had = tools.remove(DN[n]).is_some();
                        let r = m.remove_tool(DN[n]).await;
                        expect_eq(&mut o, "result", format!("{at}: remove"), r.is_ok(), had);
                        if had {
                            expect_heard = vec![""];
                        }
                    },
                    DynOp::AddP(n) => {
                        let h: Arc<dyn pmcp::PromptHandler> = Arc::new(Tag(tag));
                        prompts.insert(DN[n].into(), Arc::as_ptr(&h) as *const () as usize);
                        let r = m.add_prompt(DN[n], h, prompt_info(DN[n])).await;
                        expect_eq(&mut o, "result", format!("{at}: add"), r.is_ok(), true);
                        expect_heard = vec!["p"];
                    },
                    DynOp::RemP(n) => {
                        let had = prompts.remove(DN[n]).is_some();
                        let r = m.remove_prompt(DN[n]).await;
                        expect_eq(&mut o, "result", format!("{at}: remove"), r.is_ok(), had);
                        if had {
                            expect_heard = vec![""];
                        }
                    },
                    DynOp::Reload(c) => {
                        let (cfg, t, p) = dyn_config(c);
                        tools.clear();
                        prompts.clear();
                        for (n, x) in &cfg.tools {
                            tools.insert(n.clone(), Arc::as_ptr(&x.handler) as *const () as usize);
                        }
                        for (n, x) in &cfg.prompts {
                            prompts.insert(n.clone(), Arc::as_ptr(&x.handler) as *const () as usize);
                        }
                        let r = m.reload_configuration(cfg).await;
                        expect_eq(&mut o, "result", format!("{at}: reload"), r.is_ok(), true);
                        expect_heard = t.iter().map(|_| "t").chain(p.iter().map(|_| "p")).collect();
                        if c & 8 != 0 {
                            expect_heard.push("r");
                        }
                        if c & 16 != 0 {
                            expect_heard.push("s");
                        }
                    },
                    DynOp::SetRes => {
                        let r = m.set_resource_handler(Arc::new(Tag(tag))).await;
                        expect_eq(&mut o, "result", format!("{at}: set resources"), r.is_ok(), true);
                        expect_heard = vec!["r"];
                    },
                    DynOp::SetSam => {
                        let r = m.set_sampling_handler(Arc::new(Tag(tag))).await;
                        expect_eq(&mut o, "result", format!("{at}: set sampling"), r.is_ok(), true);
                        expect_heard = vec!["s"];
                    },
                    DynOp::RemSam => {
                        let r = m.remove_sampling_handler().await;
                        expect_eq(&mut o, "result", format!("{at}: remove sampling"), r.is_ok(), true);
                        expect_heard = vec![""];
                    },
                    DynOp::RemRes => {
                        let r = m.remove_resource_handler().await;
                        expect_eq(&mut o, "result", format!("{at}: remove resources"), r.is_ok(), true);
                        expect_heard = vec![""];
                    },
                }
                let gt: BTreeMap<String, usize> = m.get_dynamic_tools().await.into_iter().map(|(n, h)| (n, Arc::as_ptr(&h) as *const () as usize)).collect();
                let gp: BTreeMap<String, usize> = m.get_dynamic_prompts().await.into_iter().map(|(n, h)| (n, Arc::as_ptr(&h) as *const () as usize)).collect();
                let name = |m: &BTreeMap<String, usize>| m.keys().cloned().collect::<Vec<_>>();
                if gt != tools {
                    o.fail("tools", format!("{at}: tools {:?}, expected {:?} (or a stale handler)", name(&gt), name(&tools)));
                }
                if gp != prompts {
                    o.fail("prompts", format!("{at}: prompts {:?}, expected {:?} (or a stale handler)", name(&gp), name(&prompts)));
                }
                for n in DN {
                    expect_eq(&mut o, "has-tool", format!("{at}: has_tool({n})"), m.has_tool(n).await, n == "static" || tools.contains_key(n));
                    expect_eq(&mut o, "has-prompt", format!("{at}: has_prompt({n})"), m.has_prompt(n).await, n == "static" || prompts.contains_key(n));
                }
                let got = heard.get()[before..].to_vec();
                // each successful change announced once, with the capability it brings
                let ok = got.len() == expect_heard.len()
                    && expect_heard.iter().zip(&got).all(|(w, g)| w.is_empty() || g.contains(&format!("{w}true")));
                if !ok {
                    o.fail("announcement", format!("{at}: listeners heard {got:?}, expected one per change {expect_heard:?}"));
                }
                expect_eq(&mut o, "announcement", format!("{at}: both listeners"), heard2.get(), heard.get());
                if !o.fails.is_empty() {
                    return;
                }
            }
            o.observed = format!("{:?} {:?}", tools.keys(), prompts.keys());
        });
        o
    });
    // a large registry
    for_all(ctx, "large registries", SIZES.iter().copied(), |&n| {
        let mut o = Outcome { transitions: 2 * n as u64, ..Default::default() };
        seq(async {
            let server = Arc::new(Server::builder().name("s").version("1").build().unwrap());
            let m = DynamicServerManager::new(server);
            let heard = Log::<u8>::new();
            let l = heard.clone();
            m.add_capability_listener(move |_| l.push(1)).await;
            let name = |k: usize| format!("n{k}");
            for k in 0..n {
                let (a, b) = (m.add_tool(name(k), Arc::new(Tag(k)), tool_info(&name(k))).await, m.add_prompt(name(k), Arc::new(Tag(k)), prompt_info(&name(k))).await);
                expect_eq(&mut o, "result", format!("{n} names: adding {k}"), a.is_ok() && b.is_ok(), true);
            }
            for k in (0..n).step_by(3) {
                let (a, b) = (m.remove_tool(&name(k)).await, m.remove_prompt(&name(k)).await);
                expect_eq(&mut o, "result", format!("{n} names: removing {k}"), a.is_ok() && b.is_ok(), true);
            }
            let want: BTreeSet<String> = (0..n).filter(|k| k % 3 != 0).map(name).collect();
            expect_eq(&mut o, "tools", format!("{n} names, every third removed: tools"), m.get_dynamic_tools().await.into_keys().collect::<BTreeSet<_>>(), want.clone());
            expect_eq(&mut o, "prompts", format!("{n} names, every third removed: prompts"), m.get_dynamic_prompts().await.into_keys().collect::<BTreeSet<_>>(), want);
            for k in 0..n {
                expect_eq(&mut o, "has-tool", format!("{n} names: has_tool of {k}"), m.has_tool(&name(k)).await, k % 3 != 0);
                expect_eq(&mut o, "has-prompt", format!("{n} names: has_prompt of {k}"), m.has_prompt(&name(k)).await, k % 3 != 0);
            }
            expect_eq(&mut o, "announcement", format!("{n} names: announcements"), heard.len(), 2 * n + 2 * n.div_ceil(3));
            o.fails.truncate(3);
            o.observed = format!("{n}");
        });
        o
    });
    // concurrent changes: linearizable
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum C {
        Add,
        Rem,
        Has,
        Reload1,
        Reload0,
    }
    let alpha = [C::Add, C::Rem, C::Has, C::Reload1, C::Reload0];
    explore(ctx, "two tasks changing one name", Bounds::dev(ctx.by(2, 4)).secs(ctx.by(60, 900)), |ex| {
        let start = ex.choose(2) == 1;
        let progs: Vec<Vec<C>> = vec![(0..2).map(|_| alpha[ex.choose(5)]).collect(), vec![alpha[ex.choose(5)]]];
        let mut o = Outcome::default();
        let r = run_async(&ex, HOUR, true, async {
            let server = Arc::new(Server::builder().name("s").version("1").build().unwrap());
            let m = Arc::new(DynamicServerManager::new(server));
            let heard = Log::<u8>::new();
            let l = heard.clone();
            m.add_capability_listener(move |_| l.push(1)).await;
            if start {
                m.add_tool("alpha", Arc::new(Tag(0)), tool_info("alpha")).await.unwrap();
            }
            let mut hs = vec![];
            for p in progs.clone() {
                let m = m.clone();
                hs.push(tokio::spawn(async move {
                    let mut out = vec![];
                    for op in p {
                        let r = match op {
                            C::Add => m.add_tool("alpha", Arc::new(Tag(1)), tool_info("alpha")).await.is_ok(),
                            C::Rem => m.remove_tool("alpha").await.is_ok(),
                            C::Has => m.has_tool("alpha").await,
                            C::Reload1 => m.reload_configuration(dyn_config(1).0).await.is_ok(),
                            C::Reload0 => m.reload_configuration(dyn_config(0).0).await.is_ok(),
                        };
                        out.push((op, r));
                    }
                    out
                }));
            }
            let mut runs = vec![];
            for h in hs {
                runs.push(h.await.unwrap());
            }
            (runs, m.has_tool("alpha").await, heard.len() - usize::from(start))
        });
        let Some((runs, fin, heard)) = r else {
            deadlock(&mut o, "dynamic changes");
            return o;
        };
        o.observed = format!("{start} {runs:?} {fin}");
        let apply = |s: &mut bool, op: &C| match op {
            C::Add | C::Reload1 => {
                *s = true;
                true
            },
            C::Rem => std::mem::replace(s, false),
            C::Has => *s,
            C::Reload0 => {
                *s = false;
                true
            },
        };
        if !linearizable(&start, &runs, &apply, &|s| *s == fin) {
            let reload = progs.iter().flatten().any(|c| matches!(c, C::Reload1 | C::Reload0));
            o.fail(if reload { "reload-not-atomic" } else { "not-linearizable" }, format!("start={start}, results {runs:?}, finally {fin}: no order of the operations explains this"));
        }
        let want = runs.iter().flatten().filter(|(op, r)| matches!(op, C::Add | C::Reload1) || *op == C::Rem && *r).count();
        expect_eq(&mut o, "announcement", format!("{runs:?}: announcements"), heard, want);
        o
    });
}

// ---------------------------------------------------------------- C09

fn elicit(id: &str) -> ElicitInputRequest {
    ElicitInputRequest {
        elicitation_id: id.into(),
        input_type: InputType::Text,
        prompt: format!("prompt for {id}"),
        description: None,
        default: None,
        validation: None,
        metadata: HashMap::new(),
    }
}
fn answer(id: &str, v: i64) -> ElicitInputResponse {
    ElicitInputResponse { elicitation_id: id.into(), value: Some(json!(v)), cancelled: false, error: None }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Nothing,
    Answer,
    Cancel,
    AnswerTwice,
    CancelThenAnswer,
    AnswerAtDeadline,
    AnswerLate,
    CancelAll,
}
const ACTS: [Act; 8] =
    [Act::Answer, Act::Nothing, Act::Cancel, Act::AnswerTwice, Act::CancelThenAnswer, Act::AnswerAtDeadline, Act::AnswerLate, Act::CancelAll];

/// Many input requests waiting at once, answered, cancelled or left alone.
fn c09_many(ctx: &Ctx) {
    let cases = SIZES.iter().flat_map(|&n| [1usize, 400].into_iter().flat_map(move |cap| [false, true].map(|rev| (n, cap, rev))));
    for_all(ctx, "many input requests at once", cases, |&(n, cap, rev)| {
        let mut o = Outcome { transitions: 2 * n as u64, ..Default::default() };
        let what = format!("{n} input requests, channel of {cap}, ended in {} order", if rev { "reverse" } else { "the same" });
        let r = seq(async {
            let (tx, mut rx) = tokio::sync::mpsc::channel::<ServerRequest>(cap);
            let mut m = ElicitationManager::new();
            m.set_request_channel(tx);
            m.set_timeout(Duration::from_secs(10));
            let m = Arc::new(m);
            let callers: Vec<_> = (0..n)
                .map(|k| {
                    let m = m.clone();
                    tokio::spawn(async move { m.elicit_input(elicit(&format!("e{k}"))).await })
                })
                .collect();
            let mut asked = vec![];
            for _ in 0..n {
                if let Some(ServerRequest::ElicitInput(r)) = rx.recv().await {
                    asked.push(r.elicitation_id.clone());
                }
            }
            let pending = m.pending_count().await;
            let order: Vec<usize> = if rev { (0..n).rev().collect() } else { (0..n).collect() };
            let mut ok = true;
            for k in order {
                match k % 4 {
                    0 => ok &= m.cancel(&format!("e{k}")).await.is_ok(),
                    1 => {},
                    _ => ok &= m.handle_response(answer(&format!("e{k}"), k as i64)).await.is_ok(),
                }
            }
            let mut outs = vec![];
            for c in callers {
                outs.push(c.await.unwrap());
            }
            (asked, pending, ok, outs, m.pending_count().await)
        });
        let Some((asked, pending, ok, outs, left)) = r else {
            o.fail("never-returns", format!("{what}: an input request did not end"));
            return o;
        };
        expect_eq(&mut o, "asked", format!("{what}: requests sent to the peer"), sorted(asked), sorted((0..n).map(|k| format!("e{k}")).collect()));
        expect_eq(&mut o, "pending", format!("{what}: pending while waiting, and after"), (pending, left), (n, 0));
        expect_eq(&mut o, "accepted", format!("{what}: every answer and cancellation accepted"), ok, true);
        for (k, r) in outs.iter().enumerate() {
            let good = match (k % 4, r) {
                (0, Ok(x)) => x.cancelled && x.elicitation_id == format!("e{k}"),
                (1, Err(e)) => e.to_string().to_lowercase().contains("time"),
                (2 | 3, Ok(x)) => !x.cancelled && x.value == Some(json!(k)) && x.elicitation_id == format!("e{k}"),
                _ => false,
            };
            if !good {
                o.fail("outcome", format!("{what}: request {k} ended {r:?}"));
                break;
            }
        }
        o.observed = what;
        o
    });
}

pub fn c09(ctx: &Ctx) {
    c09_many(ctx);
    let nmax = ctx.by(2usize, 3usize);
    let ids = ["e1", "e10", "e"];
    explore(ctx, &format!("{nmax} concurrent input requests, every ending"), Bounds::dev(ctx.by(2, 3)).secs(ctx.by(90, 1500)), |ex| {
        let acts: Vec<Act> = (0..nmax).map(|_| ACTS[ex.choose(ACTS.len())]).collect();
        let cap = [8usize, 1][ex.choose(2)];
        let order = ex.choose(2); // answer in order or reversed
        let mut o = Outcome::default();
        let timeout = Duration::from_secs(10);
        let r = run_async(&ex, HOUR, true, async {
            let (tx, mut rx) = tokio::sync::mpsc::channel::<ServerRequest>(cap);
            let mut m = ElicitationManager::new();
            m.set_request_channel(tx);
            m.set_timeout(timeout);
            let m = Arc::new(m);
            let mut callers = vec![];
            for id in &ids[..nmax] {
                let (m, id) = (m.clone(), (*id).to_string());
                callers.push(tokio::spawn(async move {
                    let t0 = tokio::time::Instant::now();
                    let r = m.elicit_input(elicit(&id)).await;
                    let dt = t0.elapsed();
                    (id, r.map_err(|e| e.to_string()), dt)
                }));
            }
            let mut asked = vec![];
            for _ in 0..nmax {
                match rx.recv().await {
                    Some(ServerRequest::ElicitInput(r)) => asked.push(r.elicitation_id.clone()),
                    other => asked.push(format!("?{other:?}")),
                }
            }
            let before = m.pending_count().await;
            let mut doers = vec![];
            let idx: Vec<usize> = if order == 0 { (0..nmax).collect() } else { (0..nmax).rev().collect() };
            for k in idx {
                let (m, id, act) = (m.clone(), ids[k].to_string(), acts[k]);
                doers.push(tokio::spawn(async move {
                    let v = k as i64;
                    match act {
                        Act::Nothing => vec![],
                        Act::Answer => vec![m.handle_response(answer(&id, v)).await.is_ok()],
                        Act::Cancel => vec![m.cancel(&id).await.is_ok()],
                        Act::AnswerTwice => vec![m.handle_response(answer(&id, v)).await.is_ok(), m.handle_response(answer(&id, v + 50)).await.is_ok()],
                        Act::CancelThenAnswer => vec![m.cancel(&id).await.is_ok(), m.handle_response(answer(&id, v)).await.is_ok()],
                        Act::AnswerAtDeadline => {
                            tokio::time::sleep(timeout).await;
                            vec![m.handle_response(answer(&id, v)).await.is_ok()]
                        },
                        Act::AnswerLate => {
                            tokio::time::sleep(timeout + Duration::from_secs(1)).await;
                            vec![m.handle_response(answer(&id, v)).await.is_ok()]
                        },
                        Act::CancelAll => {
                            m.cancel_all().await;
                            vec![]
                        },
                    }
                }));
            }
            let mut oks = vec![vec![]; nmax];
            let order_idx: Vec<usize> = if order == 0 { (0..nmax).collect() } else { (0..nmax).rev().collect() };
            for (d, k) in doers.into_iter().zip(order_idx) {
                oks[k] = d.await.unwrap();
            }
            let mut outs = vec![];
            for c in callers {
                outs.push(c.await.unwrap());
            }
            let unknown = m.handle_response(answer("nobody", 1)).await.is_ok();
            let unknown_cancel = m.cancel("nobody").await.is_ok();
            (asked, before, oks, outs, m.pending_count().await, unknown || unknown_cancel)
        });
        let Some((asked, before, oks, outs, after, unknown)) = r else {
            o.fail("never-returns", format!("{acts:?}: an input request did not end"));
            return o;
        };
        o.observed = format!("{oks:?} {:?}", outs.iter().map(|x| (&x.0, x.1.as_ref().map(|r| (r.cancelled, r.value.clone())).map_err(|e| e.clone()))).collect::<Vec<_>>());
        let what = format!("{acts:?} (channel {cap}): {}", o.observed);
        expect_eq(&mut o, "asked", format!("{what}: requests sent to the peer"), sorted(asked), sorted(ids[..nmax].iter().map(|s| s.to_string()).collect()));
        expect_eq(&mut o, "pending", format!("{what}: pending while waiting"), before, nmax);
        expect_eq(&mut o, "pending", format!("{what}: pending after all ended"), after, 0);
        expect_eq(&mut o, "unknown-accepted", format!("{what}: response for an unknown id accepted"), unknown, false);
        let any_all = acts.contains(&Act::CancelAll);
        for (k, (id, r, dt)) in outs.iter().enumerate() {
            let got_answer = matches!(r, Ok(x) if !x.cancelled && x.elicitation_id == *id && x.value == Some(json!(k)));
            let got_cancel = matches!(r, Ok(x) if x.cancelled && x.elicitation_id == *id);
            let got_timeout = matches!(r, Err(e) if e.to_lowercase().contains("time"));
            let prompt = *dt < Duration::from_secs(1);
            let at_deadline = *dt >= timeout && *dt < timeout + Duration::from_millis(100);
            let acc: &[bool] = &oks[k];
            let ok = match acts[k] {
                Act::Nothing => got_timeout && at_deadline || any_all && got_cancel && prompt,
                Act::Answer => got_answer && prompt && acc == [true] || any_all && got_cancel && prompt && acc == [false],
                Act::Cancel => got_cancel && prompt && (any_all || acc == [true]),
                Act::AnswerTwice => got_answer && prompt && acc == [true, false] || any_all && got_cancel && acc == [false, false],
                Act::CancelThenAnswer => got_cancel && prompt && !acc[1] && (any_all || acc[0]),
                // at the very deadline either ending is right, but not a lost answer that blocks
                Act::AnswerAtDeadline => (got_answer && acc == [true] || got_timeout) && at_deadline || any_all && got_cancel && prompt && acc == [false],
                Act::AnswerLate => (got_timeout && at_deadline || any_all && got_cancel && prompt) && acc == [false],
                Act::CancelAll => got_cancel && prompt,
            };
            if !ok {
                o.fail("wrong-ending", format!("{what}: request {id} (after {dt:?})"));
            }
        }
        o
    });
    // a peer that answers the moment it is asked
    explore(ctx, "answers that come at once", Bounds::dev(ctx.by(3, 4)).secs(ctx.by(60, 900)), |ex| {
        let acts: Vec<Act> = (0..2).map(|_| [Act::Answer, Act::Cancel, Act::AnswerTwice, Act::CancelThenAnswer][ex.choose(4)]).collect();
        let cap = [8usize, 1][ex.choose(2)];
        let mut o = Outcome::default();
        let timeout = Duration::from_secs(10);
        let r = run_async(&ex, HOUR, true, async {
            let (tx, mut rx) = tokio::sync::mpsc::channel::<ServerRequest>(cap);
            let mut m = ElicitationManager::new();
            m.set_request_channel(tx);
            m.set_timeout(timeout);
            let m = Arc::new(m);
            let peer = {
                let (m, acts) = (m.clone(), acts.clone());
                tokio::spawn(async move {
                    let mut oks: Vec<Vec<bool>> = vec![vec![]; 2];
                    for _ in 0..2 {
                        let Some(ServerRequest::ElicitInput(r)) = rx.recv().await else { break };
                        let id = r.elicitation_id.clone();
                        let k = usize::from(id == ids[1]);
                        let a = answer(&id, k as i64);
                        oks[k] = match acts[k] {
                            Act::Answer => vec![m.handle_response(a).await.is_ok()],
                            Act::Cancel => vec![m.cancel(&id).await.is_ok()],
                            Act::AnswerTwice => vec![m.handle_response(a).await.is_ok(), m.handle_response(answer(&id, 77)).await.is_ok()],
                            _ => vec![m.cancel(&id).await.is_ok(), m.handle_response(a).await.is_ok()],
                        };
                    }
                    oks
                })
            };
            let mut callers = vec![];
            for id in &ids[..2] {
                let (m, id) = (m.clone(), (*id).to_string());
                callers.push(tokio::spawn(async move {
                    let t0 = tokio::time::Instant::now();
                    let r = m.elicit_input(elicit(&id)).await;
                    (r.map(|x| (x.cancelled, x.elicitation_id, x.value)).map_err(|e| e.to_string()), t0.elapsed())
                }));
            }
            let mut outs = vec![];
            for c in callers {
                outs.push(c.await.unwrap());
            }
            (outs, peer.await.unwrap(), m.pending_count().await)
        });
        let Some((outs, oks, after)) = r else {
            o.fail("never-returns", format!("{acts:?} at once: an input request did not end"));
            return o;
        };
        o.observed = format!("{outs:?} {oks:?}");
        let what = format!("{acts:?} at once (channel {cap})");
        for (k, (got, dt)) in outs.iter().enumerate() {
            let cancelled = matches!(acts[k], Act::Cancel | Act::CancelThenAnswer);
            let ok = match got {
                Ok((c, id, v)) => *c == cancelled && id == ids[k] && (cancelled || *v == Some(json!(k))) && *dt < timeout,
                Err(_) => false,
            };
            let wants: &[bool] = if matches!(acts[k], Act::AnswerTwice | Act::CancelThenAnswer) { &[true, false] } else { &[true] };
            if !ok || oks[k] != wants {
                o.fail("wrong-ending", format!("{what}: request {} ended {got:?} after {dt:?}; accepted {:?}", ids[k], oks[k]));
            }
        }
        expect_eq(&mut o, "pending", format!("{what}: pending after all ended"), after, 0);
        o
    });
    // whatever the answer says, the caller gets exactly that
    let values = [None, Some(json!(null)), Some(json!(0)), Some(json!("")), Some(json!({"a": [1, null]}))];
    for_all(ctx, "answers of every shape", (0..values.len()).flat_map(|v| (0..3usize).flat_map(move |e| (0..2usize).map(move |c| (v, e, c)))), |&(v, e, c)| {
        let mut o = Outcome::default();
        let sent = ElicitInputResponse {
            elicitation_id: "e".into(),
            value: values[v].clone(),
            cancelled: c == 1,
            error: [None, Some(String::new()), Some("no".to_string())][e].clone(),
        };
        let got = seq(async {
            let (tx, mut rx) = tokio::sync::mpsc::channel::<ServerRequest>(4);
            let mut m = ElicitationManager::new();
            m.set_request_channel(tx);
            let m = Arc::new(m);
            let m2 = m.clone();
            let mut ask = elicit("e");
            ask.default = values[v].clone();
            ask.description = Some("why".into());
            let asked = serde_json::to_value(&ask).unwrap();
            let h = tokio::spawn(async move { m2.elicit_input(ask).await });
            match rx.recv().await {
                Some(ServerRequest::ElicitInput(r)) if serde_json::to_value(&*r).unwrap() == asked => {},
                other => return Err(format!("the peer was asked {other:?}, not {asked}")),
            }
            m.handle_response(sent.clone()).await.map_err(|e| e.to_string())?;
            h.await.unwrap().map_err(|e| e.to_string())
        })
        .unwrap_or(Err("no ending".into()));
        let text = |r: &Result<ElicitInputResponse, String>| format!("{r:?}");
        o.observed = text(&got);
        expect_eq(&mut o, "answer-changed", "an answer's content", text(&got), text(&Ok(sent)));
        o
    });
    // a peer that no longer reads: the requests it has not taken end all the same
    explore(ctx, "a peer that has stopped reading", Bounds::dev(ctx.by(2, 3)).secs(ctx.by(60, 900)), |ex| {
        let cap = 1 + ex.choose(2);
        let acts: Vec<Act> = (0..2).map(|_| [Act::Nothing, Act::Answer, Act::Cancel, Act::CancelAll][ex.choose(4)]).collect();
        let mut o = Outcome::default();
        let timeout = Duration::from_secs(10);
        let r = run_async(&ex, HOUR, true, async {
            let (tx, rx) = tokio::sync::mpsc::channel::<ServerRequest>(cap);
            let mut m = ElicitationManager::new();
            m.set_request_channel(tx);
            m.set_timeout(timeout);
            let m = Arc::new(m);
            // fill the channel first
            let mut fillers = vec![];
            for k in 0..cap {
                let m = m.clone();
                fillers.push(tokio::spawn(async move { m.elicit_input(elicit(&format!("f{k}"))).await.is_ok() }));
            }
            while rx.len() < cap {
                tokio::task::yield_now().await;
            }
            let callers: Vec<_> = ids[..2]
                .iter()
                .map(|id| {
                    let (m, id) = (m.clone(), (*id).to_string());
                    tokio::spawn(async move {
                        let t0 = tokio::time::Instant::now();
                        let r = m.elicit_input(elicit(&id)).await;
                        (r.map(|x| (x.cancelled, x.elicitation_id, x.value)).map_err(|e| e.to_string()), t0.elapsed())
                    })
                })
                .collect();
            while m.pending_count().await < cap + 2 {
                tokio::task::yield_now().await;
            }
            let mut oks = vec![];
            for (k, act) in acts.iter().enumerate() {
                oks.push(match act {
                    Act::Answer => m.handle_response(answer(ids[k], k as i64)).await.is_ok(),
                    Act::Cancel => m.cancel(ids[k]).await.is_ok(),
                    Act::CancelAll => {
                        m.cancel_all().await;
                        true
                    },
                    _ => true,
                });
            }
            let mut outs = vec![];
            for c in callers {
                outs.push(c.await.unwrap());
            }
            for f in fillers {
                f.await.unwrap();
            }
            drop(rx);
            (oks, outs, m.pending_count().await)
        });
        let Some((oks, outs, after)) = r else {
            o.fail("never-returns", format!("{acts:?}, peer not reading (channel {cap}): an input request did not end"));
            return o;
        };
        o.observed = format!("{outs:?} {oks:?}");
        for (k, (got, dt)) in outs.iter().enumerate() {
            let all_before = acts[..k].contains(&Act::CancelAll);
            let all_after = acts[k..].contains(&Act::CancelAll);
            let prompt = *dt < Duration::from_secs(1);
            let answered = matches!(got, Ok((false, id, v)) if id == ids[k] && *v == Some(json!(k))) && prompt;
            let cancelled = matches!(got, Ok((true, id, _)) if id == ids[k]) && prompt;
            let timed = matches!(got, Err(e) if e.to_lowercase().contains("time")) && *dt >= timeout && *dt < timeout + Duration::from_millis(100);
            let ok = if all_before {
                cancelled
            } else {
                match acts[k] {
                    Act::Answer => answered && oks[k],
                    Act::Cancel => cancelled && oks[k],
                    Act::CancelAll => cancelled,
                    _ => timed || all_after && cancelled,
                }
            };
            if !ok {
                o.fail("wrong-ending", format!("{acts:?}, peer not reading (channel {cap}): request {} ended {got:?} after {dt:?}; accepted {oks:?}", ids[k]));
            }
        }
        expect_eq(&mut o, "pending", format!("{acts:?}, peer not reading: pending after all ended"), after, 0);
        o
    });
    // reuse of an id after each ending; no channel; closed channel
    for_all(ctx, "reuse after ending, and unusable channels", (0..5usize).flat_map(|a| (0..5usize).map(move |b| (a, b))), |&(a, b)| {
        let mut o = Outcome::default();
        seq(async {
            let m0 = ElicitationManager::new();
            expect_eq(&mut o, "unconfigured", "elicitation without a channel", m0.elicit_input(elicit("x")).await.is_ok(), false);
            expect_eq(&mut o, "pending", "pending after refusal", m0.pending_count().await, 0);
            let (tx, rx) = tokio::sync::mpsc::channel::<ServerRequest>(4);
            let mut m = ElicitationManager::new();
            m.set_request_channel(tx);
            m.set_timeout(Duration::from_secs(3));
            let m = Arc::new(m);
            let mut rx = Some(rx);
            for end in [a, b] {
                if end == 4 {
                    rx = None; // the peer is gone: sending fails
                }
                let m2 = m.clone();
                let h = tokio::spawn(async move { m2.elicit_input(elicit("same")).await });
                settle().await;
                if let Some(rx) = rx.as_mut() {
                    let _ = rx.try_recv();
                }
                let acc = match end {
                    0 => m.handle_response(answer("same", 1)).await.is_ok(),
                    1 => m.cancel("same").await.is_ok(),
                    2 => {
                        m.cancel_all().await;
                        true
                    },
                    _ => true,
                };
                let r = h.await.unwrap();
                let closed = rx.is_none();
                let good = match (end, closed, &r) {
                    (_, true, Err(_)) => true,
                    (0, false, Ok(x)) => !x.cancelled && acc,
                    (1 | 2, false, Ok(x)) => x.cancelled && acc,
                    (3, false, Err(_)) => true,
                    _ => false,
                };
                if !good {
                    o.fail("reuse", format!("endings {a},{b}: {end} gave {:?}", r.map(|x| x.cancelled).map_err(|e| e.to_string())));
                }
                expect_eq(&mut o, "pending", format!("endings {a},{b}: pending after {end}"), m.pending_count().await, 0);
                expect_eq(&mut o, "unknown-accepted", format!("endings {a},{b}: late answer accepted"), m.handle_response(answer("same", 9)).await.is_ok(), false);
            }
        });
        o
    });
}
