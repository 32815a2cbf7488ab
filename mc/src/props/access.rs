//! C25 middleware chains, C26 OAuth provider, C27 access checks.
use super::util::*;
use crate::aengine::{deadlock, run_async};
use crate::ctx::Ctx;
use crate::explore::*;
use crate::vm;
use async_trait::async_trait;
use futures::executor::block_on;
use pmcp::server::auth::oauth2::{AccessToken, OAuthMetadata, TokenInfo};
use pmcp::server::auth::{
    AuthContext, AuthMiddleware as ServerAuth, AuthorizationRequest, BearerTokenMiddleware, ClientCredentialsMiddleware, CompositeMiddleware, GrantType,
    InMemoryOAuthProvider, OAuthClient, OAuthProvider, ResponseType, ScopeMiddleware, TokenRequest,
};
use pmcp::shared::{AuthMiddleware, LoggingMiddleware, Middleware, MiddlewareChain, RetryMiddleware, TransportMessage};
use pmcp::types::auth::{AuthInfo, AuthScheme};
use pmcp::types::{JSONRPCRequest, JSONRPCResponse, RequestId};
use pmcp::{Error, ErrorCode};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;
use std::time::Duration;

// ------------------------------------------------------------------ C25

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum M {
    Pass,
    Change,
    Replace,
    Fail,
    ChangeFail,
    /// turns a response into an error response
    ErrReply,
    LogBuiltin(u8),
    AuthBuiltin,
    RetryBuiltin,
}
const MS: [M; 9] = [M::Pass, M::Change, M::Replace, M::Fail, M::ChangeFail, M::ErrReply, M::LogBuiltin(0), M::AuthBuiltin, M::RetryBuiltin];

struct Member {
    i: usize,
    kind: M,
    log: Log<String>,
    slow: bool,
}
impl Member {
    async fn at(&self, dir: &str, seen: String) -> pmcp::Result<()> {
        if self.slow {
            tokio::task::yield_now().await;
        }
        self.log.push(format!("{dir}{}:{seen}", self.i));
        if matches!(self.kind, M::Fail | M::ChangeFail) {
            return Err(Error::internal(format!("member-{}-refuses", self.i)));
        }
        Ok(())
    }
}
fn change(v: &Value, i: usize) -> Value {
    let mut a = v.as_array().cloned().unwrap_or_default();
    a.push(json!(i));
    Value::Array(a)
}
fn err_reply(i: usize) -> pmcp::types::jsonrpc::JSONRPCError {
    pmcp::types::jsonrpc::JSONRPCError { code: -32000 - i as i32, message: format!("e{i}"), data: (i % 2 == 1).then(|| json!(i)) }
}
#[async_trait]
impl Middleware for Member {
    async fn on_request(&self, r: &mut JSONRPCRequest) -> pmcp::Result<()> {
        let seen = format!("{}{}", r.method, r.params.clone().unwrap_or(Value::Null));
        match self.kind {
            M::Change | M::ChangeFail => r.params = Some(change(r.params.as_ref().unwrap_or(&Value::Null), self.i)),
            M::Replace => *r = JSONRPCRequest::new(RequestId::Number(9), format!("m{}", self.i), None),
            _ => {},
        }
        self.at("q", seen).await
    }
    async fn on_response(&self, r: &mut JSONRPCResponse) -> pmcp::Result<()> {
        let seen = serde_json::to_string(r).unwrap();
        match self.kind {
            M::ErrReply => *r = JSONRPCResponse::error(r.id.clone(), err_reply(self.i)),
            M::Change | M::ChangeFail => *r = JSONRPCResponse::success(r.id.clone(), change(r.result().unwrap_or(&Value::Null), self.i)),
            M::Replace => *r = JSONRPCResponse::success(RequestId::Number(9), json!(format!("m{}", self.i))),
            _ => {},
        }
        self.at("p", seen).await
    }
    async fn on_send(&self, m: &TransportMessage) -> pmcp::Result<()> {
        self.at("s", format!("{m:?}")).await
    }
    async fn on_receive(&self, m: &TransportMessage) -> pmcp::Result<()> {
        self.at("r", format!("{m:?}")).await
    }
}

fn message(k: usize) -> TransportMessage {
    match k {
        0 => TransportMessage::Response(JSONRPCResponse::success(RequestId::Number(4), json!("x"))),
        1 => TransportMessage::Response(JSONRPCResponse::error(RequestId::String("4".into()), err_reply(1))),
        2 => TransportMessage::Request { id: RequestId::Number(4), request: pmcp::types::Request::Client(Box::new(pmcp::types::ClientRequest::Ping)) },
        _ => TransportMessage::Notification(pmcp::types::Notification::Server(pmcp::types::ServerNotification::ToolsChanged)),
    }
}

pub fn c25(ctx: &Ctx) {
    let depth = ctx.by(6, 7);
    let cases = (0..=depth).flat_map(|n| sequences(MS.len(), n)).map(|q| q.into_iter().enumerate().map(|(k, i)| if let M::LogBuiltin(_) = MS[i] { M::LogBuiltin(k as u8) } else { MS[i] }).collect::<Vec<M>>());
    for_all(ctx, &format!("chains of at most {depth} members, each direction"), cases, |kinds| {
        let mut o = Outcome::default();
        let log = Log::new();
        let mut chain = if kinds.len() % 2 == 0 { MiddlewareChain::new() } else { MiddlewareChain::default() };
        for (i, k) in kinds.iter().enumerate() {
            let level = [tracing::Level::TRACE, tracing::Level::DEBUG, tracing::Level::INFO, tracing::Level::WARN, tracing::Level::ERROR][i % 5];
            match k {
                M::LogBuiltin(_) => chain.add(Arc::new(LoggingMiddleware::new(level))),
                M::AuthBuiltin => chain.add(Arc::new(AuthMiddleware::new("secret".into()))),
                M::RetryBuiltin => chain.add(Arc::new(RetryMiddleware::new(i as u32, 1, 1))),
                _ => chain.add(Arc::new(Member { i, kind: *k, log: log.clone(), slow: i % 2 == 1 })),
            }
        }
        let own = |k: &M| !matches!(k, M::LogBuiltin(_) | M::AuthBuiltin | M::RetryBuiltin);
        let failing = kinds.iter().position(|k| matches!(k, M::Fail | M::ChangeFail));
        let upto = failing.map_or(kinds.len(), |f| f + 1);
        for (dir, which) in [("q", 0), ("p", 0), ("p", 1), ("s", 0), ("s", 1), ("s", 2), ("s", 3), ("r", 0), ("r", 1), ("r", 2), ("r", 3)] {
            o.transitions += upto as u64;
            // expected
            let start = if which == 0 { JSONRPCResponse::success(RequestId::Number(4), json!([])) } else { JSONRPCResponse::error(RequestId::Number(4), err_reply(7)) };
            let (mut req, mut rsp) = (("start".to_string(), Some(json!([])), RequestId::Number(4)), serde_json::to_value(&start).unwrap());
            let mut want = vec![];
            for (i, k) in kinds.iter().enumerate().take(upto).filter(|(_, k)| own(k)) {
                match dir {
                    "q" => {
                        want.push(format!("q{i}:{}{}", req.0, req.1.clone().unwrap_or(Value::Null)));
                        match k {
                            M::Change | M::ChangeFail => req.1 = Some(change(req.1.as_ref().unwrap_or(&Value::Null), i)),
                            M::Replace => req = (format!("m{i}"), None, RequestId::Number(9)),
                            _ => {},
                        }
                    },
                    "p" => {
                        want.push(format!("p{i}:{rsp}"));
                        match k {
                            M::Change | M::ChangeFail => rsp = json!({"jsonrpc": "2.0", "id": rsp["id"], "result": change(&rsp["result"], i)}),
                            M::Replace => rsp = json!({"jsonrpc": "2.0", "id": 9, "result": format!("m{i}")}),
                            M::ErrReply => rsp = json!({"jsonrpc": "2.0", "id": rsp["id"], "error": serde_json::to_value(err_reply(i)).unwrap()}),
                            _ => {},
                        }
                    },
                    d => want.push(format!("{d}{i}:{:?}", message(which))),
                }
            }
            let mut r = JSONRPCRequest::new(RequestId::Number(4), "start", Some(json!([])));
            let mut p = start;
            let m = message(which);
            let res = block_on(async {
                match dir {
                    "q" => chain.process_request(&mut r).await,
                    "p" => chain.process_response(&mut p).await,
                    "s" => chain.process_send(&m).await,
                    _ => chain.process_receive(&m).await,
                }
            });
            expect_eq(&mut o, "order", format!("{kinds:?} direction {dir}: calls"), log.take(), want);
            match (&res, failing) {
                (Ok(()), None) => {},
                (Err(e), Some(f)) if e.to_string().contains(&format!("member-{f}-refuses")) => {},
                _ => o.fail("reported", format!("{kinds:?} direction {dir}: ended {res:?}, failing member {failing:?}")),
            }
            if dir == "q" {
                expect_eq(&mut o, "request", format!("{kinds:?}"), (r.method.clone(), r.params.clone(), r.id.clone()), req);
            }
            if dir == "p" {
                expect_eq(&mut o, "response", format!("{kinds:?}"), serde_json::to_value(&p).unwrap(), rsp);
            }
        }
        o.observed = format!("{failing:?}{}", kinds.len());
        o
    });

    // long chains
    let cases = SIZES.iter().flat_map(|&n| (0..4usize).map(move |f| (n, [None, Some(0), Some(n / 2), Some(n - 1)][f])));
    for_all(ctx, "long chains", cases, |&(n, failing)| {
        let mut o = Outcome::default();
        let log = Log::new();
        let mut chain = MiddlewareChain::new();
        for i in 0..n {
            let kind = if Some(i) == failing { M::ChangeFail } else { M::Change };
            chain.add(Arc::new(Member { i, kind, log: log.clone(), slow: i % 2 == 1 }));
        }
        let upto = failing.map_or(n, |f| f + 1);
        for dir in ["q", "p", "s", "r"] {
            o.transitions += upto as u64;
            let mut r = JSONRPCRequest::new(RequestId::Number(4), "start", Some(json!([])));
            let mut p = JSONRPCResponse::success(RequestId::Number(4), json!([]));
            let res = block_on(async {
                match dir {
                    "q" => chain.process_request(&mut r).await,
                    "p" => chain.process_response(&mut p).await,
                    "s" => chain.process_send(&message(2)).await,
                    _ => chain.process_receive(&message(2)).await,
                }
            });
            let calls: Vec<String> = log.take().into_iter().map(|l: String| l.split(':').next().unwrap_or("").to_string()).collect();
            expect_eq(&mut o, "order", format!("{n} members, {failing:?} failing, direction {dir}: calls"), calls, (0..upto).map(|i| format!("{dir}{i}")).collect::<Vec<_>>());
            expect_eq(&mut o, "reported", format!("{n} members, {failing:?} failing, direction {dir}: accepted"), res.is_ok(), failing.is_none());
            let changes = json!((0..upto).collect::<Vec<_>>());
            match dir {
                "q" => expect_eq(&mut o, "request", format!("{n} members, {failing:?} failing"), r.params.unwrap_or(Value::Null), changes),
                "p" => expect_eq(&mut o, "response", format!("{n} members, {failing:?} failing"), p.result().cloned().unwrap_or(Value::Null), changes),
                _ => true,
            };
        }
        o.observed = format!("{n} {failing:?}");
        o
    });

    // one member in several places of a chain, and chains that grow between messages
    let len = ctx.by(6, 7);
    let cases = sequences_upto(4, len).flat_map(|s| [false, true].map(|grow| (s.clone(), grow)));
    for_all(ctx, &format!("chains of at most {len} places for 4 members"), cases, |(s, grow)| {
        let mut o = Outcome::default();
        let log = Log::new();
        let pool: Vec<Arc<dyn Middleware>> = [M::Change, M::Change, M::Pass, M::Fail].into_iter().enumerate().map(|(i, kind)| Arc::new(Member { i, kind, log: log.clone(), slow: false }) as Arc<dyn Middleware>).collect();
        let mut chain = MiddlewareChain::new();
        let mut places = vec![];
        for (k, &i) in s.iter().enumerate() {
            chain.add(pool[i].clone());
            places.push(i);
            if !grow && k + 1 < s.len() {
                continue;
            }
            let upto = places.iter().position(|i| *i == 3).map_or(places.len(), |f| f + 1);
            for dir in ["q", "p", "s", "r"] {
                o.transitions += upto as u64;
                let mut r = JSONRPCRequest::new(RequestId::Number(4), "start", Some(json!([])));
                let mut p = JSONRPCResponse::success(RequestId::Number(4), json!([]));
                let res = block_on(async {
                    match dir {
                        "q" => chain.process_request(&mut r).await,
                        "p" => chain.process_response(&mut p).await,
                        "s" => chain.process_send(&message(2)).await,
                        _ => chain.process_receive(&message(2)).await,
                    }
                });
                let calls: Vec<String> = log.take().into_iter().map(|l: String| l[..2].to_string()).collect();
                let want: Vec<String> = places[..upto].iter().map(|i| format!("{dir}{i}")).collect();
                expect_eq(&mut o, "order", format!("members {places:?} direction {dir}: calls"), calls, want);
                expect_eq(&mut o, "reported", format!("members {places:?} direction {dir}: accepted"), res.is_ok(), !places.contains(&3));
                let changes = json!(places[..upto].iter().filter(|i| **i < 2).collect::<Vec<_>>());
                match dir {
                    "q" => expect_eq(&mut o, "request", format!("members {places:?}"), r.params.unwrap_or(Value::Null), changes),
                    "p" => expect_eq(&mut o, "response", format!("members {places:?}"), p.result().cloned().unwrap_or(Value::Null), changes),
                    _ => true,
                };
            }
        }
        o.observed = format!("{}", s.len());
        o
    });

    // two messages through one chain at once
    let dev = ctx.by(6, 8);
    explore(ctx, &format!("two messages at once, deviations<={dev}"), Bounds::dev(dev).secs(ctx.by(30, 300)), |ex| {
        let mut o = Outcome::default();
        let fail_at = ex.choose(4);
        let log = Log::new();
        let mut chain = MiddlewareChain::new();
        for i in 0..3 {
            chain.add(Arc::new(Member { i, kind: if i == fail_at { M::Fail } else { M::Change }, log: log.clone(), slow: true }));
        }
        let chain = Arc::new(chain);
        let r = run_async(&ex, HOUR, true, async {
            let hs: Vec<_> = (0..2)
                .map(|k| {
                    let c = chain.clone();
                    tokio::spawn(async move {
                        let mut r = JSONRPCRequest::new(RequestId::Number(k), format!("k{k}"), Some(json!([])));
                        let ok = c.process_request(&mut r).await.is_ok();
                        (ok, r.params)
                    })
                })
                .collect();
            let mut v = vec![];
            for h in hs {
                v.push(h.await.ok());
            }
            v
        });
        let want: Vec<usize> = (0..3).take_while(|i| *i != fail_at).collect();
        let want = Some((fail_at == 3, Some(json!(want))));
        let all = log.get();
        for k in 0..2 {
            let mine: Vec<String> = all.iter().filter(|l| l.contains(&format!("k{k}"))).map(|l| l[..2].to_string()).collect();
            let w: Vec<String> = (0..3usize.min(fail_at + 1)).map(|i| format!("q{i}")).collect();
            expect_eq(&mut o, "order", format!("failing {fail_at}, message {k}"), mine, w);
        }
        o.observed = format!("{all:?}");
        match r {
            Some(v) => {
                expect_eq(&mut o, "concurrent", format!("failing {fail_at}"), v, vec![want.clone(), want]);
            },
            None => deadlock(&mut o, "two messages"),
        }
        o
    });
}

// ------------------------------------------------------------------ C26

const VERIFIER: &str = "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk";
const CHALLENGE: &str = "E9Melhoa2OwvFrEMTJguCHaoeK1t8URWbuGJSstw-cM";
const CB: &str = "http://a/cb";
const CB2: &str = "http://a/cb2";

fn client(id: &str, secret: Option<&str>) -> OAuthClient {
    OAuthClient {
        client_id: id.into(),
        client_secret: secret.map(String::from),
        client_name: format!("name {id}"),
        redirect_uris: vec![CB.into(), CB2.into()],
        grant_types: vec![GrantType::AuthorizationCode],
        response_types: vec![ResponseType::Code],
        scopes: vec!["read".into(), "write".into()],
        metadata: HashMap::new(),
    }
}

async fn provider() -> InMemoryOAuthProvider {
    let p = InMemoryOAuthProvider::new("http://as");
    let _ = p.register_client(client("A", Some("sa"))).await;
    let _ = p.register_client(client("AA", Some("sb"))).await;
    p
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Mis {
    Right,
    Client,
    NoClient,
    Redirect,
    NoRedirect,
    Verifier,
    NoVerifier,
    Secret,
    NoSecret,
    Grant,
}
use Mis::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum A {
    /// authorize: 0 = A without PKCE, 1 = A with S256, 2 = B plain
    Auth(usize),
    /// exchange the newest / oldest code
    Exch(bool, Mis),
    /// refresh with the newest / oldest token's refresh token
    Refresh(bool),
    RevokeAccess(bool),
    RevokeRefresh(bool),
    Adv(u64),
}

#[derive(Clone, Debug)]
struct MC {
    code: String,
    kind: usize,
    issued: u64,
    used: bool,
}
#[derive(Clone, Debug)]
struct MT {
    access: String,
    refresh: String,
    kind: usize,
    issued: u64,
    live: bool,
    /// refresh token still usable
    usable: bool,
}

fn scopes(kind: usize) -> Vec<String> {
    [vec!["read"], vec!["read", "write"], vec![]][kind].iter().map(|s| (*s).to_string()).collect()
}
fn owner(kind: usize) -> (&'static str, &'static str) {
    if kind == 2 {
        ("AA", "sb")
    } else {
        ("A", "sa")
    }
}
fn user(kind: usize) -> String {
    format!("u{kind}")
}

fn request(kind: usize, code: &str, mis: Mis) -> TokenRequest {
    let (id, secret) = owner(kind);
    let other = if id == "A" { ("AA", "sb") } else { ("A", "sa") };
    let verifier = [None, Some(VERIFIER), Some("plain-text")][kind];
    TokenRequest {
        grant_type: if mis == Grant { GrantType::RefreshToken } else { GrantType::AuthorizationCode },
        code: Some(code.into()),
        redirect_uri: match mis {
            NoRedirect => None,
            Redirect => Some(CB2.into()),
            _ => Some(CB.into()),
        },
        client_id: match mis {
            NoClient => None,
            Client => Some(other.0.into()),
            _ => Some(id.into()),
        },
        client_secret: match mis {
            NoSecret => None,
            Secret => Some("wrong".into()),
            Client => Some(other.1.into()),
            _ => Some(secret.into()),
        },
        refresh_token: None,
        username: None,
        password: None,
        scope: None,
        code_verifier: match mis {
            NoVerifier => None,
            Verifier => Some(format!("{}x", verifier.unwrap_or_default())),
            _ => verifier.map(String::from),
        },
    }
}

async fn authorize(p: &InMemoryOAuthProvider, kind: usize) -> String {
    let (ch, m) = [(None, None), (Some(CHALLENGE), Some("S256")), (Some("plain-text"), Some("plain"))][kind];
    p.create_authorization_code(owner(kind).0, &user(kind), CB, scopes(kind), ch.map(String::from), m.map(String::from)).await.unwrap_or_default()
}

fn history(ops: &[A]) -> Outcome {
    let mut o = Outcome::default();
    let clock = vm::Clock::new();
    vm::join_clock(&clock);
    let what = |k: usize| format!("{:?}", &ops[..=k]);
    block_on(async {
        let p = provider().await;
        let (mut codes, mut toks): (Vec<MC>, Vec<MT>) = (vec![], vec![]);
        let mut seen: HashSet<String> = HashSet::new();
        for (k, op) in ops.iter().enumerate() {
            o.transitions += 1;
            let now = clock.now().as_secs();
            let mut got: Option<pmcp::Result<pmcp::server::auth::AccessToken>> = None;
            let mut want: Option<usize> = None;
            match op {
                A::Auth(kind) => {
                    let code = authorize(&p, *kind).await;
                    if !seen.insert(code.clone()) {
                        o.fail("repeated-code", what(k));
                    }
                    codes.push(MC { code, kind: *kind, issued: now, used: false });
                },
                A::Exch(newest, mis) => {
                    let Some(c) = (if *newest { codes.last_mut() } else { codes.first_mut() }) else { continue };
                    got = Some(p.exchange_code(&request(c.kind, &c.code, *mis)).await);
                    // a verifier is only looked at where a challenge was given
                    let fits = *mis == Right || (c.kind == 0 && matches!(mis, Verifier | NoVerifier));
                    if fits && !c.used && now < c.issued + 600 {
                        want = Some(c.kind);
                    }
                    c.used |= *mis != Grant;
                },
                A::Refresh(newest) => {
                    let Some(t) = (if *newest { toks.last_mut() } else { toks.first_mut() }) else { continue };
                    got = Some(p.refresh_token(&t.refresh).await);
                    if t.usable {
                        want = Some(t.kind);
                    }
                    t.usable = false;
                    t.live = false;
                },
                A::RevokeAccess(newest) | A::RevokeRefresh(newest) => {
                    let Some(t) = (if *newest { toks.last_mut() } else { toks.first_mut() }) else { continue };
                    let acc = matches!(op, A::RevokeAccess(_));
                    let r = p.revoke_token(if acc { &t.access } else { &t.refresh }).await;
                    if r.is_err() {
                        o.fail("revocation-failed", format!("{}: {r:?}", what(k)));
                    }
                    if acc || t.usable {
                        t.live = false;
                        t.usable = false;
                    }
                },
                A::Adv(s) => clock.advance(Duration::from_secs(*s)),
            }
            match (got, want) {
                (None, _) => {},
                (Some(Ok(t)), Some(kind)) => {
                    let refresh = t.refresh_token.clone().unwrap_or_default();
                    let fresh = seen.insert(t.access_token.clone()) & seen.insert(refresh.clone());
                    if !fresh || t.scope != Some(scopes(kind).join(" ")) || t.expires_in != Some(3600) {
                        o.fail("issued-token", format!("{}: {t:?}, scopes {:?}", what(k), scopes(kind)));
                    }
                    toks.push(MT { access: t.access_token, refresh, kind, issued: now, live: true, usable: true });
                },
                (Some(Err(_)), None) => {},
                (Some(Ok(t)), None) => o.fail("token-issued", format!("{}: issued {t:?}, should have been refused", what(k))),
                (Some(Err(e)), Some(_)) => o.fail("token-refused", format!("{}: refused with {e}", what(k))),
            }
            let now = clock.now().as_secs();
            for t in &toks {
                let r = p.validate_token(&t.access).await;
                let ok = t.live && now < t.issued + 3600;
                let same = match &r {
                    Ok(i) => ok && i.client_id == owner(t.kind).0 && i.user_id == user(t.kind) && i.scopes == scopes(t.kind) && i.token == t.access,
                    Err(_) => !ok,
                };
                if !same && now != t.issued + 3600 {
                    o.fail("validation", format!("{}: {r:?}, expected valid: {ok} ({t:?})", what(k)));
                }
                // a refresh token is no access token
                if p.validate_token(&t.refresh).await.is_ok() {
                    o.fail("refresh-as-access", what(k));
                }
            }
            if !o.fails.is_empty() {
                break;
            }
        }
        o.observed = format!("{:?}", toks.iter().map(|t| (t.kind, t.live, t.usable)).collect::<Vec<_>>());
    });
    vm::leave_clock();
    o
}

pub fn c26(ctx: &Ctx) {
    ctx.assume("at the very second of expiry either answer is accepted");
    ctx.assume("a code presented with wrong particulars is used up");
    let mut alpha = vec![A::Auth(0), A::Auth(1), A::Refresh(true), A::Refresh(false), A::RevokeAccess(false), A::RevokeRefresh(false), A::RevokeRefresh(true), A::Adv(400), A::Adv(3000)];
    for m in [Right, Client, Redirect, Verifier, NoVerifier, Secret] {
        alpha.push(A::Exch(true, m));
    }
    alpha.push(A::Exch(false, Right));
    let depth = ctx.by(5, 6);
    let alpha = Arc::new(alpha);
    let a2 = alpha.clone();
    let cases = (0..3).flat_map(move |kind| {
        let a = a2.clone();
        sequences(a.len(), depth - 1).map(move |q| {
            let mut v = vec![A::Auth(kind)];
            v.extend(q.into_iter().map(|i| a[i]));
            v
        })
    });
    for_all(ctx, &format!("grant histories of {depth} operations"), cases, |ops| history(ops));
    // after a first grant
    let beta = [A::Refresh(true), A::Refresh(false), A::RevokeAccess(true), A::RevokeAccess(false), A::RevokeRefresh(true), A::RevokeRefresh(false), A::Adv(1700), A::Adv(1800), A::Exch(false, Right)];
    let bd = ctx.by(5, 6);
    let cases = sequences(beta.len(), bd).map(move |q| {
        let mut v = vec![A::Auth(1), A::Exch(true, Right)];
        v.extend(q.into_iter().map(|i| beta[i]));
        v
    });
    for_all(ctx, &format!("token histories of {bd} operations"), cases, |ops| history(ops));
    // every wrong particular, around the expiry
    let mut v = vec![];
    for kind in 0..3 {
        for m in [Right, Client, NoClient, Redirect, NoRedirect, Verifier, NoVerifier, Secret, NoSecret, Grant] {
            for adv in [0u64, 599, 601] {
                v.push(vec![A::Auth(kind), A::Adv(adv), A::Exch(true, m), A::Exch(true, Right), A::Adv(3599), A::Adv(2), A::Refresh(true), A::Refresh(false)]);
            }
        }
    }
    for_all(ctx, "particulars and expiry", v, |ops| history(ops));

    // PKCE methods
    let mut v = vec![];
    let (lower, upper) = (CHALLENGE.to_lowercase(), VERIFIER.to_uppercase());
    let (lower, upper): (&'static str, &'static str) = (lower.leak(), upper.leak());
    for ch in [CHALLENGE, VERIFIER, "", "E9Melhoa2OwvFrEMTJguCHaoeK1t8URWbuGJSstw-cM=", lower, upper, &VERIFIER[1..], &CHALLENGE[..42]] {
        for m in [None, Some("plain"), Some("S256"), Some("s256"), Some("none"), Some("")] {
            for ver in [None, Some(VERIFIER), Some(CHALLENGE), Some(""), Some(lower), Some(upper), Some(&VERIFIER[..10])] {
                v.push((ch, m, ver));
            }
        }
    }
    for_all(ctx, "PKCE", v, |&(ch, m, ver)| {
        let mut o = Outcome::default();
        let got = block_on(async {
            let p = provider().await;
            let code = p.create_authorization_code("A", "u", CB, vec![], Some(ch.into()), m.map(String::from)).await.unwrap_or_default();
            let mut r = request(0, &code, Right);
            r.code_verifier = ver.map(String::from);
            p.exchange_code(&r).await.is_ok()
        });
        let want = match (m.unwrap_or("plain"), ver) {
            (_, None) => false,
            ("plain", Some(v)) => v == ch,
            ("S256", Some(v)) => v == VERIFIER && ch == CHALLENGE,
            _ => false,
        };
        o.observed = format!("{got}");
        expect_eq(&mut o, "pkce", format!("challenge {ch:?}, method {m:?}, verifier {ver:?}"), got, want);
        o
    });

    // authorization requests
    let mut v = vec![];
    for id in ["A", "AA", "C", ""] {
        for uri in [CB, CB2, "http://a/cb/", "http://a/c", "HTTP://A/CB", "http://evil/cb", ""] {
            for code in [true, false] {
                for scope in ["", "read", "read write", " write  read ", "admin", "read admin", "rea", "read,write"] {
                    v.push((id, uri, code, scope));
                }
            }
        }
    }
    for_all(ctx, "authorization requests", v, |&(id, uri, code, scope)| {
        let mut o = Outcome::default();
        let got = block_on(async {
            provider()
                .await
                .validate_authorization(&AuthorizationRequest {
                    response_type: if code { ResponseType::Code } else { ResponseType::Token },
                    client_id: id.into(),
                    redirect_uri: uri.into(),
                    scope: scope.into(),
                    state: None,
                    code_challenge: None,
                    code_challenge_method: None,
                })
                .await
                .is_ok()
        });
        let want = ["A", "AA"].contains(&id) && [CB, CB2].contains(&uri) && code && scope.split_whitespace().all(|s| s == "read" || s == "write");
        o.observed = format!("{got}");
        expect_eq(&mut o, "authorization", format!("client {id:?} redirect {uri:?} code {code} scope {scope:?}"), got, want);
        o
    });

    // registration
    for_all(ctx, "registration", 0..12usize, |&k| {
        let mut o = Outcome::default();
        block_on(async {
            let p = provider().await;
            let (id, sec) = (["", "N"][k % 2], [None, Some("s")][k / 2 % 2]);
            // a client that says little of itself is no less a client
            let about = |mut c: OAuthClient| {
                if k / 4 > 0 {
                    c.redirect_uris.clear();
                }
                if k / 4 > 1 {
                    c.client_name.clear();
                    c.grant_types.clear();
                    c.response_types.clear();
                    c.scopes.clear();
                }
                c
            };
            let r = p.register_client(about(client(id, sec))).await.unwrap();
            let r2 = p.register_client(about(client(id, sec))).await.unwrap();
            let stored = p.get_client(&r2.client_id).await.unwrap();
            let ok = !r.client_id.is_empty()
                && (id.is_empty() && r.client_id != r2.client_id || r.client_id == id)
                && (sec.is_none() && r.client_secret.as_ref().is_some_and(|s| !s.is_empty()) && r.client_secret != r2.client_secret || r.client_secret.as_deref() == sec)
                && stored.is_some_and(|s| s.client_secret == r2.client_secret && s.redirect_uris == r2.redirect_uris);
            if !ok {
                o.fail("registration", format!("id {id:?} secret {sec:?}: {r:?} {r2:?}"));
            }
        });
        o
    });

    concurrent(ctx);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Q {
    Exch,
    ExchWrong,
    Refresh,
    RevokeAccess,
    RevokeRefresh,
    Validate,
    Issue,
    /// The second half of Refresh and RevokeRefresh (in the specification only).
    Drop,
    DropRevoked,
}
#[derive(Clone, Debug)]
struct S {
    code: bool,
    live: bool,
    usable: bool,
    pending: bool,
    revoking: bool,
}

fn concurrent(ctx: &Ctx) {
    let all = [Q::Exch, Q::ExchWrong, Q::Refresh, Q::RevokeAccess, Q::RevokeRefresh, Q::Validate, Q::Issue];
    let mut progs: Vec<Vec<Q>> = all.iter().map(|q| vec![*q]).collect();
    for a in [Q::Exch, Q::Refresh, Q::RevokeAccess, Q::RevokeRefresh] {
        progs.push(vec![a, Q::Validate]);
        progs.push(vec![a, Q::Refresh]);
        progs.push(vec![Q::Validate, a]);
    }
    let dev = ctx.by(3, 4);
    explore(ctx, &format!("two requests at once, deviations<={dev}"), Bounds::dev(dev).secs(ctx.by(60, 500)), |ex| {
        let mut o = Outcome::default();
        let (a, b) = (progs[ex.choose(progs.len())].clone(), progs[ex.choose(progs.len())].clone());
        let what = format!("{a:?} || {b:?}");
        let clock = vm::Clock::new();
        vm::join_clock(&clock);
        let r = run_async(&ex, HOUR, true, async {
            let p = Arc::new(provider().await);
            let code = authorize(&p, 1).await;
            let c0 = authorize(&p, 0).await;
            let t = p.exchange_code(&request(0, &c0, Right)).await.expect("first token");
            let (acc, rf) = (t.access_token, t.refresh_token.unwrap_or_default());
            let hs: Vec<_> = [a, b]
                .into_iter()
                .map(|prog| {
                    let (p, code, acc, rf) = (p.clone(), code.clone(), acc.clone(), rf.clone());
                    tokio::spawn(async move {
                        let (mut v, mut new) = (vec![], vec![]);
                        for q in prog {
                            let r = match q {
                                Q::Exch => p.exchange_code(&request(1, &code, Right)).await.map(Some),
                                Q::ExchWrong => p.exchange_code(&request(1, &code, Verifier)).await.map(Some),
                                Q::Refresh => p.refresh_token(&rf).await.map(Some),
                                Q::RevokeAccess => p.revoke_token(&acc).await.map(|()| None),
                                Q::RevokeRefresh => p.revoke_token(&rf).await.map(|()| None),
                                Q::Validate => p.validate_token(&acc).await.map(|_| None),
                                Q::Issue => p.create_access_token("AA", "z", vec![]).await.map(Some),
                                Q::Drop | Q::DropRevoked => unreachable!(),
                            };
                            v.push((q, r.is_ok()));
                            if let Ok(Some(t)) = r {
                                new.push((q, t));
                            }
                        }
                        (v, new)
                    })
                })
                .collect();
            let mut threads = vec![];
            let mut bad = vec![];
            for h in hs {
                let (v, new) = h.await.unwrap_or_default();
                for (q, t) in new {
                    let want = match q {
                        Q::Exch | Q::ExchWrong => ("A", user(1), scopes(1)),
                        Q::Refresh => ("A", user(0), scopes(0)),
                        _ => ("AA", "z".to_string(), vec![]),
                    };
                    match p.validate_token(&t.access_token).await {
                        Ok(i) if (i.client_id.as_str(), i.user_id.clone(), i.scopes.clone()) == want => {},
                        x => bad.push(format!("token from {q:?} validates as {x:?}")),
                    }
                    if p.refresh_token(&t.refresh_token.clone().unwrap_or_default()).await.is_err() {
                        bad.push(format!("the refresh token from {q:?} does not work"));
                    }
                }
                threads.push(v);
            }
            let fin = (p.exchange_code(&request(1, &code, Right)).await.is_ok(), p.validate_token(&acc).await.is_ok(), p.refresh_token(&rf).await.is_ok());
            (threads, bad, fin)
        });
        vm::leave_clock();
        let Some((threads, bad, fin)) = r else {
            deadlock(&mut o, &what);
            return o;
        };
        o.observed = format!("{threads:?}{fin:?}");
        for b in bad {
            o.fail("new-token", format!("{what}: {b}"));
        }
        let threads: Vec<Vec<(Q, bool)>> = threads
            .into_iter()
            .map(|t| t.into_iter()
                    .flat_map(|(q, r)| {
                        let second = match (q, r) {
                            (Q::Refresh, true) => Some((Q::Drop, true)),
                            (Q::RevokeRefresh, true) => Some((Q::DropRevoked, true)),
                            _ => None,
                        };
                        std::iter::once((q, r)).chain(second)
                    })
                    .collect())
            .collect();
        let init = S { code: true, live: true, usable: true, pending: false, revoking: false };
        let ok = linearizable(
            &init,
            &threads,
            &|s: &mut S, q: &Q| match q {
                Q::Exch => std::mem::take(&mut s.code),
                Q::ExchWrong => {
                    s.code = false;
                    false
                },
                Q::Refresh => {
                    s.pending |= s.usable;
                    std::mem::take(&mut s.usable)
                },
                // the access token goes after its refresh token, not with it
                Q::Drop => {
                    s.live &= !s.pending;
                    true
                },
                Q::DropRevoked => {
                    s.live &= !s.revoking;
                    true
                },
                Q::RevokeAccess => {
                    s.live = false;
                    s.usable = false;
                    true
                },
                Q::RevokeRefresh => {
                    s.revoking |= std::mem::take(&mut s.usable);
                    true
                },
                Q::Validate => s.live,
                Q::Issue => true,
            },
            &|s: &S| (s.code, s.live, s.usable) == fin,
        );
        if !ok {
            o.fail("interleaving", format!("{what}: no order of the requests explains {threads:?} and, afterwards, (code, token, refresh) = {fin:?}"));
        }
        o
    });
}

// ------------------------------------------------------------------ C27

/// A composition of checks.
#[derive(Clone, Debug)]
enum K {
    Bearer(bool),
    Creds,
    Scope(bool, Vec<&'static str>, Box<K>),
    Comp(bool, Vec<K>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Ident(String, String, Vec<String>);

fn anonymous() -> Ident {
    Ident("anonymous".into(), "anonymous".into(), vec![])
}

/// The in-memory provider, with a client that has no secret, one whose lookup
/// fails, and a token whose check fails.
struct Provider(InMemoryOAuthProvider);

#[async_trait::async_trait]
impl OAuthProvider for Provider {
    async fn register_client(&self, client: OAuthClient) -> pmcp::Result<OAuthClient> {
        self.0.register_client(client).await
    }
    async fn get_client(&self, client_id: &str) -> pmcp::Result<Option<OAuthClient>> {
        match client_id {
            "public" => {
                let mut c = client("public", None);
                c.scopes = vec!["read".into()];
                Ok(Some(c))
            },
            "broken" => Err(pmcp::Error::internal("store unavailable")),
            _ => self.0.get_client(client_id).await,
        }
    }
    async fn validate_authorization(&self, request: &AuthorizationRequest) -> pmcp::Result<()> {
        self.0.validate_authorization(request).await
    }
    async fn create_authorization_code(&self, a: &str, b: &str, c: &str, d: Vec<String>, e: Option<String>, f: Option<String>) -> pmcp::Result<String> {
        self.0.create_authorization_code(a, b, c, d, e, f).await
    }
    async fn exchange_code(&self, request: &TokenRequest) -> pmcp::Result<AccessToken> {
        self.0.exchange_code(request).await
    }
    async fn create_access_token(&self, a: &str, b: &str, c: Vec<String>) -> pmcp::Result<AccessToken> {
        self.0.create_access_token(a, b, c).await
    }
    async fn refresh_token(&self, t: &str) -> pmcp::Result<AccessToken> {
        self.0.refresh_token(t).await
    }
    async fn revoke_token(&self, t: &str) -> pmcp::Result<()> {
        self.0.revoke_token(t).await
    }
    async fn validate_token(&self, t: &str) -> pmcp::Result<TokenInfo> {
        if t == "broken" {
            return Err(pmcp::Error::internal("store unavailable"));
        }
        self.0.validate_token(t).await
    }
    async fn metadata(&self) -> pmcp::Result<OAuthMetadata> {
        self.0.metadata().await
    }
}

struct World {
    p: Arc<Provider>,
    clock: Arc<vm::Clock>,
    /// token -> identity, None if it must not validate
    tokens: BTreeMap<&'static str, (String, Option<Ident>)>,
}

fn world() -> World {
    let clock = vm::Clock::new();
    vm::join_clock(&clock);
    let mut tokens = BTreeMap::new();
    let p = Arc::new(Provider(InMemoryOAuthProvider::new("http://as")));
    block_on(async {
        let mut r = client("A", Some("sa"));
        r.scopes = vec!["read".into()];
        let _ = p.register_client(r).await;
        let mut w = client("AA", Some(""));
        w.scopes = vec!["read".into(), "write".into()];
        let _ = p.register_client(w).await;
        let issue = |sc: &'static [&'static str]| {
            let p = p.clone();
            async move { p.create_access_token("A", "user", sc.iter().map(|s| (*s).to_string()).collect()).await.expect("token") }
        };
        let old = issue(&["read", "write"]).await;
        clock.advance(Duration::from_secs(4000));
        let id = |sc: &[&str]| Some(Ident("A".into(), "user".into(), sc.iter().map(|s| (*s).to_string()).collect()));
        let (none, read, both, revoked, replaced) = (issue(&[]).await, issue(&["read"]).await, issue(&["write", "read"]).await, issue(&["read"]).await, issue(&["read", "write"]).await);
        let _ = p.revoke_token(&revoked.access_token).await;
        let _ = p.refresh_token(&replaced.refresh_token.clone().unwrap_or_default()).await;
        tokens.insert("expired", (old.access_token, None));
        tokens.insert("no-scope", (none.access_token.clone(), id(&[])));
        tokens.insert("read", (read.access_token.clone(), id(&["read"])));
        tokens.insert("both", (both.access_token, id(&["write", "read"])));
        tokens.insert("revoked", (revoked.access_token, None));
        tokens.insert("replaced", (replaced.access_token, None));
        tokens.insert("refresh", (read.refresh_token.unwrap_or_default(), None));
        tokens.insert("padded", (format!(" {}", none.access_token), None));
        tokens.insert("prefix", (read.access_token[..20].to_string(), None));
        tokens.insert("empty", (String::new(), None));
        tokens.insert("client", ("A".into(), None));
        tokens.insert("broken", ("broken".into(), None));
    });
    World { p, clock, tokens }
}

fn build(k: &K, p: &Arc<Provider>) -> Box<dyn ServerAuth> {
    match k {
        K::Bearer(required) => Box::new(BearerTokenMiddleware::new(p.clone()).with_required(*required)),
        K::Creds => Box::new(ClientCredentialsMiddleware::new(p.clone())),
        K::Scope(all, s, inner) => {
            let s = s.iter().map(|x| (*x).to_string()).collect();
            let inner = build(inner, p);
            Box::new(if *all { ScopeMiddleware::all(inner, s) } else { ScopeMiddleware::any(inner, s) })
        },
        K::Comp(any, v) => Box::new(CompositeMiddleware::new(v.iter().map(|k| build(k, p)).collect()).with_require_any(*any)),
    }
}

#[derive(Clone, Debug)]
struct Cred {
    scheme: AuthScheme,
    token: Option<&'static str>,
    id: Option<Value>,
    secret: Option<Value>,
}

fn want(k: &K, c: Option<&Cred>, w: &World) -> Option<Ident> {
    match k {
        K::Bearer(required) => match c {
            None => (!required).then(anonymous),
            Some(c) if c.scheme == AuthScheme::Bearer => c.token.and_then(|t| w.tokens[t].1.clone()),
            Some(_) => None,
        },
        K::Creds => {
            let c = c?;
            match (c.id.as_ref()?.as_str()?, c.secret.as_ref()?.as_str()?) {
                ("A", "sa") => Some(Ident("A".into(), "A".into(), vec!["read".into()])),
                ("AA", "") => Some(Ident("AA".into(), "AA".into(), vec!["read".into(), "write".into()])),
                _ => None,
            }
        },
        K::Scope(all, s, inner) => {
            let i = want(inner, c, w)?;
            let has = |x: &&&str| i.2.iter().any(|y| y == **x);
            let n = s.iter().filter(has).count();
            (if *all { n == s.len() } else { n > 0 }).then_some(i)
        },
        K::Comp(any, v) => v.iter().find_map(|k| want(k, c, w)).or_else(|| (!any).then(anonymous)),
    }
}

fn required(k: &K) -> bool {
    match k {
        K::Bearer(r) => *r,
        K::Creds => true,
        K::Scope(_, _, i) => required(i),
        K::Comp(any, v) => *any && v.iter().any(required),
    }
}

fn grow(leaves: &[K], lists: &[Vec<&'static str>]) -> Vec<K> {
    let mut v = vec![];
    for k in leaves {
        for s in lists {
            for all in [true, false] {
                v.push(K::Scope(all, s.clone(), Box::new(k.clone())));
            }
        }
    }
    for any in [true, false] {
        v.push(K::Comp(any, vec![]));
        for a in leaves {
            v.push(K::Comp(any, vec![a.clone()]));
            for b in leaves {
                v.push(K::Comp(any, vec![a.clone(), b.clone()]));
            }
        }
    }
    v
}

pub fn c27(ctx: &Ctx) {
    let leaves = vec![K::Bearer(true), K::Bearer(false), K::Creds];
    let lists: Vec<Vec<&'static str>> = vec![vec![], vec!["read"], vec!["write"], vec!["read", "write"], vec!["admin"], vec!["admin", "read"], vec!["rea"], vec!["READ"], vec!["read", "read"]];
    let one = grow(&leaves, &lists);
    let mut all = leaves.clone();
    all.extend(one.iter().cloned());
    // a second layer over a choice of the first
    let few: Vec<K> = one.iter().enumerate().filter(|(i, _)| ctx.thorough() || i % 2 == 0 || *i > 50).map(|x| x.1.clone()).collect();
    all.extend(grow(&few, &lists[1..ctx.by(6, 8)]));
    // credentials
    let mut creds: Vec<Option<Cred>> = vec![None];
    let toks: Vec<Option<&'static str>> = {
        let w = world();
        vm::leave_clock();
        std::iter::once(None).chain(w.tokens.keys().map(|k| Some(*k))).collect()
    };
    for scheme in [AuthScheme::Bearer, AuthScheme::None, AuthScheme::OAuth2, AuthScheme::Custom("bearer".into()), AuthScheme::Custom("basic".into())] {
        for t in &toks {
            creds.push(Some(Cred { scheme: scheme.clone(), token: *t, id: None, secret: None }));
        }
        for id in [None, Some(json!("A")), Some(json!("AA")), Some(json!("C")), Some(json!("public")), Some(json!("broken")), Some(json!("")), Some(json!(5)), Some(json!(null)), Some(json!(["A"]))] {
            for secret in [None, Some(json!("sa")), Some(json!("")), Some(json!("sb")), Some(json!("SA")), Some(json!(null)), Some(json!(7))] {
                creds.push(Some(Cred { scheme: scheme.clone(), token: None, id: id.clone(), secret: secret.clone() }));
            }
        }
        creds.push(Some(Cred { scheme: scheme.clone(), token: Some("both"), id: Some(json!("A")), secret: Some(json!("nope")) }));
        creds.push(Some(Cred { scheme: scheme.clone(), token: Some("revoked"), id: Some(json!("AA")), secret: Some(json!("")) }));
    }
    let creds = Arc::new(creds);
    ctx.section("alphabet", json!({"compositions": all.len(), "credentials": creds.len()}));
    for_all(ctx, "compositions over every credential", all, |k| {
        let mut o = Outcome::default();
        let w = world();
        let m = build(k, &w.p);
        expect_eq(&mut o, "is-required", format!("{k:?}"), m.is_required(), required(k));
        let (mut yes, mut anon) = (0, 0);
        for c in creds.iter() {
            o.transitions += 1;
            let info = c.as_ref().map(|c| {
                let mut params = HashMap::new();
                if let Some(v) = &c.id {
                    params.insert("client_id".to_string(), v.clone());
                }
                if let Some(v) = &c.secret {
                    params.insert("client_secret".to_string(), v.clone());
                }
                AuthInfo { scheme: c.scheme.clone(), token: c.token.map(|t| w.tokens[t].0.clone()), oauth: None, params }
            });
            let r: pmcp::Result<AuthContext> = block_on(m.authenticate(info.as_ref()));
            let want = want(k, c.as_ref(), &w);
            let got = r.as_ref().ok().map(|c| Ident(c.client_id.clone(), c.user_id.clone(), c.scopes.clone()));
            if got != want {
                o.fail(if got.is_some() { "admitted" } else { "refused" }, format!("{k:?} with {c:?}: {r:?}, expected {want:?}"));
                break;
            }
            yes += usize::from(want.is_some());
            anon += usize::from(want == Some(anonymous()));
            if let Err(e) = &r {
                let code = e.error_code();
                // a valid credential refused for its scopes is a permission matter
                let broken = c.as_ref().is_some_and(|c| c.id == Some(json!("broken")));
                if !broken && code != Some(ErrorCode::AUTHENTICATION_REQUIRED) && code != Some(ErrorCode::PERMISSION_DENIED) {
                    o.fail("refusal-code", format!("{k:?} with {c:?}: {e:?}"));
                }
                if let K::Scope(_, _, inner) = k {
                    let permission = self::want(inner, c.as_ref(), &w).is_some();
                    if permission != (code == Some(ErrorCode::PERMISSION_DENIED)) && !matches!(**inner, K::Scope(..) | K::Comp(..)) {
                        o.fail("refusal-code", format!("{k:?} with {c:?}: {e:?}"));
                    }
                }
            }
        }
        // time passes: what was valid no longer is
        w.clock.advance(Duration::from_secs(3700));
        let t = AuthInfo::bearer(w.tokens["both"].0.clone());
        let c = Cred { scheme: AuthScheme::Bearer, token: Some("expired"), id: None, secret: None };
        let later = block_on(m.authenticate(Some(&t))).is_ok();
        if later != self::want(k, Some(&c), &w).is_some() {
            o.fail("admitted", format!("{k:?}: a token past its expiry: admitted {later}"));
        }
        vm::leave_clock();
        o.observed = format!("{yes}/{anon}");
        o
    });
    // scope predicates
    let words = ["read", "write", "admin", ""];
    let cases = (0..16u32).flat_map(|h| (0..16u32).map(move |n| (h, n)));
    for_all(ctx, "scope predicates", cases, |&(h, n)| {
        let mut o = Outcome::default();
        let have: Vec<String> = (0..4).filter(|i| h >> i & 1 == 1).map(|i| words[i].to_string()).collect();
        let need: Vec<&str> = (0..4).filter(|i| n >> i & 1 == 1).map(|i| words[i]).collect();
        let c = AuthContext { client_id: String::new(), user_id: String::new(), scopes: have.clone(), metadata: serde_json::Map::new() };
        let got = (c.has_all_scopes(&need), c.has_any_scope(&need), words.map(|w| c.has_scope(w)));
        let want = (n & !h == 0, n & h != 0, [0, 1, 2, 3].map(|i| h >> i & 1 == 1));
        expect_eq(&mut o, "scope-predicates", format!("has {have:?}, needs {need:?}"), got, want);
        o
    });
}
