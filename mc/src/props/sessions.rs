//! C17 sessions, C19 event logs, C20 resumption.
use super::util::*;
use crate::ctx::Ctx;
use crate::explore::*;
use crate::tengine::{block_on, run_threads, End};
use crate::vm;
use pmcp::shared::event_store::{EventStore as LogStore, InMemoryEventStore as Log1, MessageDirection, ResumptionManager, StoredEvent};
use pmcp::shared::session::{Session, SessionCallbacks, SessionConfig, SessionManager, SessionMiddleware};
use pmcp::shared::TransportMessage;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock, Weak};
use std::time::Duration;

// ------------------------------------------------------------------ C17

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum S {
    Create,
    Get(usize),
    Validate(usize),
    Bump(usize),
    Auth(usize, &'static str),
    Destroy(usize),
    Cleanup,
    Cookie(usize),
    Header(usize),
    Advance,
    Renew(usize),
}
use S::*;

const SECS: i64 = 10;

fn manager(max: usize) -> SessionManager {
    SessionManager::new(SessionConfig { timeout: chrono::Duration::seconds(SECS), max_sessions: max, ..Default::default() })
}

fn view(s: &Session) -> (Value, Option<String>) {
    (s.data.clone(), if s.authenticated { s.auth_info.clone().or(Some("<none>".into())) } else { None })
}

fn bump(s: &mut Session) {
    let n = s.data["n"].as_u64().unwrap_or(0);
    s.data["n"] = json!(n + 1);
}

#[derive(Clone, Debug)]
struct MS {
    k: usize,
    exp: i64,
    n: u64,
    auth: Option<String>,
}
impl MS {
    fn view(&self) -> (Value, Option<String>) {
        (if self.n == 0 { json!({}) } else { json!({"n": self.n}) }, self.auth.clone())
    }
}

fn headers(kind: S, id: &str) -> HashMap<String, String> {
    let mut h = HashMap::new();
    match kind {
        Cookie(0) => h.insert("cookie".into(), format!("mcp-session-id={id}")),
        Cookie(_) => h.insert("Cookie".into(), format!("a=b; mcp-session-id={id}; c")),
        Header(0) => h.insert("X-Session-ID".into(), id.into()),
        _ => h.insert("x-session-id".into(), id.into()),
    };
    h
}

/// Which session a request's headers name.
fn c17_headers(ctx: &Ctx) {
    const NAME: &str = "mcp-session-id";
    // (cookie, does it name session A); everything else mentions session B
    type Pair = fn(&str, &str) -> (String, bool);
    let pairs: [Pair; 9] = [
        |a, _| (format!("{NAME}={a}"), true),
        |_, b| (format!("x{NAME}={b}"), false),
        |_, b| (format!("x-{NAME}={b}"), false),
        |_, b| (format!("{NAME}x={b}"), false),
        |_, b| (format!("q={NAME}={b}"), false),
        |_, b| (format!("session-id={b}"), false),
        |_, _| (NAME.to_string(), false),
        |_, _| (String::new(), false),
        |_, b| (b.to_string(), false),
    ];
    let cases = sequences_upto(pairs.len(), ctx.by(4, 5)).flat_map(|s| (0..12usize).map(move |k| (s.clone(), k)));
    for_all(ctx, "cookies and headers naming a session", cases, |(s, k)| {
        let mut o = Outcome::default();
        let m = Arc::new(manager(5));
        let (Ok(a), Ok(b)) = (m.create_session(None), m.create_session(None)) else {
            o.fail("refused", "two sessions of five");
            return o;
        };
        let cookies: Vec<(String, bool)> = s.iter().map(|&i| pairs[i](&a.id, &b.id)).collect();
        let mut h = HashMap::new();
        if !s.is_empty() {
            let text = cookies.iter().map(|c| c.0.clone()).collect::<Vec<_>>().join(["; ", ";"][k % 2]);
            h.insert(["cookie", "Cookie"][k / 2 % 2].to_string(), text);
        }
        // a session header as well: none, for B, for nobody
        let header = match k / 4 {
            1 => Some(b.id.clone()),
            2 => Some(format!("{}x", b.id)),
            _ => None,
        };
        if let Some(x) = &header {
            h.insert(["X-Session-ID", "x-session-id"][k % 2].to_string(), x.clone());
        }
        let want = if cookies.iter().any(|c| c.1) { Some(a.id.clone()) } else if k / 4 == 1 { Some(b.id.clone()) } else { None };
        let seen = Mutex::new(None);
        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
        let r = rt.block_on(SessionMiddleware::new(m).process(&h, |s| *seen.lock().unwrap() = s));
        let name = |x: &Option<String>| match x {
            Some(i) if *i == a.id => "A",
            Some(i) if *i == b.id => "B",
            Some(_) => "another",
            None => "none",
        };
        let got = seen.into_inner().unwrap().map(|s| s.id);
        o.observed = name(&got).into();
        if got != want || r.is_err() {
            o.fail("named-session", format!("cookies {:?}, session header {:?}: handled in session {}, expected {}", cookies.iter().map(|c| c.0.replace(&a.id, "A").replace(&b.id, "B")).collect::<Vec<_>>(), header.map(|x| x.replace(&b.id, "B")), name(&got), name(&want)));
        }
        o
    });
}

fn c17_sequential(ctx: &Ctx) {
    let ops = [Create, Get(0), Get(1), Validate(0), Validate(1), Bump(0), Bump(1), Auth(0, "x"), Auth(0, "y"), Destroy(0), Destroy(1), Cleanup, Cookie(0), Cookie(1), Header(0), Header(1), Advance];
    let depth = ctx.by(5, 6);
    for_all(ctx, &format!("session histories, length {depth}, at most 2 sessions"), sequences(ops.len(), depth), |s| {
        let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
        if ops[s[0]] != Create && ops[s[0]] != Cleanup {
            return o; // nothing exists yet
        }
        let clock = vm::Clock::new();
        vm::join_clock(&clock);
        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
        let (created, removed) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
        let mut m = manager(2);
        let (c, d, e) = (created.clone(), removed.clone(), removed.clone());
        m.set_callbacks(SessionCallbacks {
            on_create: Some(Box::new(move |_| {
                c.fetch_add(1, Ordering::SeqCst);
            })),
            on_destroy: Some(Box::new(move |_| {
                d.fetch_add(1, Ordering::SeqCst);
            })),
            on_expire: Some(Box::new(move |_| {
                e.fetch_add(1, Ordering::SeqCst);
            })),
        });
        let m = Arc::new(m);
        let mut ids: Vec<String> = vec![];
        let mut model: Vec<MS> = vec![]; // live and stale sessions
        let mut now = 0i64;
        for (step, &i) in s.iter().enumerate() {
            let op = ops[i];
            let at = || format!("after {:?}", s[..=step].iter().map(|&i| ops[i]).collect::<Vec<_>>());
            let idof = |k: usize| ids.get(k).cloned().unwrap_or_else(|| "no-such-session".into());
            let pos = |model: &Vec<MS>, k: usize| model.iter().position(|x| x.k == k);
            match op {
                Create => {
                    let live = model.iter().filter(|x| x.exp > now).count();
                    match m.create_session(None) {
                        Ok(x) => {
                            if live >= 2 {
                                o.fail("limit", format!("{}: a third live session was created", at()));
                            }
                            if ids.contains(&x.id) {
                                o.fail("id-reused", at());
                            }
                            if view(&x) != (json!({}), None) {
                                o.fail("new-session", format!("{}: {x:?}", at()));
                            }
                            model.push(MS { k: ids.len(), exp: now + SECS, n: 0, auth: None });
                            ids.push(x.id);
                        },
                        Err(_) => {
                            if model.len() < 2 {
                                o.fail("refused", format!("{}: creation refused with {} sessions", at(), model.len()));
                            }
                        },
                    }
                },
                Get(k) | Validate(k) | Cookie(k) | Header(k) => {
                    let id = idof(k);
                    let got = match op {
                        Get(_) => m.get_session(&id),
                        Validate(_) => m.validate_session(&id).ok(),
                        _ => {
                            let mw = SessionMiddleware::new(m.clone());
                            let seen = Mutex::new(None);
                            let r = rt.block_on(mw.process(&headers(op, &id), |s| *seen.lock().unwrap() = s));
                            let seen = seen.into_inner().unwrap();
                            match r {
                                Ok((s, ())) => {
                                    if s.as_ref().map(|s| &s.id) != seen.as_ref().map(|s| &s.id) {
                                        o.fail("middleware", format!("{}: handler given {seen:?}, reported {s:?}", at()));
                                    }
                                    s
                                },
                                Err(e) => {
                                    o.fail("middleware", format!("{}: {e}", at()));
                                    None
                                },
                            }
                        },
                    };
                    let want = pos(&model, k);
                    let stale = want.is_some_and(|p| model[p].exp < now);
                    match (&got, want) {
                        (Some(x), Some(p)) if x.id == id && view(x) == model[p].view() => {
                            if stale && !matches!(op, Get(_)) {
                                o.fail("expired-accepted", format!("{}: {x:?}", at()));
                            }
                        },
                        (None, None) => {},
                        (None, Some(_)) if stale => {
                            // refused, and possibly discarded
                            let gone = m.get_session(&id).is_none();
                            if gone {
                                model.remove(want.unwrap());
                            }
                        },
                        _ => o.fail("lookup", format!("{}: got {got:?}, expected {:?}", at(), want.map(|p| model[p].clone()))),
                    }
                },
                Bump(k) | Auth(k, _) => {
                    let id = idof(k);
                    let ok = match op {
                        Auth(_, w) => m.authenticate_session(&id, w.into()).is_ok(),
                        _ => m.update_session(&id, bump).is_ok(),
                    };
                    let want = pos(&model, k);
                    if ok != want.is_some() && !want.is_some_and(|p| model[p].exp < now) {
                        o.fail("update", format!("{}: accepted={ok}", at()));
                    }
                    if let (true, Some(p)) = (ok, want) {
                        match op {
                            Auth(_, w) => model[p].auth = Some(w.into()),
                            _ => model[p].n += 1,
                        }
                    }
                },
                Destroy(k) => {
                    let ok = m.destroy_session(&idof(k)).is_ok();
                    let want = pos(&model, k);
                    if ok != want.is_some() {
                        o.fail("destroy", format!("{}: {ok}", at()));
                    }
                    if let Some(p) = want {
                        model.remove(p);
                    }
                },
                Cleanup => {
                    m.cleanup_expired();
                    model.retain(|x| x.exp > now);
                },
                Advance => {
                    now += 6;
                    clock.advance(Duration::from_secs(6));
                },
                Renew(_) => {},
            }
            // everything observable agrees with the model
            let mut want: Vec<(String, Value, Option<String>)> = model.iter().map(|x| (ids[x.k].clone(), x.view().0, x.view().1)).collect();
            let mut got: Vec<(String, Value, Option<String>)> = m.active_sessions().iter().map(|x| (x.id.clone(), view(x).0, view(x).1)).collect();
            want.sort_by(|a, b| a.0.cmp(&b.0));
            got.sort_by(|a, b| a.0.cmp(&b.0));
            if want != got || m.session_count() != model.len() {
                o.fail("contents", format!("{}: holds {got:?} (count {}), expected {want:?}", at(), m.session_count()));
            }
            if created.load(Ordering::SeqCst) != ids.len() || removed.load(Ordering::SeqCst) != ids.len() - model.len() {
                o.fail("callbacks", format!("{}: {} created, {} removed reported; expected {} and {}", at(), created.load(Ordering::SeqCst), removed.load(Ordering::SeqCst), ids.len(), ids.len() - model.len()));
            }
            if !o.fails.is_empty() {
                break;
            }
        }
        o.observed = format!("{} live of {}", model.len(), ids.len());
        vm::leave_clock();
        o
    });
}

#[derive(Clone, Debug, PartialEq)]
enum R {
    Ok,
    Err,
    Saw(Value, Option<String>),
    N(usize),
}

#[derive(Clone, Debug)]
struct MState {
    /// the initial session, if it still exists
    first: Option<(bool, u64, Option<String>)>, // (expired, n, auth)
    others: usize,
    created: usize,
}

fn c17_apply(s: &mut MState, op: &S, max: usize) -> R {
    let n = usize::from(s.first.is_some()) + s.others;
    match op {
        Create => {
            if n >= max {
                R::Err
            } else {
                s.others += 1;
                s.created += 1;
                R::Ok
            }
        },
        Get(_) => match &s.first {
            Some((_, n, a)) => R::Saw(json!(*n), a.clone()),
            None => R::Err,
        },
        Validate(_) => match &s.first {
            Some((false, n, a)) => R::Saw(json!(*n), a.clone()),
            Some((true, ..)) => {
                s.first = None;
                R::Err
            },
            None => R::Err,
        },
        Bump(_) => match &mut s.first {
            Some(f) => {
                f.1 += 1;
                R::Ok
            },
            None => R::Err,
        },
        Auth(_, w) => match &mut s.first {
            Some(f) => {
                f.2 = Some((*w).into());
                R::Ok
            },
            None => R::Err,
        },
        Renew(_) => match &mut s.first {
            Some(f) => {
                f.0 = false;
                R::Ok
            },
            None => R::Err,
        },
        Destroy(_) => match s.first.take() {
            Some(_) => R::Ok,
            None => R::Err,
        },
        Cleanup => {
            if s.first.as_ref().is_some_and(|f| f.0) {
                s.first = None;
            }
            R::Ok
        },
        _ => R::N(n),
    }
}

fn c17_run(m: &SessionManager, id: &str, op: &S) -> R {
    let saw = |s: Option<Session>| match s {
        Some(s) => R::Saw(json!(s.data["n"].as_u64().unwrap_or(0)), view(&s).1),
        None => R::Err,
    };
    let b = |ok: bool| if ok { R::Ok } else { R::Err };
    match op {
        Create => b(m.create_session(None).is_ok()),
        Get(_) => saw(m.get_session(id)),
        Validate(_) => saw(m.validate_session(id).ok()),
        Bump(_) => b(m.update_session(id, bump).is_ok()),
        Auth(_, w) => b(m.authenticate_session(id, (*w).into()).is_ok()),
        Renew(_) => b(m.update_session(id, |s| s.expires_at += chrono::Duration::seconds(1000)).is_ok()),
        Destroy(_) => b(m.destroy_session(id).is_ok()),
        Cleanup => {
            m.cleanup_expired();
            R::Ok
        },
        _ => R::N(m.session_count()),
    }
}

fn end_ok(o: &mut Outcome, end: &End, what: &str) -> bool {
    match end {
        End::Ok => true,
        End::Deadlock => {
            o.fail("deadlock", what.to_string());
            false
        },
        End::Panic(p) => {
            o.fail("panic", format!("{what}: {p}"));
            false
        },
        End::Stuck => {
            o.fail("stuck", what.to_string());
            false
        },
    }
}

fn c17_concurrent(ctx: &Ctx) {
    for (name, expired, ops) in [
        ("one live session", false, vec![Create, Get(0), Validate(0), Bump(0), Auth(0, "x"), Auth(0, "y"), Destroy(0)]),
        ("one expired session", true, vec![Create, Get(0), Cleanup, Renew(0), Bump(0), Destroy(0)]),
        ("validation of an expired session", true, vec![Create, Validate(0), Cleanup, Bump(0), Destroy(0)]),
    ] {
        let mut progs: Vec<Vec<S>> = ops.iter().map(|a| vec![*a]).collect();
        for a in &ops {
            for b in &ops {
                progs.push(vec![*a, *b]);
            }
        }
        let dev = ctx.by(2, 4);
        explore(ctx, &format!("two threads, {name}, preemptions<={dev}"), Bounds::dev(dev).secs(ctx.by(60, 600)), |ex| {
            let mut o = Outcome::default();
            let max = 2;
            let (a, b) = (progs[ex.choose(progs.len())].clone(), progs[ex.choose(ctx.by(ops.len(), progs.len()))].clone());
            let what = format!("{a:?} || {b:?}");
            let clock = vm::Clock::new();
            vm::join_clock(&clock);
            let me: Arc<OnceLock<Weak<SessionManager>>> = Arc::new(OnceLock::new());
            let counts = Arc::new([AtomicUsize::new(0), AtomicUsize::new(0)]);
            let cb = |i: usize| -> Option<pmcp::shared::session::SessionCallback> {
                let (counts, me) = (counts.clone(), me.clone());
                Some(Box::new(move |_| {
                    counts[i].fetch_add(1, Ordering::SeqCst);
                    // a callback may ask the manager questions
                    if let Some(m) = me.get().and_then(Weak::upgrade) {
                        let _ = m.session_count();
                    }
                }))
            };
            let mut m = manager(max);
            m.set_callbacks(SessionCallbacks { on_create: cb(0), on_destroy: cb(1), on_expire: cb(1) });
            let m = Arc::new(m);
            let _ = me.set(Arc::downgrade(&m));
            let id = m.create_session(None).unwrap().id;
            if expired {
                clock.advance(Duration::from_secs(11));
            }
            let res: Vec<Arc<Mutex<Vec<(S, R)>>>> = (0..2).map(|_| Arc::new(Mutex::new(vec![]))).collect();
            let bodies: Vec<Box<dyn FnOnce() + Send>> = [a, b]
                .into_iter()
                .zip(&res)
                .map(|(p, out)| {
                    let (m, id, out) = (m.clone(), id.clone(), out.clone());
                    Box::new(move || {
                        for op in p {
                            let r = c17_run(&m, &id, &op);
                            out.lock().unwrap().push((op, r));
                        }
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            let end = run_threads(&ex, &clock, bodies);
            if end_ok(&mut o, &end, &what) {
                let threads: Vec<Vec<(S, R)>> = res.iter().map(|r| r.lock().unwrap().clone()).collect();
                o.observed = format!("{threads:?}");
                let all = m.active_sessions();
                let first = all.iter().find(|s| s.id == id).map(|s| (s.data["n"].as_u64().unwrap_or(0), view(s).1));
                let (c, r) = (counts[0].load(Ordering::SeqCst), counts[1].load(Ordering::SeqCst));
                let init = MState { first: Some((expired, 0, None)), others: 0, created: 1 };
                let fin = |s: &MState| {
                    s.first.as_ref().map(|f| (f.1, f.2.clone())) == first && all.len() == s.others + usize::from(s.first.is_some()) && c == s.created && r == usize::from(s.first.is_none())
                };
                if all.len() > max {
                    o.fail("limit-race", format!("{what}: {} sessions", all.len()));
                } else if !linearizable(&init, &threads, &|s, op| c17_apply(s, op, max), &fin) {
                    o.fail("not-linearizable", format!("{what}: results {threads:?}, left {first:?} of {} sessions, callbacks {c} created {r} removed: no order of the calls explains it", all.len()));
                }
            }
            vm::leave_clock();
            o
        });
    }
}

/// Many sessions live at once, up to the limit.
fn c17_many(ctx: &Ctx) {
    let cases = SIZES.iter().flat_map(|&n| [n, n + 1, 1000].map(move |max| (n, max)));
    for_all(ctx, "many sessions at once", cases, |&(n, max)| {
        let mut o = Outcome { transitions: 2 * n as u64, ..Default::default() };
        let clock = vm::Clock::new();
        vm::join_clock(&clock);
        let m = manager(max);
        let what = format!("{n} sessions, at most {max}");
        let mut ids: Vec<String> = vec![];
        for k in 0..n {
            match m.create_session(None) {
                Ok(s) => ids.push(s.id),
                Err(e) => {
                    o.fail("refused", format!("{what}: session {k} refused: {e}"));
                    vm::leave_clock();
                    return o;
                },
            }
        }
        let distinct: std::collections::BTreeSet<&String> = ids.iter().collect();
        expect_eq(&mut o, "id-reused", format!("{what}: distinct ids"), distinct.len(), n);
        if max == n && m.create_session(None).is_ok() {
            o.fail("limit", format!("{what}: one more was created"));
        }
        for (k, id) in ids.iter().enumerate() {
            if k % 2 == 0 && m.update_session(id, bump).is_err() {
                o.fail("lost", format!("{what}: session {k} cannot be updated"));
            }
        }
        for (k, id) in ids.iter().enumerate() {
            if k % 3 == 2 {
                let _ = m.destroy_session(id);
            }
        }
        for (k, id) in ids.iter().enumerate() {
            let got = m.validate_session(id).ok().map(|s| s.data);
            let want = (k % 3 != 2).then(|| if k % 2 == 0 { json!({"n": 1}) } else { json!({}) });
            if !expect_eq(&mut o, "many", format!("{what}, every other updated, every third destroyed: session {k}"), got, want) {
                break;
            }
        }
        clock.advance(std::time::Duration::from_secs(SECS as u64 + 1));
        if let Some(k) = ids.iter().position(|id| m.validate_session(id).is_ok()) {
            o.fail("expired", format!("{what}: session {k} is still valid after its time"));
        }
        o.observed = what;
        vm::leave_clock();
        o
    });
}

pub fn c17(ctx: &Ctx) {
    c17_sequential(ctx);
    c17_many(ctx);
    c17_headers(ctx);
    c17_concurrent(ctx);
    ctx.assume("a lookup that only reads the table (get_session, active_sessions) may still show a session past its expiry until validation or cleanup removes it");
}

// ------------------------------------------------------------------ C19

fn message(k: usize) -> TransportMessage {
    let v = match k % 3 {
        0 => json!({"jsonrpc": "2.0", "id": k, "result": {"k": k}}),
        1 => json!({"jsonrpc": "2.0", "id": format!("r{k}"), "method": "resources/read", "params": {"uri": format!("u:{k}")}}),
        _ => json!({"jsonrpc": "2.0", "method": "notifications/resources/updated", "params": {"uri": format!("u:{k}")}}),
    };
    pmcp::shared::StdioTransport::parse_message(v.to_string().as_bytes()).expect("message")
}

fn enc(m: &TransportMessage) -> String {
    pmcp::shared::StdioTransport::serialize_message(m).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_else(|e| e.to_string())
}

fn event(k: usize, at: chrono::DateTime<chrono::Utc>) -> StoredEvent {
    StoredEvent {
        id: format!("e{k}"),
        timestamp: at,
        message: message(k),
        direction: if k % 2 == 0 { MessageDirection::Outbound } else { MessageDirection::Inbound },
        session_id: "s".into(),
        sequence: k as u64,
    }
}

fn c19_log(ctx: &Ctx) {
    for max in [0usize, 1, 3] {
        let depth = ctx.by(8, 10);
        // 0 store, 1 advance 6 s, 2 clear before now, 3 clear before the time of the first event still held
        for_all(ctx, &format!("event log histories, length {depth}, at most {max} events of 10 s"), sequences(4, depth), |s| {
            let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
            let clock = vm::Clock::new();
            vm::join_clock(&clock);
            let st = Log1::new(max, chrono::Duration::seconds(10));
            let mut now = 0i64;
            let mut n = 0usize;
            let mut held: Vec<(usize, i64)> = vec![];
            let t0 = chrono::Utc::now();
            for (step, &op) in s.iter().enumerate() {
                let at = || format!("after {:?}", &s[..=step]);
                match op {
                    0 => {
                        let r = futures::executor::block_on(st.store_event(event(n, chrono::Utc::now())));
                        if let Err(e) = r {
                            o.fail("store", format!("{}: {e}", at()));
                        }
                        held.push((n, now));
                        n += 1;
                        while held.len() > max {
                            held.remove(0);
                        }
                        held.retain(|h| h.1 >= now - 10);
                    },
                    1 => {
                        now += 6;
                        clock.advance(Duration::from_secs(6));
                    },
                    _ => {
                        let cut = if op == 2 { now } else { held.first().map_or(now, |h| h.1) };
                        let got = futures::executor::block_on(st.clear_events_before(t0 + chrono::Duration::seconds(cut))).unwrap_or(usize::MAX);
                        let before = held.len();
                        held.retain(|h| h.1 >= cut);
                        if got != before - held.len() {
                            o.fail("clear-count", format!("{}: reported {got}, expected {}", at(), before - held.len()));
                        }
                    },
                }
                let latest = futures::executor::block_on(st.get_latest_event_id()).ok().flatten();
                if latest != held.last().map(|h| format!("e{}", h.0)) {
                    o.fail("latest", format!("{}: {latest:?}, held {held:?}", at()));
                }
                for k in 0..n {
                    for lim in [None, Some(0), Some(1), Some(2)] {
                        let got = match futures::executor::block_on(st.get_events_since(&format!("e{k}"), lim)) {
                            Ok(g) => g,
                            Err(_) if !held.iter().any(|h| h.0 == k) => continue,
                            Err(e) => {
                                o.fail("since", format!("{}: after e{k}: {e}", at()));
                                continue;
                            },
                        };
                        let want: Vec<usize> = held.iter().map(|h| h.0).filter(|j| *j > k).take(lim.unwrap_or(usize::MAX)).collect();
                        let ids: Vec<String> = got.iter().map(|e| e.id.clone()).collect();
                        let wanted: Vec<String> = want.iter().map(|j| format!("e{j}")).collect();
                        // a discarded event may also be refused
                        let refused = got.is_empty() && !held.iter().any(|h| h.0 == k);
                        if ids != wanted && !refused {
                            o.fail("since", format!("{}: after e{k} limit {lim:?}: {ids:?}, expected {wanted:?}", at()));
                        }
                        for (e, j) in got.iter().zip(&want) {
                            let w = event(*j, e.timestamp);
                            if enc(&e.message) != enc(&w.message) || e.direction != w.direction || e.sequence != w.sequence || e.session_id != w.session_id {
                                o.fail("content", format!("{}: {e:?}", at()));
                            }
                        }
                    }
                }
                if !o.fails.is_empty() {
                    break;
                }
            }
            o.observed = format!("{} of {n}", held.len());
            vm::leave_clock();
            o
        });
    }
}

fn c19_streams(ctx: &Ctx) {
    use pmcp::server::streamable_http_server::{EventStore, InMemoryEventStore};
    let depth = ctx.by(9, 12);
    for_all(ctx, &format!("stores over three streams, length {depth}"), sequences(3, depth), |s| {
        let mut o = Outcome { transitions: s.len() as u64 * 2, ..Default::default() };
        let st = InMemoryEventStore::default();
        for (k, &stream) in s.iter().enumerate() {
            let _ = futures::executor::block_on(st.store_event(["a", "a.b", ""][stream], &format!("e{k}"), &message(k)));
        }
        for (k, &stream) in s.iter().enumerate() {
            let got: Vec<(String, String)> = futures::executor::block_on(st.replay_events_after(&format!("e{k}"))).unwrap_or_default().iter().map(|(i, m)| (i.clone(), enc(m))).collect();
            let want: Vec<(String, String)> = (k + 1..s.len()).filter(|&j| s[j] == stream).map(|j| (format!("e{j}"), enc(&message(j)))).collect();
            if got != want {
                o.fail("replay", format!("streams {s:?}: after e{k}: {got:?}, expected {want:?}"));
            }
            let of = futures::executor::block_on(st.get_stream_for_event(&format!("e{k}"))).unwrap_or_default();
            if of.as_deref() != Some(["a", "a.b", ""][stream]) {
                o.fail("stream-of-event", format!("streams {s:?}: e{k} in {of:?}"));
            }
        }
        for id in ["", "x", "a", "e"] {
            let got = futures::executor::block_on(st.replay_events_after(id)).unwrap_or_default();
            if !got.is_empty() {
                o.fail("unknown-replayed", format!("streams {s:?}: after unknown {id:?}: {} events", got.len()));
            }
        }
        o
    });
    // long streams
    for_all(ctx, "long streams", SIZES.iter().flat_map(|&n| (1..4usize).map(move |k| (n, k))), |&(n, streams)| {
        let mut o = Outcome { transitions: n as u64, ..Default::default() };
        let st = InMemoryEventStore::default();
        for k in 0..n {
            let _ = futures::executor::block_on(st.store_event(["a", "a.b", ""][k % streams], &format!("e{k}"), &message(k)));
        }
        for k in (0..n).filter(|k| *k < 4 || *k + 4 > n || k % 50 == 0) {
            let got: Vec<(String, String)> = futures::executor::block_on(st.replay_events_after(&format!("e{k}"))).unwrap_or_default().iter().map(|(i, m)| (i.clone(), enc(m))).collect();
            let want: Vec<(String, String)> = (k + 1..n).filter(|j| j % streams == k % streams).map(|j| (format!("e{j}"), enc(&message(j)))).collect();
            if got != want {
                o.fail("replay", format!("{n} messages over {streams} streams: after e{k}: {} replayed, expected {}", got.len(), want.len()));
                break;
            }
        }
        o.observed = format!("{n} {streams}");
        o
    });
    // two threads
    let dev = ctx.by(3, 5);
    explore(ctx, &format!("stream store, two threads, preemptions<={dev}"), Bounds::dev(dev).secs(ctx.by(60, 600)), |ex| {
        let mut o = Outcome::default();
        let clock = vm::Clock::new();
        vm::join_clock(&clock);
        let st = Arc::new(InMemoryEventStore::default());
        let _ = futures::executor::block_on(st.store_event("a", "e0", &message(0)));
        let other = ["a", "a.b"][ex.choose(2)];
        let reads = ex.choose(2) == 1;
        let seen: Arc<Mutex<Vec<Vec<String>>>> = Arc::default();
        let (s1, s2, seen2) = (st.clone(), st.clone(), seen.clone());
        let end = run_threads(
            &ex,
            &clock,
            vec![
                Box::new(move || {
                    for k in [1, 3] {
                        let _ = block_on(s1.store_event("a", &format!("e{k}"), &message(k)));
                    }
                }),
                Box::new(move || {
                    for k in [2, 4] {
                        if reads {
                            let r = block_on(s2.replay_events_after("e0")).unwrap_or_default();
                            seen2.lock().unwrap().push(r.into_iter().map(|e| e.0).collect());
                            let _ = block_on(s2.get_stream_for_event("e1"));
                        } else {
                            let _ = block_on(s2.store_event(other, &format!("e{k}"), &message(k)));
                        }
                    }
                }),
            ],
        );
        if end_ok(&mut o, &end, "store || store/replay") {
            let fin: Vec<String> = futures::executor::block_on(st.replay_events_after("e0")).unwrap_or_default().into_iter().map(|e| e.0).collect();
            let mine: Vec<&String> = fin.iter().filter(|i| ["e1", "e3"].contains(&i.as_str())).collect();
            let theirs: Vec<&String> = fin.iter().filter(|i| ["e2", "e4"].contains(&i.as_str())).collect();
            let n_theirs = if reads || other == "a.b" { 0 } else { 2 };
            if mine != ["e1", "e3"] || theirs.len() != n_theirs || !theirs.is_sorted() || fin.len() != 2 + n_theirs {
                o.fail("lost-or-reordered", format!("replay after e0: {fin:?}"));
            }
            for s in seen.lock().unwrap().iter() {
                if s[..] != fin[..s.len().min(fin.len())] {
                    o.fail("inconsistent-replay", format!("replayed {s:?}, finally {fin:?}"));
                }
            }
            o.observed = format!("{fin:?} {:?}", seen.lock().unwrap());
        }
        vm::leave_clock();
        o
    });
    explore(ctx, &format!("event log, two threads, preemptions<={dev}"), Bounds::dev(dev).secs(ctx.by(60, 600)), |ex| {
        let mut o = Outcome::default();
        let clock = vm::Clock::new();
        vm::join_clock(&clock);
        let max = 2 + ex.choose(3);
        let st = Arc::new(Log1::new(max, chrono::Duration::seconds(10)));
        let _ = futures::executor::block_on(st.store_event(event(0, chrono::Utc::now())));
        let kind = ex.choose(4);
        let (s1, s2) = (st.clone(), st.clone());
        let seen: Arc<Mutex<Vec<String>>> = Arc::default();
        let seen2 = seen.clone();
        let end = run_threads(
            &ex,
            &clock,
            vec![
                Box::new(move || {
                    for k in [1, 3] {
                        let _ = block_on(s1.store_event(event(k, chrono::Utc::now())));
                    }
                }),
                Box::new(move || match kind {
                    0 => {
                        for k in [2, 4] {
                            let _ = block_on(s2.store_event(event(k, chrono::Utc::now())));
                        }
                    },
                    1 => {
                        let r = block_on(s2.get_events_since("e0", None)).unwrap_or_default();
                        *seen2.lock().unwrap() = r.into_iter().map(|e| e.id).collect();
                    },
                    2 => {
                        let _ = block_on(s2.clear_events_before(chrono::Utc::now()));
                    },
                    _ => {
                        if let Ok(t) = block_on(s2.create_resumption_token()) {
                            let _ = block_on(s2.validate_resumption_token(&t.token));
                        }
                    },
                }),
            ],
        );
        if end_ok(&mut o, &end, &format!("store || {kind}")) {
            let mut fin: Vec<String> = futures::executor::block_on(st.get_events_since("none", None)).unwrap_or_default().into_iter().map(|e| e.id).collect();
            let stored = if kind == 0 { 5 } else { 3 };
            if !fin.is_empty() || kind != 0 {
                let mine: Vec<&String> = fin.iter().filter(|i| ["e1", "e3"].contains(&i.as_str())).collect();
                if fin.len() != stored.min(max) || !mine.is_sorted() {
                    o.fail("log-lost", format!("kind {kind} max {max}: holds {fin:?}, {stored} were stored"));
                }
            }
            let s = seen.lock().unwrap().clone();
            if kind == 1 && ![&["e1", "e3"][..], &["e1"], &[]].contains(&&s.iter().map(String::as_str).collect::<Vec<_>>()[..]) && !(s.len() <= 2 && s.last().is_some_and(|l| l == "e3")) {
                o.fail("inconsistent-replay", format!("max {max}: after e0 saw {s:?}"));
            }
            fin.push(format!("{s:?}"));
            o.observed = format!("{kind} {max} {fin:?}");
        }
        vm::leave_clock();
        o
    });
}

pub fn c19(ctx: &Ctx) {
    c19_log(ctx);
    c19_streams(ctx);
    super::http::c19_http(ctx);
    super::http::c19_http_threads(ctx);
}

// ------------------------------------------------------------------ C20

#[derive(Clone, Copy, Debug)]
enum P {
    Out,
    In,
    Token,
    Resume(usize),
    Fresh(usize),
    Bogus,
    Half,
    Tick,
    Pending(usize),
}

pub fn c20(ctx: &Ctx) {
    let ops = [P::Out, P::In, P::Token, P::Resume(0), P::Resume(1), P::Fresh(0), P::Fresh(1), P::Bogus, P::Half, P::Tick, P::Pending(0)];
    for max in [2usize, 100] {
        let depth = if max == 2 { 6 } else { ctx.by(6, 7) };
        for_all(ctx, &format!("record/resume histories, length {depth}, log of {max}"), sequences(ops.len(), depth), |s| {
            let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
            let clock = vm::Clock::new();
            vm::join_clock(&clock);
            let st = Arc::new(Log1::new(max, chrono::Duration::days(400)));
            let mut mgr = ResumptionManager::new(st.clone(), "s".into());
            let mut name = "s";
            let mut log_names: Vec<&str> = vec![];
            let mut log: Vec<(String, u64, bool)> = vec![]; // every event ever: id, sequence, outbound
            let mut toks: Vec<(String, usize, i64)> = vec![]; // token, events before it, second
            let mut now = 0i64;
            for (step, &i) in s.iter().enumerate() {
                let at = || format!("after {:?}", s[..=step].iter().map(|&i| ops[i]).collect::<Vec<_>>());
                let tail = |from: usize| -> Vec<(String, u64, bool)> { log[from.max(log.len().saturating_sub(max))..].to_vec() };
                let got = |v: Vec<StoredEvent>| -> Vec<(String, u64, bool)> { v.into_iter().map(|e| (e.id, e.sequence, e.direction == MessageDirection::Outbound)).collect() };
                match ops[i] {
                    P::Out | P::In => {
                        let out = matches!(ops[i], P::Out);
                        let k = log.len();
                        let r = futures::executor::block_on(async {
                            if out {
                                mgr.record_outbound(message(k)).await
                            } else {
                                mgr.record_inbound(message(k)).await
                            }
                        });
                        let id = futures::executor::block_on(st.get_latest_event_id()).ok().flatten();
                        let all = futures::executor::block_on(st.get_events_since("-", None)).unwrap_or_default();
                        let last = all.last();
                        match (r, id, last) {
                            (Ok(()), Some(id), Some(e)) if e.id == id && !log.iter().any(|l| l.0 == id) => {
                                if log.last().is_some_and(|l| l.1 >= e.sequence) {
                                    o.fail("sequence-reused", format!("{}: sequence {} after {:?}", at(), e.sequence, log.last()));
                                }
                                if (e.direction == MessageDirection::Outbound) != out || enc(&e.message) != enc(&message(k)) || e.session_id != name {
                                    o.fail("recorded", format!("{}: {e:?}", at()));
                                }
                                log.push((id, e.sequence, out));
                                log_names.push(name);
                            },
                            (r, id, e) => o.fail("recorded", format!("{}: {r:?} {id:?} {e:?}", at())),
                        }
                    },
                    P::Token => match futures::executor::block_on(mgr.create_token()) {
                        Ok(t) => {
                            if log.is_empty() || t.last_event_id != log[log.len() - 1].0 || t.session_id != log_names[log.len() - 1] || toks.iter().any(|x| x.0 == t.token) {
                                o.fail("token", format!("{}: {t:?}", at()));
                            }
                            let life = (t.expires_at - chrono::Utc::now()).num_minutes();
                            if life != 24 * 60 {
                                o.fail("token-lifetime", format!("{}: {life} minutes", at()));
                            }
                            toks.push((t.token, log.len(), now));
                        },
                        Err(_) => {
                            if !log.is_empty() {
                                o.fail("token", format!("{}: refused", at()));
                            }
                        },
                    },
                    P::Resume(k) | P::Fresh(k) => {
                        if k >= toks.len() {
                            continue;
                        }
                        if matches!(ops[i], P::Fresh(_)) {
                            // the second one takes the conversation over under a new name
                            name = ["s", "s2"][k];
                            mgr = ResumptionManager::new(st.clone(), name.into());
                        }
                        let expired = now - toks[k].2 > 24 * 3600;
                        match futures::executor::block_on(mgr.resume_from_token(&toks[k].0)) {
                            Ok(v) => {
                                let v = got(v);
                                if expired {
                                    o.fail("expired-token", format!("{}: a token {} seconds old was accepted", at(), now - toks[k].2));
                                } else if v != tail(toks[k].1) {
                                    o.fail("resumed", format!("{}: {v:?}, expected {:?}", at(), tail(toks[k].1)));
                                }
                            },
                            Err(e) => {
                                if !expired {
                                    o.fail("resume-refused", format!("{}: {e}", at()));
                                }
                                if matches!(ops[i], P::Fresh(_)) {
                                    break; // no session to go on with
                                }
                            },
                        }
                    },
                    P::Bogus => {
                        for t in ["", "x", log.last().map_or("y", |l| l.0.as_str()), "s"] {
                            if let Ok(v) = futures::executor::block_on(mgr.resume_from_token(t)) {
                                o.fail("unknown-token", format!("{}: {t:?} resumed with {} events", at(), v.len()));
                            }
                        }
                    },
                    P::Half => {
                        // two of these are just short of a token's day
                        now += 12 * 3600 - 1;
                        clock.advance(Duration::from_secs(12 * 3600 - 1));
                    },
                    P::Tick => {
                        now += 3;
                        clock.advance(Duration::from_secs(3));
                    },
                    P::Pending(k) => {
                        if let Some(e) = log.get(k) {
                            let v = got(futures::executor::block_on(mgr.get_pending_events(&e.0)).unwrap_or_default());
                            let want: Vec<(String, u64, bool)> = tail(k + 1).into_iter().filter(|e| e.2).collect();
                            if v != want {
                                o.fail("pending", format!("{}: {v:?}, expected {want:?}", at()));
                            }
                        }
                    },
                }
                if !o.fails.is_empty() {
                    break;
                }
            }
            o.observed = format!("{:?}", log.iter().map(|l| l.1).collect::<Vec<_>>());
            vm::leave_clock();
            o
        });
    }
    // long recordings
    for_all(ctx, "long recordings", SIZES.iter().flat_map(|&n| [0, n / 2, n - 1].map(move |at| (n, at))), |&(n, at)| {
        let mut o = Outcome { transitions: n as u64, ..Default::default() };
        let clock = vm::Clock::new();
        vm::join_clock(&clock);
        let what = format!("{n} messages recorded, token after message {at}");
        futures::executor::block_on(async {
            let st = Arc::new(Log1::new(1000, chrono::Duration::days(400)));
            let mgr = ResumptionManager::new(st.clone(), "s".into());
            let (mut tok, mut first) = (None, None);
            for k in 0..n {
                let r = if k % 3 == 0 { mgr.record_inbound(message(k)).await } else { mgr.record_outbound(message(k)).await };
                if r.is_err() {
                    o.fail("record", format!("{what}: message {k} refused"));
                }
                if k == at {
                    tok = mgr.create_token().await.ok();
                    first = st.get_latest_event_id().await.ok().flatten();
                }
            }
            let (Some(tok), Some(first)) = (tok, first) else {
                o.fail("token", what.clone());
                return;
            };
            let fresh = ResumptionManager::new(st.clone(), "s".into());
            let want: Vec<String> = (at + 1..n).map(|k| enc(&message(k))).collect();
            match fresh.resume_from_token(&tok.token).await {
                Ok(v) => {
                    expect_eq(&mut o, "resumed", format!("{what}: messages resumed"), v.iter().map(|e| enc(&e.message)).collect::<Vec<_>>(), want);
                    if v.windows(2).any(|w| w[0].sequence >= w[1].sequence) {
                        o.fail("sequence-reused", format!("{what}: {:?}", v.iter().map(|e| e.sequence).collect::<Vec<_>>()));
                    }
                },
                Err(e) => o.fail("resume-refused", format!("{what}: {e}")),
            }
            let pending = mgr.get_pending_events(&first).await.unwrap_or_default();
            let want: Vec<String> = (at + 1..n).filter(|k| k % 3 != 0).map(|k| enc(&message(k))).collect();
            expect_eq(&mut o, "pending", format!("{what}: pending"), pending.iter().map(|e| enc(&e.message)).collect::<Vec<_>>(), want);
        });
        o.observed = what;
        vm::leave_clock();
        o
    });
    let dev = ctx.by(3, 5);
    explore(ctx, &format!("two threads on one recorder, preemptions<={dev}"), Bounds::dev(dev).secs(ctx.by(60, 600)), |ex| {
        let mut o = Outcome::default();
        let clock = vm::Clock::new();
        vm::join_clock(&clock);
        let st = Arc::new(Log1::new(100, chrono::Duration::days(1)));
        let mgr = Arc::new(ResumptionManager::new(st.clone(), "s".into()));
        futures::executor::block_on(mgr.record_outbound(message(0))).unwrap();
        let tok = futures::executor::block_on(mgr.create_token()).unwrap();
        futures::executor::block_on(mgr.record_outbound(message(1))).unwrap();
        let kind = ex.choose(3);
        let toks: Arc<Mutex<Vec<String>>> = Arc::default();
        let (m1, m2, t, ts) = (mgr.clone(), mgr.clone(), tok.token.clone(), toks.clone());
        let end = run_threads(
            &ex,
            &clock,
            vec![
                Box::new(move || {
                    let _ = block_on(m1.record_outbound(message(2)));
                    let _ = block_on(m1.record_inbound(message(3)));
                }),
                Box::new(move || match kind {
                    0 => {
                        let _ = block_on(m2.record_inbound(message(4)));
                        let _ = block_on(m2.record_outbound(message(5)));
                    },
                    1 => {
                        let _ = block_on(m2.resume_from_token(&t));
                    },
                    _ => {
                        if let Ok(t) = block_on(m2.create_token()) {
                            ts.lock().unwrap().push(t.token);
                        }
                    },
                }),
            ],
        );
        if end_ok(&mut o, &end, &format!("record || {kind}")) {
            let _ = futures::executor::block_on(mgr.record_outbound(message(6)));
            let all = futures::executor::block_on(st.get_events_since("-", None)).unwrap_or_default();
            let seqs: Vec<u64> = all.iter().map(|e| e.sequence).collect();
            let mut u = seqs.clone();
            u.sort_unstable();
            u.dedup();
            let want = if kind == 0 { 7 } else { 5 };
            if u.len() != seqs.len() || seqs.len() != want || seqs.last() != u.last() {
                o.fail("sequence-race", format!("record || {kind}: sequences {seqs:?}"));
            }
            // a new connection resumes and records: after everything so far
            let fresh = ResumptionManager::new(st.clone(), "s".into());
            let n = futures::executor::block_on(fresh.resume_from_token(&tok.token)).map(|v| v.len());
            if n.as_ref().ok() != Some(&(all.len() - 1)) {
                o.fail("resumed-race", format!("record || {kind}: {n:?} of {}", all.len()));
            }
            let _ = futures::executor::block_on(fresh.record_outbound(message(7)));
            let last = futures::executor::block_on(st.get_events_since("-", None)).unwrap_or_default().last().map(|e| e.sequence);
            if last <= u.last().copied() {
                o.fail("sequence-race", format!("record || {kind}: {seqs:?} then {last:?} after resuming"));
            }
            o.observed = format!("{seqs:?}");
        }
        vm::leave_clock();
        o
    });
}
