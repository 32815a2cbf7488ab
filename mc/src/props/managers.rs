//! C05 roots, C06 subscriptions, C12 pending-request table.
use super::util::*;
use crate::aengine::*;
use crate::ctx::Ctx;
use crate::explore::*;
use pmcp::server::roots::RootsManager;
use pmcp::server::subscriptions::SubscriptionManager;
use pmcp::shared::protocol::{Protocol, ProtocolOptions, TransportId};
use pmcp::types::jsonrpc::{JSONRPCResponse, ResponsePayload};
use pmcp::types::{RequestId, ServerNotification};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

// ---------------------------------------------------------------- C06

type Subs = BTreeMap<String, BTreeSet<String>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum SubOp {
    Sub(usize, usize),
    Unsub(usize, usize),
    Drop(usize),
    Update(usize),
}

fn sub_ops(nc: usize, nu: usize) -> Vec<SubOp> {
    let mut v = Vec::new();
    for u in 0..nu {
        for c in 0..nc {
            v.push(SubOp::Sub(c, u));
            v.push(SubOp::Unsub(c, u));
        }
        v.push(SubOp::Update(u));
    }
    for c in 0..nc {
        v.push(SubOp::Drop(c));
    }
    v
}

/// Model step: returns (number reported, notices emitted).
fn sub_apply(m: &mut Subs, op: &SubOp, cs: &[&str], us: &[&str]) -> (usize, usize) {
    match *op {
        SubOp::Sub(c, u) => {
            m.entry(us[u].into()).or_default().insert(cs[c].into());
            (0, 0)
        },
        SubOp::Unsub(c, u) => {
            if let Some(s) = m.get_mut(us[u]) {
                s.remove(cs[c]);
                if s.is_empty() {
                    m.remove(us[u]);
                }
            }
            (0, 0)
        },
        SubOp::Drop(c) => {
            for s in m.values_mut() {
                s.remove(cs[c]);
            }
            m.retain(|_, s| !s.is_empty());
            (0, 0)
        },
        SubOp::Update(u) => {
            let n = m.get(us[u]).map_or(0, BTreeSet::len);
            (n, usize::from(n > 0))
        },
    }
}

async fn sub_real(m: &SubscriptionManager, op: &SubOp, cs: &[&str], us: &[&str]) -> Result<usize, String> {
    match *op {
        SubOp::Sub(c, u) => m.subscribe(us[u].into(), cs[c].into()).await.map(|()| 0),
        SubOp::Unsub(c, u) => m.unsubscribe(us[u].into(), cs[c].into()).await.map(|()| 0),
        SubOp::Drop(c) => m.unsubscribe_all(cs[c]).await.map(|()| 0),
        SubOp::Update(u) => m.notify_resource_updated(us[u].into()).await,
    }
    .map_err(|e| e.to_string())
}

fn sub_manager(log: &Log<String>) -> SubscriptionManager {
    let mut m = SubscriptionManager::new();
    let l = log.clone();
    m.set_notification_sender(move |n| match n {
        ServerNotification::ResourceUpdated(p) => l.push(p.uri),
        other => l.push(format!("?{other:?}")),
    });
    m
}

async fn sub_compare(o: &mut Outcome, real: &SubscriptionManager, m: &Subs, cs: &[&str], us: &[&str], at: &str) {
    for u in us {
        let want: Vec<String> = m.get(*u).map(|s| s.iter().cloned().collect()).unwrap_or_default();
        expect_eq(o, "subscribers", format!("{at}: subscribers of {u:?}"), sorted(real.get_subscribers(u).await), want.clone());
        expect_eq(o, "has-subscribers", format!("{at}: has_subscribers({u:?})"), real.has_subscribers(u).await, !want.is_empty());
    }
    for c in cs {
        let want: Vec<String> = m.iter().filter(|(_, s)| s.contains(*c)).map(|(u, _)| u.clone()).collect();
        expect_eq(o, "subscriptions", format!("{at}: subscriptions of {c:?}"), sorted(real.get_subscriptions(c).await), want);
    }
    let st = real.get_stats().await;
    let total: usize = m.values().map(BTreeSet::len).sum();
    let uniq: BTreeSet<&String> = m.values().flatten().collect();
    let avg = if m.is_empty() { 0.0 } else { total as f64 / m.len() as f64 };
    let got = (st.total_resources, st.total_subscriptions, st.unique_subscribers, st.subscriptions_per_resource);
    if got != (m.len(), total, uniq.len(), avg) {
        o.fail("stats", format!("{at}: statistics {got:?}, expected {:?}", (m.len(), total, uniq.len(), avg)));
    }
}

pub fn c06(ctx: &Ctx) {
    let alphabets: &[(&str, &[&str], &[&str])] = &[
        ("prefix names", &["c1", "c10"], &["file:///a", "file:///a/b"]),
        ("case and empty", &["c", "C"], &["", "X"]),
        ("swapped names", &["x", "y"], &["y", "x"]),
    ];
    let ops = sub_ops(2, 2);
    for (i, (name, cs, us)) in alphabets.iter().enumerate() {
        let depth = if i == 0 { ctx.by(5, 6) } else { ctx.by(4, 5) };
        for_all(ctx, &format!("histories: {name}, length {depth}"), sequences(ops.len(), depth), |s| {
            let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
            seq(async {
                let log = Log::new();
                let real = sub_manager(&log);
                let mut m = Subs::new();
                for (k, &i) in s.iter().enumerate() {
                    let op = &ops[i];
                    let before = log.len();
                    let got = sub_real(&real, op, cs, us).await;
                    let (n, notices) = sub_apply(&mut m, op, cs, us);
                    let at = format!("after {:?}", s[..=k].iter().map(|&i| ops[i]).collect::<Vec<_>>());
                    expect_eq(&mut o, "result", format!("{at}: result"), got, Ok(n));
                    let sent = log.get()[before..].to_vec();
                    let want = if let SubOp::Update(u) = op { vec![us[*u].to_string(); notices] } else { vec![] };
                    expect_eq(&mut o, "notices", format!("{at}: notices"), sent, want);
                    sub_compare(&mut o, &real, &m, cs, us, &at).await;
                    if !o.fails.is_empty() {
                        return;
                    }
                }
                o.observed = format!("{m:?} {}", log.len());
            });
            o
        });
    }
    // wide populations: one of everything over k clients and uris
    for_all(ctx, "populations", (0..=24usize).flat_map(|n| (0..=n).map(move |d| (n, d))), |&(n, d)| {
        let mut o = Outcome::default();
        seq(async {
            let log = Log::new();
            let real = sub_manager(&log);
            let cs: Vec<String> = (0..n).map(|i| format!("client-{i}")).collect();
            let csr: Vec<&str> = cs.iter().map(String::as_str).collect();
            let us = ["res://one", "res://two"];
            let mut m = Subs::new();
            let mut run: Vec<SubOp> = Vec::new();
            for c in 0..n {
                run.push(SubOp::Sub(c, 0));
                if c % 2 == 0 {
                    run.push(SubOp::Sub(c, 1));
                }
            }
            run.push(SubOp::Update(0));
            for c in 0..d {
                run.push(if c % 3 == 0 { SubOp::Drop(c) } else { SubOp::Unsub(c, 0) });
                run.push(SubOp::Update(0));
                run.push(SubOp::Update(1));
            }
            for op in &run {
                let got = sub_real(&real, op, &csr, &us).await;
                let (k, _) = sub_apply(&mut m, op, &csr, &us);
                expect_eq(&mut o, "result", format!("{n} clients, {op:?}: result"), got, Ok(k));
            }
            sub_compare(&mut o, &real, &m, &csr, &us, &format!("{n} clients")).await;
            o.observed = format!("{}", log.len());
        });
        o
    });
    // large populations: many subscribers of one resource, and one subscriber of many
    for_all(ctx, "large populations", SIZES.iter().flat_map(|&n| [(n, false), (n, true)]), |&(n, many_uris)| {
        let mut o = Outcome { transitions: 2 * n as u64, ..Default::default() };
        seq(async {
            let log = Log::new();
            let real = sub_manager(&log);
            let names: Vec<String> = (0..n).map(|i| format!("n{i}")).collect();
            let many: Vec<&str> = names.iter().map(String::as_str).collect();
            let (cs, us): (Vec<&str>, Vec<&str>) = if many_uris { (vec!["c"], many) } else { (many, vec!["u"]) };
            let at_pos = |k: usize| if many_uris { (0, k) } else { (k, 0) };
            let mut m = Subs::new();
            let mut step = vec![];
            for k in 0..n {
                let (c, u) = at_pos(k);
                step.push(SubOp::Sub(c, u));
            }
            step.push(SubOp::Update(0));
            step.push(SubOp::Update(us.len() - 1));
            for k in (0..n).step_by(3) {
                let (c, u) = at_pos(k);
                step.push(SubOp::Unsub(c, u));
            }
            step.push(SubOp::Update(us.len() - 1));
            step.push(SubOp::Update(us.len() / 2));
            let mut notices = 0;
            for op in &step {
                let got = sub_real(&real, op, &cs, &us).await;
                let (k, t) = sub_apply(&mut m, op, &cs, &us);
                notices += t;
                expect_eq(&mut o, "result", format!("{n} {op:?}: result"), got, Ok(k));
            }
            sub_compare(&mut o, &real, &m, &cs, &us, &format!("{n} (many resources: {many_uris})")).await;
            expect_eq(&mut o, "notices", format!("{n} (many resources: {many_uris}): notices"), log.len(), notices);
            let gone = SubOp::Drop(0);
            let _ = sub_real(&real, &gone, &cs, &us).await;
            sub_apply(&mut m, &gone, &cs, &us);
            sub_compare(&mut o, &real, &m, &cs, &us, &format!("{n} (many resources: {many_uris}) after the first client left")).await;
            o.observed = format!("{}", log.len());
        });
        o
    });
    // two concurrent tasks: every schedule must be explainable by some order
    let (cs, us): (&[&str], &[&str]) = (&["c1", "c2"], &["u1", "u2"]);
    let small = [SubOp::Sub(0, 0), SubOp::Unsub(0, 0), SubOp::Sub(1, 0), SubOp::Drop(0), SubOp::Update(0), SubOp::Sub(0, 1)];
    let pre: [&[SubOp]; 3] = [&[], &[SubOp::Sub(0, 0)], &[SubOp::Sub(0, 0), SubOp::Sub(1, 0)]];
    let dev = ctx.by(2, 4);
    explore(ctx, "two tasks, two operations each", Bounds::dev(dev).secs(ctx.by(60, 900)), |ex| {
        let start = pre[ex.choose(pre.len())];
        let progs: Vec<Vec<SubOp>> = (0..2).map(|t| (0..2 - t).map(|_| small[ex.choose(small.len())]).collect()).collect();
        let mut o = Outcome::default();
        let r = run_async(&ex, HOUR, true, async {
            let log = Log::new();
            let real = sub_manager(&log);
            let mut m0 = Subs::new();
            for op in start {
                let _ = sub_real(&real, op, cs, us).await;
                sub_apply(&mut m0, op, cs, us);
            }
            let handles: Vec<_> = progs
                .iter()
                .cloned()
                .map(|p| {
                    let real = real.clone();
                    tokio::spawn(async move {
                        let mut out = Vec::new();
                        for op in p {
                            let r = sub_real(&real, &op, &["c1", "c2"], &["u1", "u2"]).await.unwrap_or(usize::MAX);
                            out.push((op, r));
                        }
                        out
                    })
                })
                .collect();
            let mut runs = Vec::new();
            for h in handles {
                runs.push(h.await.unwrap());
            }
            let fin: Subs = {
                let mut f = Subs::new();
                for u in us {
                    let s = real.get_subscribers(u).await;
                    if !s.is_empty() {
                        f.insert((*u).into(), s.into_iter().collect());
                    }
                }
                f
            };
            let sent = log.len();
            let st = real.get_stats().await;
            // The model state carries the count of notices so far.
            let ok = linearizable(
                &(m0.clone(), 0usize),
                &runs,
                &|s, op| {
                    let (n, k) = sub_apply(&mut s.0, op, cs, us);
                    s.1 += k;
                    n
                },
                &|s| s.0 == fin && s.1 == sent,
            );
            (runs, fin, sent, ok, st.total_resources)
        });
        match r {
            None => deadlock(&mut o, "subscription operations"),
            Some((runs, fin, sent, ok, res)) => {
                o.observed = format!("{runs:?} {fin:?} {sent}");
                if !ok {
                    o.fail("not-linearizable", format!("start {start:?}, results {runs:?}, final {fin:?}, {sent} notices: no order of the operations explains this"));
                }
                if res != fin.len() {
                    o.fail("stats", format!("{res} resources counted, {} have subscribers (start {start:?}, {runs:?})", fin.len()));
                }
            },
        }
        o
    });
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Copy, Debug)]
enum RootOp {
    Reg(usize),
    Unreg(usize), // k-th still usable handle
    Settle,
}

const ROOT_URIS: &[&str] = &["file:///a", "file:///a/", "http://a", "file://", "FILE:///a", ""];

pub fn c05(ctx: &Ctx) {
    let ops: Vec<RootOp> = (0..ROOT_URIS.len()).map(RootOp::Reg).chain((0..3).map(RootOp::Unreg)).chain([RootOp::Settle]).collect();
    let depth = ctx.by(5, 6);
    for_all(ctx, &format!("histories, length {depth}"), sequences(ops.len(), depth), |s| {
        let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
        seq(async {
            let log = Log::<String>::new();
            let mut real = RootsManager::new();
            let l = log.clone();
            real.set_notification_sender(move |n| l.push(format!("{n:?}")));
            // model: registered roots in order with a registration number
            let mut m: Vec<(usize, String, Option<String>)> = Vec::new();
            let mut handles: Vec<(usize, Box<dyn FnOnce() + Send>)> = Vec::new();
            let mut nreg = 0;
            let mut want_notes = 0;
            for (k, &i) in s.iter().enumerate() {
                let at = format!("after {:?}", s[..=k].iter().map(|&i| ops[i]).collect::<Vec<_>>());
                match ops[i] {
                    RootOp::Reg(u) => {
                        let uri = ROOT_URIS[u];
                        let name = if k % 2 == 0 { Some(format!("n{k}")) } else { None };
                        let valid = uri.starts_with("file://");
                        match real.register_root(uri, name.clone()).await {
                            Ok(h) => {
                                if !valid {
                                    o.fail("accepted-invalid", format!("{at}: {uri:?} accepted"));
                                    return;
                                }
                                nreg += 1;
                                want_notes += 1;
                                m.push((nreg, uri.to_string(), name));
                                handles.push((nreg, Box::new(h)));
                            },
                            Err(_) => {
                                if valid {
                                    // Registering a root twice may be refused, as long as nothing changes.
                                    if !m.iter().any(|(_, x, _)| x == uri) {
                                        o.fail("rejected-valid", format!("{at}: {uri:?} rejected"));
                                        return;
                                    }
                                }
                            },
                        }
                    },
                    RootOp::Unreg(j) => {
                        if j < handles.len() {
                            let (n, h) = handles.remove(j);
                            h();
                            if let Some(p) = m.iter().position(|(x, _, _)| *x == n) {
                                m.remove(p);
                                want_notes += 1;
                            }
                        }
                        settle().await;
                    },
                    RootOp::Settle => settle().await,
                }
                let got: Vec<(String, Option<String>)> = sorted(real.get_roots().await.into_iter().map(|r| (r.uri, r.name)).collect());
                let want: Vec<(String, Option<String>)> = sorted(m.iter().map(|(_, u, n)| (u.clone(), n.clone())).collect());
                if got != want {
                    let uris = |v: &Vec<(String, Option<String>)>| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
                    let key = if uris(&got) == uris(&want) { "wrong-duplicate-removed" } else { "list" };
                    o.fail(key, format!("{at}: roots {got:?}, expected {want:?}"));
                }
                expect_eq(&mut o, "has-roots", format!("{at}: has_roots"), real.has_roots().await, !want.is_empty());
                expect_eq(&mut o, "notices", format!("{at}: change notifications"), log.len(), want_notes);
                if let Some(bad) = log.get().iter().find(|n| *n != "RootsListChanged") {
                    o.fail("notice-kind", format!("{at}: emitted {bad}"));
                }
                if !o.fails.is_empty() {
                    return;
                }
            }
            o.observed = format!("{m:?}");
        });
        o
    });
    // schedules: registrations and unregistrations racing
    explore(ctx, "register and unregister under all schedules", Bounds::dev(ctx.by(3, 5)).secs(ctx.by(60, 900)), |ex| {
        let a = ex.choose(2);
        let b = ex.choose(2);
        let mut o = Outcome::default();
        let r = run_async(&ex, HOUR, true, async {
            let log = Log::<String>::new();
            let mut real = RootsManager::new();
            let l = log.clone();
            real.set_notification_sender(move |n| l.push(format!("{n:?}")));
            let uris = ["file:///x", "file:///y"];
            let keep = real.register_root("file:///keep", None).await.ok();
            let mut hs = Vec::new();
            for (t, u) in [(0, a), (1, b)] {
                let real = real.clone();
                let uri = format!("{}{t}", uris[u]);
                hs.push(tokio::spawn(async move {
                    let h = real.register_root(uri.clone(), None).await.ok();
                    let seen = real.get_roots().await.iter().any(|r| r.uri == uri);
                    if t == 0 {
                        if let Some(h) = h {
                            h();
                        }
                    }
                    seen
                }));
            }
            let mut seen = true;
            for h in hs {
                seen &= h.await.unwrap();
            }
            settle().await;
            drop(keep);
            let got: BTreeSet<String> = real.get_roots().await.into_iter().map(|r| r.uri).collect();
            let want: BTreeSet<String> = ["file:///keep".to_string(), format!("{}1", uris[b])].into();
            (seen, got, want, log.len())
        });
        match r {
            None => deadlock(&mut o, "root operations"),
            Some((seen, got, want, notes)) => {
                o.observed = format!("{got:?} {notes}");
                if !seen {
                    o.fail("list", "a registered root was not listed by its own registrant");
                }
                expect_eq(&mut o, "list", "roots at the end", got, want);
                expect_eq(&mut o, "notices", "notifications (3 registrations, 1 unregistration)", notes, 4);
            },
        }
        o
    });
    c05_server(ctx);
    c05_addresses(ctx);
    c05_many(ctx);
}

/// Many roots at once, unregistered in several orders.
fn c05_many(ctx: &Ctx) {
    for_all(ctx, "many roots, unregistered in several orders", SIZES.iter().flat_map(|&n| (0..4).map(move |k| (n, k))), |&(n, how)| {
        let mut o = Outcome { transitions: 2 * n as u64, ..Default::default() };
        seq(async {
            let log = Log::<String>::new();
            let mut real = RootsManager::new();
            let l = log.clone();
            real.set_notification_sender(move |n| l.push(format!("{n:?}")));
            let server = pmcp::Server::builder().name("s").version("1").build().unwrap();
            let uri = |i: usize| format!("file:///r{i}");
            let mut guards: Vec<Option<(Box<dyn FnOnce() + Send>, Box<dyn FnOnce() + Send>)>> = vec![];
            for i in 0..n {
                match (real.register_root(uri(i), None).await, server.register_root(uri(i), None).await) {
                    (Ok(a), Ok(b)) => guards.push(Some((Box::new(a), Box::new(b)))),
                    _ => {
                        o.fail("rejected-valid", format!("root {i} of {n} was refused"));
                        return;
                    },
                }
            }
            let mut left: BTreeSet<String> = (0..n).map(uri).collect();
            let show = |v: Vec<pmcp::server::roots::Root>| v.into_iter().map(|r| r.uri).collect::<Vec<_>>();
            let all: Vec<String> = left.iter().cloned().collect();
            expect_eq(&mut o, "list", format!("{n} roots: manager"), sorted(show(real.get_roots().await)), all.clone());
            expect_eq(&mut o, "server-list", format!("{n} roots: server"), sorted(show(server.get_roots().await)), all);
            let order: Vec<usize> = match how {
                0 => (0..n).collect(),
                1 => (0..n).rev().collect(),
                2 => (0..n).step_by(3).collect(),
                _ => vec![n - 1],
            };
            for &i in &order {
                let (a, b) = guards[i].take().unwrap();
                a();
                b();
                left.remove(&uri(i));
            }
            // Drop guards are not run: the remaining ones are forgotten with their roots in place.
            for _ in 0..4 {
                settle().await;
            }
            let want: Vec<String> = left.iter().cloned().collect();
            expect_eq(&mut o, "list", format!("{n} roots, order {how}: manager"), sorted(show(real.get_roots().await)), want.clone());
            expect_eq(&mut o, "server-list", format!("{n} roots, order {how}: server"), sorted(show(server.get_roots().await)), want);
            expect_eq(&mut o, "notices", format!("{n} roots, order {how}: notices"), log.len(), n + order.len());
            o.observed = format!("{}", log.len());
        });
        o
    });
}

/// Which addresses are roots: a valid one and any other, in both orders, through both registries.
const NEAR_URIS: &[(&str, bool)] = &[
    ("file:///x", true),
    ("file://", true),
    ("file://host/x", true),
    ("file:///a b/\u{e9}", true),
    ("file:///x?q#f", true),
    ("file:/x", false),
    ("file:x", false),
    ("file:", false),
    ("file", false),
    ("", false),
    ("/x", false),
    (" file:///x", false),
    ("FILE:///x", false),
    ("File:///x", false),
    ("xfile:///x", false),
    ("http://h/?u=file:///x", false),
    ("files:///x", false),
    ("file;//x", false),
    ("https://file://x", false),
];

fn c05_addresses(ctx: &Ctx) {
    let n = NEAR_URIS.len();
    for_all(ctx, "addresses that are and are not roots, in pairs", sequences(n, 2), |s| {
        let mut o = Outcome::default();
        seq(async {
            let server = pmcp::Server::builder().name("s").version("1").build().unwrap();
            let real = RootsManager::new();
            let mut want: Vec<String> = vec![];
            let mut guards: Vec<Box<dyn FnOnce() + Send>> = vec![];
            for &i in s {
                let (u, valid) = NEAR_URIS[i];
                let a = real.register_root(u, None).await;
                let b = server.register_root(u.to_string(), None).await;
                let again = want.iter().any(|x| x == u);
                for (who, ok) in [("manager", a.is_ok()), ("server", b.is_ok())] {
                    if ok != valid && !(again && valid) {
                        o.fail(if ok { "accepted-invalid" } else { "rejected-valid" }, format!("{who}: {u:?} accepted={ok}"));
                    }
                }
                guards.extend(a.ok().map(|h| Box::new(h) as Box<dyn FnOnce() + Send>));
                guards.extend(b.ok().map(|h| Box::new(h) as Box<dyn FnOnce() + Send>));
                if valid && !again {
                    want.push(u.to_string());
                }
            }
            let uris = |v: Vec<pmcp::server::roots::Root>| v.into_iter().map(|r| r.uri).collect::<BTreeSet<_>>();
            let want: BTreeSet<String> = want.into_iter().collect();
            expect_eq(&mut o, "list", format!("{s:?}: manager"), uris(real.get_roots().await), want.clone());
            expect_eq(&mut o, "server-list", format!("{s:?}: server"), uris(server.get_roots().await), want);
        });
        o
    });
}

/// The server's own root registry: same law through `Server`.
fn c05_server(ctx: &Ctx) {
    for_all(ctx, "server registry histories, length 4", sequences(5, ctx.by(4, 6)), |s| {
        let mut o = Outcome::default();
        seq(async {
            let server = pmcp::Server::builder().name("s").version("1").build().unwrap();
            let mut m: Vec<(String, Option<String>)> = vec![];
            let mut handles: Vec<(String, Box<dyn FnOnce() + Send>)> = vec![];
            for (k, &i) in s.iter().enumerate() {
                match i {
                    0..=2 => {
                        let uri = format!("{}{k}", ["file:///r", "file:///long/er path/", "https://h/"][i]);
                        let name = (k % 2 == 0).then(|| format!("root {k}"));
                        let r = server.register_root(uri.clone(), name.clone()).await;
                        if r.is_ok() != (i < 2) {
                            o.fail("server-accept", format!("register_root({uri:?}) ok={}", r.is_ok()));
                        }
                        if let Ok(h) = r {
                            m.push((uri.clone(), name));
                            handles.push((uri, Box::new(h)));
                        }
                    },
                    _ => {
                        let j = i - 3;
                        if j < handles.len() {
                            let (u, h) = handles.remove(j);
                            h();
                            settle().await;
                            m.retain(|(x, _)| *x != u);
                        }
                    },
                }
                let got = sorted(server.get_roots().await.into_iter().map(|r| (r.uri, r.name)).collect::<Vec<_>>());
                expect_eq(&mut o, "server-list", format!("after {:?}", &s[..=k]), got, sorted(m.clone()));
            }
            o.observed = format!("{m:?}");
        });
        o
    });
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Copy, Debug)]
enum PendOp {
    Reg(usize),
    Complete(usize),
    CompleteOn(usize, usize),
    Cancel(usize),
    Settle,
}

fn resp(id: &RequestId, tag: i64) -> JSONRPCResponse {
    JSONRPCResponse { jsonrpc: "2.0".into(), id: id.clone(), payload: ResponsePayload::Result(serde_json::json!(tag)) }
}

pub fn c12(ctx: &Ctx) {
    let idsets: &[(&str, [RequestId; 2])] = &[
        ("a string and a number that print alike", [RequestId::Number(1), RequestId::String("1".into())]),
        ("two strings", [RequestId::String("a".into()), RequestId::String("a ".into())]),
        ("extreme numbers", [RequestId::Number(i64::MIN), RequestId::Number(i64::MAX)]),
    ];
    let mut ops = vec![];
    for i in 0..2 {
        ops.push(PendOp::Reg(i));
        ops.push(PendOp::Complete(i));
        ops.push(PendOp::Cancel(i));
        for t in 0..2 {
            ops.push(PendOp::CompleteOn(i, t));
        }
    }
    ops.push(PendOp::Settle);
    for (n, (name, ids)) in idsets.iter().enumerate() {
        let depth = if n == 0 { ctx.by(5, 6) } else { ctx.by(4, 5) };
        for_all(ctx, &format!("histories: {name}, length {depth}"), sequences(ops.len(), depth), |s| {
            let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
            seq(async {
                let own = TransportId::from_string("t-own".into());
                let other = TransportId::from_string("t-other".into());
                let mut p = Protocol::with_transport_id(ProtocolOptions::default(), own.clone());
                // model: waiter number -> what it must see
                #[derive(Debug, PartialEq, Clone)]
                enum W {
                    Waiting,
                    Got(i64),
                    Closed,
                }
                let mut waiters: Vec<(tokio::sync::oneshot::Receiver<JSONRPCResponse>, W, usize, Option<W>)> = vec![];
                let mut cur: [Option<usize>; 2] = [None, None];
                let mut tag = 100;
                let trace = || format!("{:?}", s.iter().map(|&i| ops[i]).collect::<Vec<_>>());
                for &i in s {
                    match ops[i] {
                        PendOp::Reg(i) => {
                            let rx = p.register_request(ids[i].clone());
                            // a second registration under the same id replaces the first
                            if let Some(w) = cur[i].take() {
                                waiters[w].1 = W::Closed;
                            }
                            waiters.push((rx, W::Waiting, i, None));
                            cur[i] = Some(waiters.len() - 1);
                        },
                        PendOp::Complete(i) => {
                            tag += 1;
                            let r = p.complete_request(&ids[i], resp(&ids[i], tag));
                            if r.is_err() && cur[i].is_some() {
                                o.fail("complete-error", format!("{}: completing a pending request failed", trace()));
                            }
                            if let Some(w) = cur[i].take() {
                                waiters[w].1 = W::Got(tag);
                            }
                        },
                        PendOp::CompleteOn(i, t) => {
                            tag += 1;
                            let tid = if t == 0 { &own } else { &other };
                            let r = p.complete_request_for_transport(&ids[i], resp(&ids[i], tag), tid).ok();
                            let want = t == 0 && cur[i].is_some();
                            expect_eq(&mut o, "complete-on-transport", format!("{}: accepted", trace()), r, Some(want));
                            if want {
                                waiters[cur[i].take().unwrap()].1 = W::Got(tag);
                            }
                        },
                        PendOp::Cancel(i) => {
                            p.cancel_request(&ids[i]);
                            if let Some(w) = cur[i].take() {
                                waiters[w].1 = W::Closed;
                            }
                        },
                        PendOp::Settle => settle().await,
                    }
                }
                settle().await;
                for (k, (rx, want, i, _)) in waiters.iter_mut().enumerate() {
                    let got = match rx.try_recv() {
                        Ok(r) => {
                            if r.id != ids[*i] {
                                o.fail("wrong-id", format!("{}: waiter {k} on {:?} got a response for {:?}", trace(), ids[*i], r.id));
                            }
                            match r.payload {
                                ResponsePayload::Result(v) => W::Got(v.as_i64().unwrap_or(-1)),
                                ResponsePayload::Error(_) => W::Got(-2),
                            }
                        },
                        Err(tokio::sync::oneshot::error::TryRecvError::Empty) => W::Waiting,
                        Err(tokio::sync::oneshot::error::TryRecvError::Closed) => W::Closed,
                    };
                    if got != *want {
                        let key = match (&got, &want) {
                            (W::Waiting, W::Closed) => "not-released",
                            (W::Waiting, _) | (W::Closed, W::Got(_)) => "not-delivered",
                            (W::Got(_), W::Got(_)) => "wrong-response",
                            _ => "woken-wrongly",
                        };
                        o.fail(key, format!("{}: waiter {k} for {:?}: {got:?}, expected {want:?}", trace(), ids[*i]));
                    }
                }
                o.observed = format!("{:?}", waiters.iter().map(|w| w.1.clone()).collect::<Vec<_>>());
            });
            o
        });
    }
    // many pending at once, completed in every order
    let n = ctx.by(5usize, 7usize);
    let perms = permutations(n);
    for_all(ctx, &format!("{n} pending, completed in every order"), perms.into_iter(), |perm| {
        let mut o = Outcome { transitions: n as u64, ..Default::default() };
        seq(async {
            let own = TransportId::new();
            let mut p = Protocol::with_transport_id(ProtocolOptions::default(), own.clone());
            let ids: Vec<RequestId> = (0..n).map(|i| if i % 2 == 0 { RequestId::Number(i as i64) } else { RequestId::String(format!("{}", i - 1)) }).collect();
            let rx: Vec<_> = ids.iter().map(|i| p.register_request(i.clone())).collect();
            for &k in perm {
                let _ = p.complete_request_for_transport(&ids[k], resp(&ids[k], k as i64), &own);
            }
            for (k, r) in rx.into_iter().enumerate() {
                match r.await {
                    Ok(r) => {
                        if r.id != ids[k] || !matches!(r.payload, ResponsePayload::Result(ref v) if *v == serde_json::json!(k)) {
                            o.fail("wrong-response", format!("{perm:?}: waiter {k} got {r:?}"));
                        }
                    },
                    Err(_) => o.fail("not-delivered", format!("{perm:?}: waiter {k} got nothing")),
                }
            }
        });
        o
    });
    // very many pending, some given up, completed in several orders
    for_all(ctx, "many pending, some cancelled, several orders", SIZES.iter().flat_map(|&n| (0..4).map(move |k| (n, k))), |&(n, how)| {
        let mut o = Outcome { transitions: 2 * n as u64, ..Default::default() };
        seq(async {
            let own = TransportId::new();
            let mut p = Protocol::with_transport_id(ProtocolOptions::default(), own.clone());
            let ids: Vec<RequestId> = (0..n).map(|i| if i % 2 == 0 { RequestId::Number(i as i64) } else { RequestId::String(format!("{}", i - 1)) }).collect();
            let rx: Vec<_> = ids.iter().map(|i| p.register_request(i.clone())).collect();
            let order: Vec<usize> = match how {
                0 => (0..n).collect(),
                1 => (0..n).rev().collect(),
                2 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
                _ => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
            };
            for &k in &order {
                if k % 3 == 2 {
                    p.cancel_request(&ids[k]);
                } else {
                    let ok = p.complete_request_for_transport(&ids[k], resp(&ids[k], k as i64), &own).ok();
                    expect_eq(&mut o, "complete-on-transport", format!("{n} pending, order {how}: {k} accepted"), ok, Some(true));
                }
            }
            for (k, r) in rx.into_iter().enumerate() {
                let got = r.await.ok().map(|r| (r.id, match r.payload { ResponsePayload::Result(v) => v, ResponsePayload::Error(e) => serde_json::json!(e.code) }));
                let want = (k % 3 != 2).then(|| (ids[k].clone(), serde_json::json!(k)));
                let key = if want.is_some() && got.is_none() { "not-delivered" } else { "wrong-response" };
                if !expect_eq(&mut o, key, format!("{n} pending, order {how}: waiter {k}"), got, want) {
                    return;
                }
            }
        });
        o
    });
    // waiters on tasks, completion under all schedules
    explore(ctx, "waiters and completions under all schedules", Bounds::dev(ctx.by(3, 5)).secs(ctx.by(60, 900)), |ex| {
        let order = ex.choose(2);
        let third = ex.choose(3); // 0: nothing, 1: duplicate completion, 2: cancel afterwards
        let mut o = Outcome::default();
        let r = run_async(&ex, HOUR, true, async {
            let p = Arc::new(tokio::sync::RwLock::new(Protocol::new(ProtocolOptions::default())));
            let ids = [RequestId::Number(7), RequestId::String("7".into())];
            let mut waits = vec![];
            for (k, id) in ids.iter().enumerate() {
                let rx = p.write().await.register_request(id.clone());
                waits.push(tokio::spawn(async move { (k, rx.await.ok().map(|r| format!("{:?}={:?}", r.id, r.payload))) }));
            }
            let mut doers = vec![];
            for k in [order, 1 - order] {
                let (p, id) = (p.clone(), ids[k].clone());
                doers.push(tokio::spawn(async move {
                    let _ = p.write().await.complete_request(&id, resp(&id, k as i64));
                    if third == 1 {
                        let _ = p.write().await.complete_request(&id, resp(&id, 99));
                    } else if third == 2 {
                        p.write().await.cancel_request(&id);
                    }
                }));
            }
            for d in doers {
                d.await.unwrap();
            }
            let mut got = vec![];
            for w in waits {
                got.push(w.await.unwrap());
            }
            got
        });
        match r {
            None => deadlock(&mut o, "a completed request never woke its waiter"),
            Some(got) => {
                o.observed = format!("{got:?}");
                for (k, g) in got {
                    let id = [RequestId::Number(7), RequestId::String("7".into())][k].clone();
                    let want = format!("{:?}={:?}", id, ResponsePayload::<serde_json::Value, pmcp::types::jsonrpc::JSONRPCError>::Result(serde_json::json!(k)));
                    expect_eq(&mut o, "wrong-response", format!("waiter {k}"), g, Some(want));
                }
            },
        }
        o
    });
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(rest: Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if rest.is_empty() {
            out.push(cur.clone());
        }
        for i in 0..rest.len() {
            let mut r = rest.clone();
            cur.push(r.remove(i));
            go(r, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go((0..n).collect(), &mut vec![], &mut out);
    out
}
