//! C21 notification debouncing and batching, C22 message batching and debouncing.
use super::util::*;
use crate::aengine::{deadlock, run_async, settle};
use crate::ctx::Ctx;
use crate::explore::*;
use pmcp::server::notification_debouncer::{NotificationBatcher, NotificationDebouncer, NotificationDebouncerConfig};
use pmcp::types::protocol::{LogLevel, LogMessageParams, ProgressNotification, ResourceUpdatedParams, ServerNotification};
use pmcp::types::{CancelledNotification, ClientNotification, Notification, ProgressToken, RequestId};
use pmcp::utils::{BatchingConfig, DebouncingConfig, MessageBatcher, MessageDebouncer};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::mpsc;
use tokio::time::Instant;

fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}

/// The i-th notification on subject s; subjects: 0,1 progress tokens, 2,3 URIs,
/// 4.. the others.  Subjects 4-7 carry no number.
fn note(s: usize, i: usize) -> ServerNotification {
    match s {
        0 | 1 => ServerNotification::Progress(ProgressNotification {
            progress_token: if s == 0 { ProgressToken::String("7".into()) } else { ProgressToken::Number(7) },
            progress: i as f64,
            message: None,
        }),
        2 | 3 => ServerNotification::ResourceUpdated(ResourceUpdatedParams { uri: format!("file:///{}", ["x:y", "X:y"][s - 2]) }),
        4 => ServerNotification::ToolsChanged,
        5 => ServerNotification::PromptsChanged,
        6 => ServerNotification::ResourcesChanged,
        7 => ServerNotification::RootsListChanged,
        _ => ServerNotification::LogMessage(LogMessageParams { level: LogLevel::Info, logger: None, message: format!("m{i}"), data: None }),
    }
}
const SUBJECTS: usize = 9;

fn subject(n: &ServerNotification) -> (usize, Option<usize>) {
    match n {
        ServerNotification::Progress(p) => (usize::from(p.progress_token != ProgressToken::String("7".into())), Some(p.progress as usize)),
        ServerNotification::ResourceUpdated(r) => (if r.uri.contains('X') { 3 } else { 2 }, None),
        ServerNotification::ToolsChanged => (4, None),
        ServerNotification::PromptsChanged => (5, None),
        ServerNotification::ResourcesChanged => (6, None),
        ServerNotification::RootsListChanged => (7, None),
        ServerNotification::LogMessage(m) => (8, m.message[1..].parse().ok()),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum D {
    Sub(usize),
    Adv(u64),
    Flush,
    Stop,
}

#[derive(Clone, Debug)]
struct DC {
    merging: bool,
    max_batch: usize,
    max_wait: u64,
    intervals: &'static [(&'static str, u64)],
}
const DEF: u64 = 100;
impl DC {
    fn interval(&self, s: usize) -> u64 {
        let key = ["progress", "progress", "resource_updated", "resource_updated", "tool_list_changed", "prompt_list_changed", "resource_list_changed", "roots_list_changed", "log"][s];
        // a subject's own interval goes before that of its type
        let own = ["", "", "resource_updated:file:///x:y", "resource_updated:file:///X:y", "", "", "", "", ""][s];
        let find = |key: &str| self.intervals.iter().find(|(k, _)| *k == key);
        find(own).or_else(|| find(key)).map_or(DEF, |x| x.1)
    }
    fn build(&self, tx: mpsc::Sender<ServerNotification>) -> NotificationDebouncer {
        NotificationDebouncer::new(
            NotificationDebouncerConfig {
                default_interval: ms(DEF),
                type_intervals: self.intervals.iter().map(|(k, v)| ((*k).to_string(), ms(*v))).collect(),
                max_batch_size: self.max_batch,
                enable_merging: self.merging,
                max_wait_time: ms(self.max_wait),
            },
            tx,
        )
    }
}

/// What is pending on one subject, as the property sees it.
#[derive(Clone, Debug, Default)]
struct Pend {
    items: Vec<usize>,
    first: u64,
    last: u64,
}

struct DebModel {
    c: DC,
    pend: BTreeMap<usize, Pend>,
    count: [usize; SUBJECTS],
}
impl DebModel {
    fn submit(&mut self, s: usize, now: u64) -> usize {
        let i = self.count[s];
        self.count[s] += 1;
        let p = self.pend.entry(s).or_default();
        if p.items.is_empty() {
            p.first = now;
        }
        p.items.push(i);
        p.last = now;
        i
    }
    fn due(&self, s: usize) -> u64 {
        let p = &self.pend[&s];
        (p.last + self.c.interval(s)).min(p.first + self.c.max_wait)
    }
    /// `out` came out at `now`; everything due (or everything, if `all`) had to.
    fn emitted(&mut self, o: &mut Outcome, out: Vec<ServerNotification>, now: u64, all: bool, running: bool, what: &str) {
        let mut by: BTreeMap<usize, Vec<Option<usize>>> = BTreeMap::new();
        for n in &out {
            let (s, i) = subject(n);
            by.entry(s).or_default().push(i);
        }
        for (s, got) in by {
            let Some(p) = self.pend.get(&s) else {
                o.fail("emitted-twice", format!("{what}: at {now} ms subject {s} came out with nothing pending on it: {got:?}"));
                continue;
            };
            if !all && now < self.due(s) {
                o.fail("emitted-early", format!("{what}: at {now} ms subject {s} came out before its quiet time ({} ms) was over", self.due(s)));
            }
            let want: Vec<usize> = if self.c.merging { p.items.clone() } else { p.items.last().copied().into_iter().collect() };
            let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.is_none_or(|g| g == *w));
            if !same {
                let cap = 1 + self.c.max_batch;
                if self.c.merging && want.len() > cap && got.len() == cap && got.iter().zip(&want).all(|(g, w)| g.is_none_or(|g| g == *w)) {
                    o.fail("merge-overflow-dropped", format!("{what}: of {} notifications merged on subject {s} only the first {cap} came out", want.len()));
                } else {
                    o.fail("wrong-notifications", format!("{what}: at {now} ms subject {s} came out as {got:?}, expected {want:?}"));
                }
            }
            self.pend.remove(&s);
        }
        for s in self.pend.keys().copied().collect::<Vec<_>>() {
            // the flush task looks every 50 ms
            if all || (running && now > self.due(s) + 50) {
                o.fail("not-emitted", format!("{what}: at {now} ms subject {s}'s {:?} had not come out (due {} ms)", self.pend[&s].items, self.due(s)));
                self.pend.remove(&s);
            }
        }
    }
}

fn drain<T>(rx: &mut mpsc::Receiver<T>) -> Vec<T> {
    let mut v = vec![];
    while let Ok(x) = rx.try_recv() {
        v.push(x);
    }
    v
}

fn debounce_case(c: &DC, ops: &[D]) -> Outcome {
    let mut o = Outcome::default();
    let what = format!("{c:?} {ops:?}");
    let (c, ops2) = (c.clone(), ops.to_vec());
    let r = seq(async {
        let (tx, mut rx) = mpsc::channel(64);
        let mut d = c.build(tx);
        d.start().await.ok();
        let t0 = Instant::now();
        let mut m = DebModel { c, pend: BTreeMap::new(), count: [0; SUBJECTS] };
        let mut running = true;
        let mut log = String::new();
        for op in &ops2 {
            o.transitions += 1;
            let now = || t0.elapsed().as_millis() as u64;
            match op {
                D::Sub(s) => {
                    let i = m.submit(*s, now());
                    if d.submit(note(*s, i)).await.is_err() {
                        o.fail("submit-refused", what.clone());
                    }
                    let total: usize = m.pend.values().map(|p| p.items.len()).sum();
                    let st = d.stats().await;
                    expect_eq(&mut o, "stats", format!("{what}: pending counts"), (st.pending_count, st.total_notifications), (m.pend.len(), total));
                },
                D::Adv(n) => {
                    for _ in 0..n / 10 {
                        tokio::time::sleep(ms(10)).await;
                        settle().await;
                        m.emitted(&mut o, drain(&mut rx), now(), false, running, &what);
                    }
                },
                D::Flush => {
                    d.flush().await.ok();
                    let out = drain(&mut rx);
                    log += &format!("f{}", out.len());
                    m.emitted(&mut o, out, now(), true, running, &what);
                    settle().await;
                    m.emitted(&mut o, drain(&mut rx), now(), false, running, &what);
                },
                D::Stop => {
                    d.stop().await;
                    settle().await;
                    let out = drain(&mut rx);
                    log += &format!("s{}", out.len());
                    m.emitted(&mut o, out, now(), running, running, &what);
                    running = false;
                },
            }
        }
        // the end: dropping the debouncer stops it
        let left = !running && !m.pend.is_empty();
        drop(d);
        settle().await;
        tokio::time::sleep(ms(200)).await;
        let out = drain(&mut rx);
        if running {
            m.emitted(&mut o, out, t0.elapsed().as_millis() as u64, true, running, &what);
        }
        log + &format!("{left}{:?}", m.count)
    });
    match r {
        Some(l) => o.observed = l,
        None => deadlock(&mut o, &what),
    }
    o
}

pub fn c21(ctx: &Ctx) {
    ctx.assume("time is tokio's virtual clock, stepped 10 ms at a time; the flush task's own period (50 ms) is allowed as slack after a deadline");
    ctx.assume("after stop, notifications submitted later are only required to come out at an explicit flush");
    let configs = [
        DC { merging: true, max_batch: 100, max_wait: 5000, intervals: &[] },
        DC { merging: false, max_batch: 100, max_wait: 5000, intervals: &[] },
        DC { merging: true, max_batch: 2, max_wait: 200, intervals: &[("progress", 150)] },
        DC { merging: false, max_batch: 1, max_wait: 200, intervals: &[("resource_updated", 60), ("progress", 160)] },
    ];
    let alpha = [D::Sub(0), D::Sub(2), D::Adv(60), D::Adv(180), D::Flush, D::Stop];
    let depth = ctx.by(5, 7);
    let cases = configs.into_iter().flat_map(move |c| sequences(alpha.len(), depth).map(move |q| (c.clone(), q.into_iter().map(|i| alpha[i]).collect::<Vec<_>>())));
    for_all(ctx, &format!("debouncer histories of {depth} operations"), cases, |(c, ops)| debounce_case(c, ops));

    // an interval of one subject besides that of its type, and a waiting limit below the interval
    let more = [
        DC { merging: true, max_batch: 9, max_wait: 5000, intervals: &[("resource_updated", 180), ("resource_updated:file:///x:y", 40)] },
        DC { merging: false, max_batch: 9, max_wait: 5000, intervals: &[("resource_updated:file:///X:y", 200), ("resource_updated", 70)] },
        DC { merging: true, max_batch: 9, max_wait: 120, intervals: &[("resource_updated", 300), ("progress", 900)] },
    ];
    let alpha2 = [D::Sub(2), D::Sub(3), D::Sub(0), D::Adv(60), D::Adv(180), D::Flush];
    let len2 = ctx.by(4, 6);
    let cases = more.into_iter().flat_map(move |c| sequences(alpha2.len(), len2).map(move |q| (c.clone(), q.into_iter().map(|i| alpha2[i]).collect::<Vec<_>>())));
    for_all(ctx, &format!("intervals of subjects and types, {len2} operations"), cases, |(c, ops)| debounce_case(c, ops));

    // deep bursts: one subject, merging limit and waiting limit
    let bursts = [
        DC { merging: true, max_batch: 3, max_wait: 250, intervals: &[] },
        DC { merging: false, max_batch: 3, max_wait: 250, intervals: &[("tool_list_changed", 200)] },
    ];
    let deep = ctx.by(11, 13);
    let cases = bursts.into_iter().flat_map(move |c| sequences(2, deep).map(move |q| (c.clone(), q.into_iter().map(|i| [D::Sub(4), D::Adv(90)][i]).collect::<Vec<_>>())));
    for_all(ctx, &format!("bursts of {deep} operations on one subject"), cases, |(c, ops)| debounce_case(c, ops));

    // every pair of subjects is independent, for each configured interval
    let cases = (0..SUBJECTS * SUBJECTS * 2 * 3).map(|k| (k % SUBJECTS, k / SUBJECTS % SUBJECTS, k / SUBJECTS / SUBJECTS % 2 == 0, k / SUBJECTS / SUBJECTS / 2));
    for_all(ctx, "pairs of subjects", cases, |&(a, b, merging, how)| {
        let intervals: &'static [(&'static str, u64)] = [
            &[][..],
            &[("progress", 200), ("tool_list_changed", 300), ("prompt_list_changed", 30), ("roots_list_changed", 400), ("log", 20)][..],
            &[("resource_updated", 250), ("log", 300), ("resource_list_changed", 40)][..],
        ][how];
        let c = DC { merging, max_batch: 9, max_wait: 5000, intervals };
        let mut o = Outcome::default();
        for end in [D::Flush, D::Adv(460), D::Stop] {
            let x = debounce_case(&c, &[D::Sub(a), D::Adv(20), D::Sub(b), D::Sub(a), end]);
            o.observed += &x.observed;
            o.fails.extend(x.fails);
            o.transitions += x.transitions;
        }
        o
    });

    // many subjects, and many notifications on one subject
    let cases = SIZES.iter().flat_map(|&n| (0..8usize).map(move |k| (n, k & 1 != 0, k & 2 != 0, k & 4 != 0)));
    for_all(ctx, "many notifications pending", cases, |&(n, one_subject, merging, timed)| {
        let mut o = Outcome { transitions: 2 * n as u64, ..Default::default() };
        let what = format!("{n} notifications on {} (merging {merging}), {}", if one_subject { "one subject" } else { "a subject each" }, if timed { "left alone" } else { "flushed" });
        let r = seq(async {
            let (tx, mut rx) = mpsc::channel(4096);
            let c = DC { merging, max_batch: 2 * n + 1, max_wait: 5000, intervals: &[] };
            let mut d = c.build(tx);
            d.start().await.ok();
            let mut want: Vec<(String, usize)> = vec![];
            let round = if one_subject { 1 } else { 2 };
            for i in 0..round * n {
                let k = if one_subject { 0 } else { i % n };
                // a subject's own notifications are told apart by their text
                d.submit(ServerNotification::Progress(ProgressNotification { progress_token: ProgressToken::Number(k as i64), progress: i as f64, message: None })).await.ok();
                if !merging {
                    want.retain(|w| w.0 != k.to_string());
                }
                want.push((k.to_string(), i));
            }
            let st = d.stats().await;
            if timed {
                tokio::time::sleep(ms(400)).await;
            } else {
                d.flush().await.ok();
            }
            settle().await;
            let got: Vec<(String, usize)> = drain(&mut rx)
                .iter()
                .filter_map(|x| match x {
                    ServerNotification::Progress(p) => Some((match &p.progress_token { ProgressToken::Number(k) => k.to_string(), ProgressToken::String(s) => s.clone() }, p.progress as usize)),
                    _ => None,
                })
                .collect();
            (st.pending_count, st.total_notifications, got, want, round * n)
        });
        let Some((pending, total, mut got, mut want, sent)) = r else {
            deadlock(&mut o, &what);
            return o;
        };
        expect_eq(&mut o, "stats", format!("{what}: pending counts"), (pending, total), (if one_subject { 1 } else { n }, sent));
        // order matters within a subject only
        got.sort_by(|a, b| a.0.cmp(&b.0));
        want.sort_by(|a, b| a.0.cmp(&b.0));
        expect_eq(&mut o, "wrong-notifications", what.clone(), got, want);
        o.observed = what;
        o
    });

    // the default table: the types it names use the interval it names
    for_all(ctx, "default configuration", 0..SUBJECTS, |&s| {
        let mut o = Outcome::default();
        let want = [100, 100, 250, 250, 250, 250, 500, 250, 50][s];
        let r = seq(async {
            let (tx, mut rx) = mpsc::channel(64);
            let mut d = NotificationDebouncer::new(NotificationDebouncerConfig::default(), tx);
            d.start().await.ok();
            tokio::time::sleep(ms(20)).await;
            let t0 = Instant::now();
            d.submit(note(s, 0)).await.ok();
            let got = rx.recv().await;
            (got.map(|n| subject(&n).0), t0.elapsed().as_millis() as u64)
        });
        let Some((got, t)) = r else {
            o.fail("not-emitted", format!("subject {s} never came out"));
            return o;
        };
        o.observed = format!("{t}");
        if got != Some(s) || t < want || t > want + 50 {
            o.fail("default-interval", format!("subject {s} came out as {got:?} after {t} ms, its interval is {want} ms"));
        }
        o
    });

    // schedules: submitter, flusher, flush task and stop around a full channel
    let dev = ctx.by(3, 4);
    for cap in [1usize, 8] {
        explore(ctx, &format!("debouncer schedules, channel of {cap}, deviations<={dev}"), Bounds::dev(dev).secs(ctx.by(45, 500)), |ex| {
            let mut o = Outcome::default();
            let merging = ex.choose(2) == 0;
            let subs: &'static [usize] = [&[0, 0][..], &[0, 2][..]][ex.choose(2)];
            let pause = [0u64, 60][ex.choose(2)];
            let flushes = [0u64, 50, 60][ex.choose(3)];
            let r = run_async(&ex, HOUR, true, async {
                let (tx, mut rx) = mpsc::channel(cap);
                let c = DC { merging, max_batch: 100, max_wait: 5000, intervals: &[("progress", 50), ("resource_updated", 50)] };
                let mut d = c.build(tx);
                d.start().await.ok();
                let d = Rc::new(d);
                let subs2 = subs;
                let sink = tokio::spawn(async move {
                    let mut got = vec![];
                    while let Some(n) = rx.recv().await {
                        got.push(subject(&n));
                        tokio::task::yield_now().await;
                    }
                    got
                });
                let local = tokio::task::LocalSet::new();
                let (d1, d2, d3) = (d.clone(), d.clone(), d.clone());
                let h = local
                    .run_until(async move {
                        let a = tokio::task::spawn_local(async move {
                            for i in 0..2 {
                                for (k, s) in subs2.iter().enumerate() {
                                    let _ = d1.submit(note(*s, if subs2[0] == subs2[1] { 2 * i + k } else { i })).await;
                                }
                                if pause > 0 && i == 0 {
                                    tokio::time::sleep(ms(pause)).await;
                                }
                            }
                        });
                        let b = tokio::task::spawn_local(async move {
                            tokio::time::sleep(ms(flushes)).await;
                            let _ = d2.flush().await;
                            let _ = d2.flush().await;
                        });
                        let c = tokio::task::spawn_local(async move {
                            tokio::time::sleep(ms(flushes)).await;
                            let _ = d3.flush().await;
                        });
                        let _ = a.await;
                        let _ = b.await;
                        let _ = c.await;
                    })
                    .await;
                let _ = h;
                tokio::time::sleep(ms(10)).await;
                let mut d = Rc::try_unwrap(d).ok().expect("sole owner");
                d.stop().await;
                drop(d);
                let end = tokio::time::timeout(ms(2000), sink).await;
                end.ok().and_then(Result::ok)
            });
            let what = format!("subjects {subs:?} pause {pause} flush at {flushes}, merging {merging}");
            let Some(Some(got)) = r else {
                deadlock(&mut o, &what);
                return o;
            };
            o.observed = format!("{got:?}");
            let of = |s: usize| got.iter().filter(|g| g.0 == s).map(|g| g.1).collect::<Vec<_>>();
            if merging {
                let p: Vec<usize> = of(0).into_iter().flatten().collect();
                let n = if subs[1] == 0 { 4 } else { 2 };
                if p != (0..n).collect::<Vec<_>>() {
                    o.fail("schedule-order", format!("{what}: {n} notifications of one subject came out as {p:?}"));
                }
                if subs[1] == 2 && of(2).len() != 2 {
                    o.fail("schedule-count", format!("{what}: two updates came out {} times", of(2).len()));
                }
            } else {
                let p: Vec<usize> = of(0).into_iter().flatten().collect();
                let n = if subs[1] == 0 { 4 } else { 2 };
                if p.last() != Some(&(n - 1)) || p.windows(2).any(|w| w[0] >= w[1]) {
                    o.fail("schedule-latest", format!("{what}: {n} notifications of one subject came out as {p:?}"));
                }
                if subs[1] == 2 && !(1..=2).contains(&of(2).len()) {
                    o.fail("schedule-count", format!("{what}: updates came out {} times", of(2).len()));
                }
            }
            o
        });
    }

    batcher(ctx);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum B {
    Add(usize),
    Adv(u64),
    Flush,
}

fn batcher(ctx: &Ctx) {
    let alpha = [B::Add(0), B::Add(8), B::Adv(60), B::Adv(120), B::Flush];
    let depth = ctx.by(6, 7);
    let cases = [1usize, 2, 3].into_iter().flat_map(move |max| sequences(alpha.len(), depth).map(move |q| (max, q.into_iter().map(|i| alpha[i]).collect::<Vec<_>>())));
    for_all(ctx, &format!("batcher histories of {depth} operations"), cases, |(max, ops)| {
        let mut o = Outcome::default();
        let what = format!("limit {max}: {ops:?}");
        let r = seq(async {
            let (tx, mut rx) = mpsc::channel(64);
            let b = NotificationBatcher::new(*max, ms(100), tx);
            let t0 = Instant::now();
            let mut pend: BTreeMap<usize, Vec<(usize, u64)>> = BTreeMap::new();
            let mut count = [0usize; SUBJECTS];
            let mut log = vec![];
            let end = [B::Adv(200)];
            for op in ops.iter().chain(&end) {
                o.transitions += 1;
                let (steps, step) = if let B::Adv(n) = op { (n / 10, 10) } else { (1, 0) };
                for _ in 0..steps {
                    match op {
                        B::Add(s) => {
                            let i = count[*s];
                            count[*s] += 1;
                            pend.entry(*s).or_default().push((i, t0.elapsed().as_millis() as u64));
                            b.add(note(*s, i)).await.ok();
                        },
                        B::Adv(_) => {
                            tokio::time::sleep(ms(step)).await;
                        },
                        B::Flush => {
                            b.flush().await.ok();
                        },
                    }
                    settle().await;
                    let now = t0.elapsed().as_millis() as u64;
                    for batch in drain(&mut rx) {
                        log.push(batch.len());
                        let ids: Vec<(usize, Option<usize>)> = batch.iter().map(subject).collect();
                        if ids.is_empty() || ids.len() > *max {
                            o.fail("batch-size", format!("{what}: a batch of {} came out at {now} ms", ids.len()));
                        }
                        for (s, i) in ids {
                            let p = pend.entry(s).or_default();
                            if p.is_empty() || Some(p[0].0) != i {
                                o.fail("batch-content", format!("{what}: subject {s} item {i:?} came out at {now} ms, pending {p:?}"));
                            } else {
                                p.remove(0);
                            }
                        }
                    }
                    for (s, p) in &mut pend {
                        if p.len() >= *max {
                            o.fail("full-not-sent", format!("{what}: {} notifications of subject {s} wait at {now} ms", p.len()));
                            p.clear();
                        }
                        if p.iter().any(|x| now > x.1 + 100) {
                            o.fail("batch-late", format!("{what}: subject {s} still waits at {now} ms: {p:?}"));
                            p.clear();
                        }
                        if matches!(op, B::Flush) && !p.is_empty() {
                            o.fail("flush-incomplete", format!("{what}: subject {s} still holds {p:?} after a flush"));
                            p.clear();
                        }
                    }
                }
            }
            format!("{log:?}")
        });
        match r {
            Some(l) => o.observed = l,
            None => deadlock(&mut o, &what),
        }
        o
    });
    let dev = ctx.by(3, 4);
    explore(ctx, &format!("batcher schedules, deviations<={dev}"), Bounds::dev(dev).secs(ctx.by(45, 400)), |ex| {
        let mut o = Outcome::default();
        let max = 1 + ex.choose(2);
        let cap = [1usize, 4][ex.choose(2)];
        let r = run_async(&ex, HOUR, true, async {
            let (tx, mut rx) = mpsc::channel(cap);
            let b = Arc::new(NotificationBatcher::new(max, ms(50), tx));
            let adders: Vec<_> = (0..2)
                .map(|a| {
                    let b = b.clone();
                    tokio::spawn(async move {
                        for i in 0..3 {
                            let _ = b.add(note(0, 10 * a + i)).await;
                        }
                    })
                })
                .collect();
            let b2 = b.clone();
            let fl = tokio::spawn(async move {
                let _ = b2.flush().await;
            });
            let sink = tokio::spawn(async move {
                let mut got: Vec<Vec<usize>> = vec![];
                while let Ok(Some(n)) = tokio::time::timeout(ms(500), rx.recv()).await {
                    got.push(n.iter().filter_map(|x| subject(x).1).collect());
                }
                got
            });
            for a in adders {
                let _ = a.await;
            }
            let _ = fl.await;
            drop(b);
            sink.await.ok()
        });
        let Some(Some(got)) = r else {
            deadlock(&mut o, &format!("limit {max}, channel {cap}"));
            return o;
        };
        o.observed = format!("{got:?}");
        if got.iter().any(|b| b.is_empty() || b.len() > max) {
            o.fail("batch-size", format!("limit {max}: {got:?}"));
        }
        let flat: Vec<usize> = got.concat();
        for a in 0..2 {
            let mine: Vec<usize> = flat.iter().copied().filter(|x| x / 10 == a).collect();
            if mine != [10 * a, 10 * a + 1, 10 * a + 2] {
                o.fail("schedule-order", format!("limit {max}, channel {cap}: one sender's notifications came out as {mine:?} ({got:?})"));
            }
        }
        o
    });
}

// ------------------------------------------------------------------ C22

fn msg(k: usize, i: usize) -> Notification {
    Notification::Client(ClientNotification::Cancelled(CancelledNotification { request_id: RequestId::Number((100 * k + i) as i64), reason: None }))
}
fn num(n: &Notification) -> usize {
    match n {
        Notification::Client(ClientNotification::Cancelled(c)) => match &c.request_id {
            RequestId::Number(n) => *n as usize,
            RequestId::String(_) => 9999,
        },
        _ => 9998,
    }
}

async fn recv_now<T>(f: impl std::future::Future<Output = Option<T>>) -> Option<T> {
    tokio::select! {
        biased;
        x = f => x,
        () = async { settle().await } => None,
    }
}

pub fn c22(ctx: &Ctx) {
    ctx.assume("time is tokio's virtual clock");
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    enum O {
        Add,
        Adv(u64),
        Recv,
        Start,
    }
    let alpha = [O::Add, O::Adv(40), O::Adv(130), O::Recv, O::Start];
    let depth = ctx.by(6, 8);
    let cases = [1usize, 2, 3].into_iter().flat_map(move |max| sequences(alpha.len(), depth).map(move |q| (max, q.into_iter().map(|i| alpha[i]).collect::<Vec<_>>())));
    for_all(ctx, &format!("batcher histories of {depth} operations"), cases, |(max, ops)| {
        let mut o = Outcome::default();
        let what = format!("limit {max}: {ops:?}");
        let r = seq(async {
            let b = MessageBatcher::new(BatchingConfig { max_batch_size: *max, max_wait_time: ms(100), batched_methods: vec![] });
            let t0 = Instant::now();
            let (mut started, mut next) = (None, 0);
            // pending (id, time added); `ready`: deadline by which it must be receivable
            let mut pend: Vec<(usize, u64)> = vec![];
            let mut log = vec![];
            let end = [O::Start, O::Adv(210), O::Recv, O::Recv, O::Recv, O::Recv, O::Recv, O::Recv, O::Recv, O::Recv, O::Recv];
            for op in ops.iter().chain(&end) {
                o.transitions += 1;
                match op {
                    O::Add => {
                        pend.push((next, t0.elapsed().as_millis() as u64));
                        b.add(msg(0, next)).await.ok();
                        next += 1;
                    },
                    O::Adv(n) => tokio::time::sleep(ms(*n)).await,
                    O::Start => {
                        if started.is_none() {
                            b.start_timer();
                            started = Some(t0.elapsed().as_millis() as u64);
                            settle().await;
                        }
                    },
                    O::Recv => {
                        settle().await;
                        let now = t0.elapsed().as_millis() as u64;
                        match recv_now(b.receive_batch()).await {
                            Some(batch) => {
                                let ids: Vec<usize> = batch.iter().map(num).collect();
                                log.push(ids.len());
                                if ids.is_empty() || ids.len() > *max {
                                    o.fail("batch-size", format!("{what}: a batch {ids:?}"));
                                }
                                if ids.len() < *max && started.is_none() {
                                    o.fail("partial-without-timer", format!("{what}: a batch {ids:?} at {now} ms"));
                                }
                                for id in ids {
                                    if pend.first().map(|p| p.0) == Some(id) {
                                        pend.remove(0);
                                    } else {
                                        o.fail("batch-content", format!("{what}: {id} received at {now} ms, pending {pend:?}"));
                                    }
                                }
                            },
                            None => {
                                if pend.len() >= *max || (started.is_some() && pend.iter().any(|p| now > p.1.max(started.unwrap()) + 100)) {
                                    o.fail("batch-late", format!("{what}: nothing to receive at {now} ms, pending {pend:?}"));
                                    pend.clear();
                                }
                            },
                        }
                    },
                }
            }
            if !pend.is_empty() {
                o.fail("message-lost", format!("{what}: never received: {pend:?}"));
            }
            format!("{log:?}")
        });
        match r {
            Some(l) => o.observed = l,
            None => deadlock(&mut o, &what),
        }
        o
    });

    let dev = ctx.by(3, 4);
    explore(ctx, &format!("batcher schedules, deviations<={dev}"), Bounds::dev(dev).secs(ctx.by(45, 400)), |ex| {
        let mut o = Outcome::default();
        let max = 1 + ex.choose(3);
        let pause = [0u64, 50][ex.choose(2)];
        let r = run_async(&ex, HOUR, true, async {
            let b = Arc::new(MessageBatcher::new(BatchingConfig { max_batch_size: max, max_wait_time: ms(50), batched_methods: vec![] }));
            b.start_timer();
            let adders: Vec<_> = (0..2)
                .map(|a| {
                    let b = b.clone();
                    tokio::spawn(async move {
                        for i in 0..3 {
                            let _ = b.add(msg(a, i)).await;
                            if i == 0 && pause > 0 {
                                tokio::time::sleep(ms(pause)).await;
                            }
                        }
                    })
                })
                .collect();
            let b2 = b.clone();
            let sink = tokio::spawn(async move {
                let mut got: Vec<Vec<usize>> = vec![];
                while let Ok(Some(n)) = tokio::time::timeout(ms(500), b2.receive_batch()).await {
                    got.push(n.iter().map(num).collect());
                }
                got
            });
            for a in adders {
                let _ = a.await;
            }
            sink.await.ok()
        });
        let Some(Some(got)) = r else {
            deadlock(&mut o, &format!("limit {max}"));
            return o;
        };
        o.observed = format!("{got:?}");
        if got.iter().any(|b| b.is_empty() || b.len() > max) {
            o.fail("batch-size", format!("limit {max}: {got:?}"));
        }
        let flat: Vec<usize> = got.concat();
        for a in 0..2 {
            let mine: Vec<usize> = flat.iter().copied().filter(|x| x / 100 == a).collect();
            if mine != [100 * a, 100 * a + 1, 100 * a + 2] {
                o.fail("schedule-order", format!("limit {max}: one sender's messages came out as {mine:?} ({got:?})"));
            }
        }
        o
    });
    // many messages, taken as they come
    let cases = SIZES.iter().flat_map(|&n| [1usize, 7, 10, 100, 1000].map(move |max| (n, max)));
    for_all(ctx, "many messages", cases, |&(n, max)| {
        let mut o = Outcome { transitions: n as u64, ..Default::default() };
        let r = seq(async {
            let b = Arc::new(MessageBatcher::new(BatchingConfig { max_batch_size: max, max_wait_time: ms(50), batched_methods: vec![] }));
            b.start_timer();
            let b2 = b.clone();
            let h = tokio::spawn(async move {
                for i in 0..n {
                    let _ = b2.add(msg(0, i)).await;
                }
            });
            let mut got: Vec<Vec<usize>> = vec![];
            while let Ok(Some(x)) = tokio::time::timeout(ms(300), b.receive_batch()).await {
                got.push(x.iter().map(num).collect());
            }
            let _ = h.await;
            got
        });
        let Some(got) = r else {
            deadlock(&mut o, &format!("{n} messages, limit {max}"));
            return o;
        };
        if let Some(b) = got.iter().find(|b| b.is_empty() || b.len() > max) {
            o.fail("batch-size", format!("{n} messages, limit {max}: a batch of {}", b.len()));
        }
        expect_eq(&mut o, "message-lost", format!("{n} messages, limit {max}"), got.concat(), (0..n).collect::<Vec<_>>());
        o.observed = format!("{}", got.len());
        o
    });
    // a channel full of batches: nothing is lost, senders wait
    for_all(ctx, "more batches than the channel holds", 99..=104usize, |&n| {
        let mut o = Outcome::default();
        let r = seq(async {
            let b = Arc::new(MessageBatcher::new(BatchingConfig { max_batch_size: 1, max_wait_time: ms(50), batched_methods: vec![] }));
            let b2 = b.clone();
            let h = tokio::spawn(async move {
                for i in 0..n {
                    let _ = b2.add(msg(0, i)).await;
                }
            });
            settle().await;
            let mut got = vec![];
            while let Ok(Some(x)) = tokio::time::timeout(ms(10), b.receive_batch()).await {
                got.extend(x.iter().map(num));
            }
            let _ = h.await;
            got
        });
        expect_eq(&mut o, "overflow", format!("{n} batches"), r, Some((0..n).collect::<Vec<_>>()));
        o
    });

    // A receiver that lags by about as many batches as the channel holds
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    enum S {
        Add,
        Adv,
        Recv,
        Start,
    }
    let beta = [S::Add, S::Adv, S::Recv, S::Start];
    let depth = ctx.by(5, 7);
    let cases = (0..8).flat_map(move |p| sequences(beta.len(), depth).map(move |q| (1 + p % 2, 98 + p / 2, q.into_iter().map(|i| beta[i]).collect::<Vec<_>>())));
    for_all(ctx, &format!("slow receiver, histories of {depth} operations"), cases, |(max, full, ops)| {
        let mut o = Outcome { transitions: ops.len() as u64, ..Default::default() };
        let what = format!("limit {max}, {full} full batches waiting, then {ops:?}");
        let r = seq(async {
            let b = Arc::new(MessageBatcher::new(BatchingConfig { max_batch_size: *max, max_wait_time: ms(100), batched_methods: vec![] }));
            let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<usize>();
            let b2 = b.clone();
            // one sender, which waits while the channel is full
            tokio::spawn(async move {
                while let Some(i) = rx.recv().await {
                    let _ = b2.add(msg(0, i)).await;
                }
            });
            let mut next = 0;
            let mut add = || {
                let _ = tx.send(next);
                next += 1;
            };
            for _ in 0..full * max {
                add();
            }
            settle().await;
            let mut got: Vec<usize> = vec![];
            for op in ops.iter().chain(&[S::Start, S::Adv]) {
                match op {
                    S::Add => add(),
                    S::Adv => tokio::time::sleep(ms(130)).await,
                    S::Start => b.start_timer(),
                    S::Recv => {
                        if let Some(x) = recv_now(b.receive_batch()).await {
                            got.extend(x.iter().map(num));
                        }
                    },
                }
                settle().await;
            }
            while let Ok(Some(x)) = tokio::time::timeout(ms(450), b.receive_batch()).await {
                if x.is_empty() || x.len() > *max {
                    o.fail("batch-size", format!("{what}: a batch of {}", x.len()));
                }
                got.extend(x.iter().map(num));
            }
            (got, next)
        });
        match r {
            Some((got, n)) => {
                expect_eq(&mut o, "message-lost", &what, got, (0..n).collect::<Vec<_>>());
            },
            None => deadlock(&mut o, &what),
        }
        o
    });

    debouncer22(ctx);
}

fn debouncer22(ctx: &Ctx) {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    enum O {
        Add(usize),
        Adv(u64),
        Flush,
    }
    let alpha = [O::Add(0), O::Add(1), O::Adv(30), O::Adv(50), O::Adv(80), O::Flush];
    let depth = ctx.by(5, 7);
    // one key has its own waiting time, longer or shorter than the common one
    let cases = sequences(alpha.len(), depth).flat_map(move |q| [[50u64, 80], [80, 50]].map(|w| (w, q.iter().map(|&i| alpha[i]).collect::<Vec<_>>())));
    const KEYS: [&str; 2] = ["tools/list", "tools"];
    for_all(ctx, &format!("debouncer histories of {depth} operations"), cases, |(wait, ops)| {
        let mut o = Outcome::default();
        let what = format!("waiting times {wait:?}: {ops:?}");
        let r = seq(async {
            let mut special = HashMap::new();
            special.insert(KEYS[1].to_string(), ms(wait[1]));
            let d = MessageDebouncer::new(DebouncingConfig { wait_time: ms(wait[0]), debounced_methods: special });
            let t0 = Instant::now();
            let mut next = [0usize; 2];
            // latest message and when it is due
            let mut pend: [Option<(usize, u64)>; 2] = [None; 2];
            let mut log = vec![];
            let end = [O::Adv(200)];
            for op in ops.iter().chain(&end) {
                o.transitions += 1;
                let steps = if let O::Adv(n) = op { n / 10 } else { 1 };
                for _ in 0..steps {
                    match op {
                        O::Add(k) => {
                            let i = next[*k];
                            next[*k] += 1;
                            d.add(KEYS[*k].to_string(), msg(*k, i)).await.ok();
                            pend[*k] = Some((100 * k + i, t0.elapsed().as_millis() as u64 + wait[*k]));
                        },
                        O::Adv(_) => tokio::time::sleep(ms(10)).await,
                        O::Flush => {
                            let got: Vec<usize> = sorted(d.flush().await.iter().map(num).collect());
                            let want: Vec<usize> = sorted(pend.iter().flatten().map(|p| p.0).collect());
                            expect_eq(&mut o, "flush", format!("{what}: flushed"), got, want);
                            pend = [None; 2];
                        },
                    }
                    settle().await;
                    let now = t0.elapsed().as_millis() as u64;
                    let mut got = vec![];
                    while let Some(n) = recv_now(d.receive()).await {
                        got.push(num(&n));
                    }
                    let mut want = vec![];
                    for p in &mut pend {
                        if p.is_some_and(|p| p.1 <= now) {
                            want.push(p.take().unwrap().0);
                        }
                    }
                    got.sort_unstable();
                    log.push(got.len());
                    expect_eq(&mut o, "emission", format!("{what}: emitted at {now} ms"), got, want);
                }
            }
            format!("{log:?}")
        });
        match r {
            Some(l) => o.observed = l,
            None => deadlock(&mut o, &what),
        }
        o
    });

    // A receiver that lags by about as many messages as the channel holds
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    enum S {
        Add(usize),
        Adv(u64),
        Recv,
        Flush,
    }
    let beta = [S::Add(0), S::Add(1), S::Adv(30), S::Adv(80), S::Recv, S::Flush];
    let depth = ctx.by(4, 5);
    let cases = (98..102usize).flat_map(move |n| sequences(beta.len(), depth).map(move |q| (n, q.into_iter().map(|i| beta[i]).collect::<Vec<_>>())));
    for_all(ctx, &format!("debouncer, slow receiver, histories of {depth} operations"), cases, |(full, ops)| {
        let mut o = Outcome { transitions: ops.len() as u64, ..Default::default() };
        let what = format!("{full} messages waiting, then {ops:?}");
        let r = seq(async {
            let d = MessageDebouncer::new(DebouncingConfig { wait_time: ms(50), debounced_methods: HashMap::new() });
            for i in 0..*full {
                d.add(format!("f{i}"), msg(5, i)).await.ok();
            }
            tokio::time::sleep(ms(60)).await;
            settle().await;
            let mut next = [0usize; 2];
            let mut got: Vec<usize> = vec![];
            for op in ops {
                match op {
                    S::Add(k) => {
                        d.add(format!("k{k}"), msg(*k, next[*k])).await.ok();
                        next[*k] += 1;
                    },
                    S::Adv(n) => tokio::time::sleep(ms(*n)).await,
                    S::Recv => got.extend(recv_now(d.receive()).await.iter().map(num)),
                    S::Flush => got.extend(d.flush().await.iter().map(num)),
                }
                settle().await;
            }
            while let Ok(Some(x)) = tokio::time::timeout(ms(450), d.receive()).await {
                got.push(num(&x));
            }
            (got, next)
        });
        let Some((got, next)) = r else {
            deadlock(&mut o, &what);
            return o;
        };
        expect_eq(&mut o, "message-lost", format!("{what}: of the messages waiting"), sorted(got.iter().copied().filter(|g| *g >= 500).collect()), (500..500 + full).collect::<Vec<_>>());
        for k in 0..2 {
            let mine: Vec<usize> = sorted(got.iter().copied().filter(|g| g / 100 == k).collect());
            if mine.windows(2).any(|w| w[0] == w[1]) {
                o.fail("emitted-twice", format!("{what}: {mine:?}"));
            }
            if next[k] > 0 && mine.last() != Some(&(100 * k + next[k] - 1)) {
                o.fail("message-lost", format!("{what}: the last of {} messages under k{k} never came out: {mine:?}", next[k]));
            }
        }
        o
    });

    let dev = ctx.by(3, 4);
    explore(ctx, &format!("debouncer schedules, deviations<={dev}"), Bounds::dev(dev).secs(ctx.by(45, 400)), |ex| {
        let mut o = Outcome::default();
        // adder: v0, wait, v1 (, wait, v2); flusher at a moment
        let gap = [0u64, 50, 51][ex.choose(3)];
        let two = ex.choose(2) == 1;
        let flush_at = [None, Some(0u64), Some(50), Some(51)][ex.choose(4)];
        let r = run_async(&ex, HOUR, true, async {
            let d = Arc::new(MessageDebouncer::new(DebouncingConfig { wait_time: ms(50), debounced_methods: HashMap::new() }));
            let got: Log<(usize, &'static str)> = Log::new();
            let t0 = Instant::now();
            let added: Log<(usize, u64)> = Log::new();
            let adders: Vec<_> = (0..if two { 2 } else { 1 })
                .map(|a| {
                    let (d, added) = (d.clone(), added.clone());
                    tokio::spawn(async move {
                        for i in 0..2 {
                            if i == 1 && gap > 0 {
                                tokio::time::sleep(ms(gap)).await;
                            }
                            added.push((100 * a + i, t0.elapsed().as_millis() as u64));
                            let _ = d.add("k".into(), msg(a, i)).await;
                        }
                    })
                })
                .collect();
            let (d2, got2) = (d.clone(), got.clone());
            let sink = tokio::spawn(async move {
                while let Ok(Some(n)) = tokio::time::timeout(ms(500), d2.receive()).await {
                    got2.push((num(&n), "timer"));
                }
            });
            if let Some(at) = flush_at {
                tokio::time::sleep(ms(at)).await;
                for n in d.flush().await {
                    got.push((num(&n), "flush"));
                }
            }
            for a in adders {
                let _ = a.await;
            }
            let _ = sink.await;
            let left = d.flush().await.len();
            (got.get(), left)
        });
        let what = format!("gap {gap}, {} adder(s), flush at {flush_at:?}", 1 + usize::from(two));
        let Some((got, left)) = r else {
            deadlock(&mut o, &what);
            return o;
        };
        o.observed = format!("{got:?}");
        if left != 0 {
            o.fail("left-behind", format!("{what}: {left} message(s) had no timer"));
        }
        let ids: Vec<usize> = got.iter().map(|g| g.0).collect();
        if sorted(ids.clone()).windows(2).any(|w| w[0] == w[1]) {
            o.fail("emitted-twice", format!("{what}: {got:?}"));
        }
        // the last message of all must come out
        let last: Vec<usize> = if two { vec![1, 101] } else { vec![1] };
        if !last.iter().any(|l| ids.contains(l)) {
            o.fail("message-lost", format!("{what}: {got:?}"));
        }
        if !two && ids.contains(&0) && ids.iter().position(|x| *x == 0) > ids.iter().position(|x| *x == 1) {
            o.fail("schedule-order", format!("{what}: {got:?}"));
        }
        o
    });
}
