//! C36: the resource watcher.  The file system's events come in through a
//! replaced watch backend (the harness emits them, at virtual times); a few
//! histories run on the real one.
use super::util::*;
use crate::aengine::*;
use crate::ctx::Ctx;
use crate::explore::*;
use notify::event::{AccessKind, CreateKind, DataChange, EventKind, ModifyKind, RemoveKind, RenameMode};
use pmcp::server::resource_watcher::{ResourceWatcher, ResourceWatcherBuilder, WatchConfig};
use pmcp::types::protocol::{ResourceInfo, ServerNotification};
use std::path::PathBuf;
use std::time::Duration;
use tokio::sync::mpsc;
use tokio::time::{sleep, Instant};

const BASE: &str = "/w";
/// relative to BASE, but for the last; and whether each configuration takes it
const FILES: [(&str, [bool; 5]); 6] = [
    ("/w/a.txt", [true, true, true, true, false]),
    ("/w/d/b.txt", [true, true, true, false, true]),
    ("/w/c.txt", [true, true, true, true, true]),
    ("/w/.git/x.txt", [false, false, false, false, false]),
    ("/w/m.bin", [true, false, false, false, false]),
    ("/v/o.txt", [false, false, false, false, false]),
];
const DEBOUNCE: u64 = 350;
/// how late an announcement may be (the watcher looks every so often)
const SLACK: u64 = 250;

fn config(k: usize, debounce: Duration, tx: mpsc::Sender<ServerNotification>) -> ResourceWatcher {
    let c = |patterns: &[&str], ignore: &[&str]| WatchConfig {
        debounce,
        patterns: patterns.iter().map(|p| p.to_string()).collect(),
        ignore_patterns: ignore.iter().map(|p| p.to_string()).collect(),
        max_resources: 2000,
    };
    match k {
        0 => ResourceWatcherBuilder::new().base_dir(BASE).debounce(debounce).build(tx).expect("watcher"),
        1 => ResourceWatcher::new(BASE, c(&["none/*", "**/*.txt"], &["x/**", "**/.git/**"]), tx),
        2 => ResourceWatcherBuilder::new().base_dir(BASE).debounce(debounce).pattern("**/*.txt").ignore("**/skip/**").max_resources(2000).build(tx).expect("watcher"),
        3 => ResourceWatcher::new(BASE, c(&["*.txt"], &[]), tx),
        // named outright, and ignored all the same
        _ => ResourceWatcher::new(BASE, c(&["a.txt", "d/b.txt", "*.txt"], &["a.txt"]), tx),
    }
}

fn info(uri: &str) -> ResourceInfo {
    ResourceInfo { uri: uri.into(), name: "n".into(), description: None, mime_type: None }
}

fn uri(f: usize) -> String {
    format!("file://{}", FILES[f].0)
}

fn emit(kind: EventKind, files: &[usize]) {
    let mut e = notify::Event::new(kind);
    for &f in files {
        e = e.add_path(PathBuf::from(FILES[f].0));
    }
    notify::mc::emit(e);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum W {
    Modify(usize),
    Create(usize),
    Remove(usize),
    Rename(usize, usize),
    Read(usize),
    Register(usize),
    Unregister(usize),
    Wait(u64),
    Stop,
    Drop,
}

/// The announcements must be those the history calls for.
fn judge(o: &mut Outcome, at: &str, f: usize, events: &[u64], regs: &[(u64, bool)], stopped: Option<u64>, got: &[u64], end: u64, debounce: u64) {
    // registered throughout / at some moment of [a, b]?
    let reg = |a: u64, b: u64| {
        let before = regs.iter().rev().find(|r| r.0 < a).is_some_and(|r| r.1);
        let within: Vec<bool> = regs.iter().filter(|r| r.0 >= a && r.0 <= b).map(|r| r.1).collect();
        (before && within.iter().all(|x| *x), before || within.iter().any(|x| *x))
    };
    let name = FILES[f].0;
    for (i, &m) in got.iter().enumerate() {
        let since = if i == 0 { 0 } else { got[i - 1] };
        let cause: Vec<u64> = events.iter().copied().filter(|t| t + debounce <= m && *t + debounce + SLACK >= m).collect();
        if cause.is_empty() {
            o.fail("unprompted", format!("{at}: {name} announced at {m}, changed at {events:?}"));
        } else if i > 0 && !events.iter().any(|&t| t + debounce > since && t <= m) {
            o.fail("announced-twice", format!("{at}: {name} announced at {got:?}, changed at {events:?}"));
        } else if !reg(m.saturating_sub(1), m + 1).1 {
            o.fail("unregistered-announced", format!("{at}: {name} announced at {m}, registered {regs:?}"));
        }
        // not while changes keep coming
        if events.iter().any(|&t| t + debounce > m && t + 1 < m) {
            o.fail("not-debounced", format!("{at}: {name} announced at {m}, changed at {events:?}"));
        }
    }
    for (i, &t) in events.iter().enumerate() {
        let (a, b) = (t + debounce, t + debounce + SLACK);
        let quiet = events.get(i + 1).map_or(true, |n| *n > b);
        if quiet && b <= end && stopped.is_none_or(|s| s > b) && reg(a, b).0 && !got.iter().any(|m| (a..=b).contains(m)) {
            o.fail("missed", format!("{at}: the change of {name} at {t} was not announced by {b}; announced {got:?}"));
        }
    }
}

fn run_history(cfg: usize, debounce: u64, s: &[W]) -> Outcome {
    let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
    notify::mc::reset();
    let at = format!("configuration {cfg}, debounce {debounce}: {s:?}");
    let done = seq(async {
        let (tx, mut rx) = mpsc::channel(100);
        let t0 = Instant::now();
        let ms = move || t0.elapsed().as_millis() as u64;
        let got: Log<(u64, String)> = Log::new();
        let g2 = got.clone();
        let reader = tokio::spawn(async move {
            while let Some(n) = rx.recv().await {
                match n {
                    ServerNotification::ResourceUpdated(p) => g2.push((ms(), p.uri)),
                    n => g2.push((ms(), format!("{n:?}"))),
                }
            }
        });
        let mut w = Some(config(cfg, Duration::from_millis(debounce), tx));
        let mut regs: Vec<Vec<(u64, bool)>> = vec![vec![]; FILES.len()];
        let mut events: Vec<Vec<u64>> = vec![vec![]; FILES.len()];
        for f in [0, 1, 3, 4, 5] {
            let _ = w.as_ref().unwrap().add_resource(uri(f), info(&uri(f))).await;
            regs[f].push((0, true));
        }
        if let Err(e) = w.as_mut().unwrap().start().await {
            o.fail("start", format!("{at}: {e}"));
            return;
        }
        sleep(Duration::from_millis(37)).await;
        let mut stopped = None;
        for x in s {
            let changed: Vec<usize> = match *x {
                W::Modify(f) => {
                    emit(EventKind::Modify(ModifyKind::Data(DataChange::Any)), &[f]);
                    vec![f]
                },
                W::Create(f) => {
                    emit(EventKind::Create(CreateKind::File), &[f]);
                    vec![f]
                },
                W::Remove(f) => {
                    emit(EventKind::Remove(RemoveKind::File), &[f]);
                    vec![f]
                },
                W::Rename(f, g) => {
                    emit(EventKind::Modify(ModifyKind::Name(RenameMode::Both)), &[f, g]);
                    vec![f, g]
                },
                W::Read(f) => {
                    emit(EventKind::Access(AccessKind::Any), &[f]);
                    vec![]
                },
                W::Register(f) => {
                    if let Some(w) = &w {
                        let _ = w.add_resource(uri(f), info(&uri(f))).await;
                        regs[f].push((ms(), true));
                    }
                    vec![]
                },
                W::Unregister(f) => {
                    if let Some(w) = &w {
                        let _ = w.remove_resource(&uri(f)).await;
                        regs[f].push((ms(), false));
                    }
                    vec![]
                },
                W::Wait(n) => {
                    sleep(Duration::from_millis(n)).await;
                    vec![]
                },
                W::Stop => {
                    if let Some(w) = &mut w {
                        w.stop().await;
                        settle().await;
                        stopped.get_or_insert(ms());
                    }
                    vec![]
                },
                W::Drop => {
                    if w.take().is_some() {
                        settle().await;
                        stopped.get_or_insert(ms());
                    }
                    vec![]
                },
            };
            settle().await;
            for f in changed {
                if FILES[f].1[cfg] && stopped.is_none() {
                    events[f].push(ms());
                }
            }
        }
        sleep(Duration::from_millis(debounce + 1000)).await;
        let (got, end) = (got.get(), ms());
        if stopped.is_some() && notify::mc::live() > 0 {
            o.fail("still-watching", at.clone());
        }
        for f in 0..FILES.len() {
            let mine: Vec<u64> = got.iter().filter(|g| g.1 == uri(f)).map(|g| g.0).collect();
            judge(&mut o, &at, f, &events[f], &regs[f], stopped, &mine, end, debounce);
        }
        if let Some(g) = got.iter().find(|g| !(0..FILES.len()).any(|f| uri(f) == g.1)) {
            o.fail("other-notification", format!("{at}: {g:?}"));
        }
        o.observed = format!("{got:?}");
        reader.abort();
    });
    if done.is_none() {
        o.fail("stuck", at);
    }
    o
}

pub fn c36(ctx: &Ctx) {
    use W::*;
    let alphabet = [Modify(0), Create(0), Remove(0), Modify(1), Rename(0, 1), Read(0), Modify(2), Modify(3), Modify(4), Register(2), Unregister(0), Register(0), Wait(100), Wait(300), Wait(700), Stop, Drop];
    let depth = ctx.by(4, 5);
    for (cfg, debounce) in [(2usize, DEBOUNCE), (0, DEBOUNCE), (1, 0), (3, 90)] {
        let d = if cfg == 2 { depth } else { depth - 1 };
        for_all(ctx, &format!("configuration {cfg}, debounce {debounce} ms: histories of length {d}"), sequences(alphabet.len(), d), |s| {
            let s: Vec<W> = s.iter().map(|&i| alphabet[i]).collect();
            run_history(cfg, debounce, &s)
        });
    }
    // every file under every configuration, every kind of change
    let mut cases = vec![];
    for cfg in 0..5 {
        for f in 0..FILES.len() {
            for x in [Modify(f), Create(f), Remove(f), Rename(f, 0), Rename(0, f), Read(f)] {
                cases.push((cfg, vec![Register(f), x, Wait(900), x, Wait(100), x]));
            }
        }
    }
    for_all(ctx, "every file, configuration and kind of change", cases, |(cfg, s)| run_history(*cfg, DEBOUNCE, s));
    // one change now and then over a long time: only the quiet periods count
    let depth = ctx.by(6, 8);
    let beat = [Wait(100), Modify(0), Modify(1), Wait(300)];
    for_all(ctx, &format!("two files changing at intervals, length {depth}"), sequences(beat.len(), depth), |s| {
        let s: Vec<W> = s.iter().map(|&i| beat[i]).collect();
        run_history(2, DEBOUNCE, &s)
    });
    resources(ctx);
    slow_consumers(ctx);
    real(ctx);
    ctx.assume("file system events enter at the notify crate's interface (a few histories run on real inotify); fewer than 1000 events arrive before the watcher task runs; what was pending at stop may or may not be announced; restart is not explored");
}

/// The table of watched resources.
fn resources(ctx: &Ctx) {
    // (operation, resource): add, add with another description, remove
    let ops: Vec<(u8, usize)> = (0..3).flat_map(|k| (0..3).map(move |r| (k, r))).collect();
    let depth = ctx.by(4, 5);
    for max in 0..3usize {
        for_all(ctx, &format!("resource table, limit {max}: sequences of length {depth}"), sequences(ops.len(), depth), |s| {
            let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
            let _ = seq(async {
                let (tx, _rx) = mpsc::channel(1);
                let w = ResourceWatcherBuilder::new().base_dir(BASE).max_resources(max).build(tx).expect("watcher");
                let mut m: std::collections::BTreeMap<String, Option<String>> = Default::default();
                for (i, &k) in s.iter().enumerate() {
                    let (op, r) = ops[k];
                    let u = ["file:///w/a", "file:///w/a.txt", "file:///W/a"][r].to_string();
                    if op == 2 {
                        let _ = w.remove_resource(&u).await;
                        m.remove(&u);
                    } else {
                        let mut x = info(&u);
                        x.description = (op == 1).then(|| "d".to_string());
                        let _ = w.add_resource(u.clone(), x.clone()).await;
                        if m.contains_key(&u) || m.len() < max {
                            m.insert(u, x.description);
                        }
                    }
                    let got: Vec<(String, Option<String>)> = sorted(w.get_resources().await.into_iter().map(|r| (r.uri, r.description)).collect());
                    let want: Vec<(String, Option<String>)> = m.clone().into_iter().collect();
                    expect_eq(&mut o, "table", format!("limit {max}: {:?}", s[..=i].iter().map(|&k| ops[k]).collect::<Vec<_>>()), got, want);
                }
            });
            o
        });
    }
}

/// Consumers that are slow, or use the watcher while they consume.
fn slow_consumers(ctx: &Ctx) {
    let dev = ctx.by(2, 3);
    explore(ctx, &format!("a consumer that uses the watcher, deviations<={dev}"), Bounds::dev(dev).secs(ctx.by(30, 200)), |ex| {
        let mut o = Outcome::default();
        let what = ex.choose(4);
        let capacity = 1 + ex.choose(2);
        let changed = 2 + ex.choose(2);
        notify::mc::reset();
        let r = run_async(&ex, HOUR, true, async {
            let (tx, mut rx) = mpsc::channel(capacity);
            let mut w = config(2, Duration::from_millis(100), tx);
            for f in 0..3 {
                let _ = w.add_resource(uri(f), info(&uri(f))).await;
            }
            w.start().await.expect("start");
            let w = std::sync::Arc::new(tokio::sync::Mutex::new(w));
            tokio::task::yield_now().await;
            settle().await;
            for f in 0..changed {
                emit(EventKind::Modify(ModifyKind::Any), &[f]);
            }
            let w2 = w.clone();
            let reader = tokio::spawn(async move {
                let mut got = vec![];
                while got.len() < changed {
                    match rx.recv().await {
                        Some(ServerNotification::ResourceUpdated(p)) => got.push(p.uri),
                        _ => break,
                    }
                    let w = w2.lock().await;
                    match what {
                        0 => {
                            let _ = w.add_resource("file:///w/new.txt".into(), info("n")).await;
                        },
                        1 => {
                            let _ = w.remove_resource("file:///w/none.txt").await;
                        },
                        2 => {
                            let _ = w.get_resources().await;
                        },
                        _ => sleep(Duration::from_millis(450)).await,
                    }
                }
                // nothing more comes
                let more = tokio::time::timeout(Duration::from_secs(2), rx.recv()).await.ok().flatten();
                (got, more.is_some())
            });
            let r = reader.await.expect("reader");
            w.lock().await.stop().await;
            r
        });
        match r {
            None => deadlock(&mut o, &format!("{changed} changes, a channel of {capacity}, consumer {what}")),
            Some((got, more)) => {
                let want: Vec<String> = sorted((0..changed).map(uri).collect());
                expect_eq(&mut o, "announced", format!("{changed} changes, channel {capacity}, consumer {what}"), (sorted(got), more), (want, false));
            },
        }
        o
    });
    let cases: Vec<(usize, usize, u64)> = [1usize, 99, 100, 101, 500, 900].iter().flat_map(|&n| [(n, 1usize, 0u64), (n, 1, 3), (n, 100, 0), (n, 100, 3)]).collect();
    for_all(ctx, "bursts of changes, slow consumers", cases, |&(n, capacity, pause)| {
        let mut o = Outcome { transitions: n as u64, ..Default::default() };
        notify::mc::reset();
        let done = seq(async {
            let (tx, mut rx) = mpsc::channel(capacity);
            let mut w = config(2, Duration::from_millis(100), tx);
            let name = |i: usize| format!("/w/f{i:04}.txt");
            for i in 0..n {
                let u = format!("file://{}", name(i));
                let _ = w.add_resource(u.clone(), info(&u)).await;
            }
            w.start().await.expect("start");
            settle().await;
            for i in 0..n {
                notify::mc::emit(notify::Event::new(EventKind::Modify(ModifyKind::Any)).add_path(name(i).into()));
            }
            let mut got = vec![];
            while let Ok(Some(ServerNotification::ResourceUpdated(p))) = tokio::time::timeout(Duration::from_secs(5), rx.recv()).await {
                got.push(p.uri);
                sleep(Duration::from_millis(pause)).await;
            }
            let want: Vec<String> = (0..n).map(|i| format!("file://{}", name(i))).collect();
            if sorted(got.clone()) != want {
                o.fail("burst", format!("{n} changes, channel {capacity}: {} announcements", got.len()));
            }
            w.stop().await;
        });
        if done.is_none() {
            o.fail("stuck", format!("{n} changes"));
        }
        o
    });
}

/// The model of the file system's events, held against the real one.
fn real(ctx: &Ctx) {
    // (name, steps); each step touches some files
    let hist: Vec<Vec<usize>> = sequences_upto(5, ctx.by(1, 2)).into_iter().collect();
    for_all(ctx, "changes to real files", hist, |s| {
        let mut o = Outcome { transitions: s.len() as u64, ..Default::default() };
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let dir = std::env::temp_dir().join(format!("mc-c36-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        let sub = dir.join("d");
        if std::fs::create_dir_all(sub.join(".git")).is_err() {
            return o;
        }
        let p = |k: usize| [dir.join("a.txt"), sub.join("b.txt"), dir.join("c.txt"), sub.join(".git/x.txt"), dir.join("m.bin")][k].clone();
        for k in [0, 1, 3, 4] {
            let _ = std::fs::write(p(k), "0");
        }
        notify::mc::set_real(true);
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        rt.block_on(async {
            let (tx, mut rx) = mpsc::channel(100);
            let mut w = ResourceWatcherBuilder::new().base_dir(&dir).debounce(Duration::from_millis(50)).pattern("**/*.txt").build(tx).expect("watcher");
            for k in 0..5 {
                let u = format!("file://{}", p(k).display());
                let _ = w.add_resource(u.clone(), info(&u)).await;
            }
            w.start().await.expect("start");
            sleep(Duration::from_millis(300)).await;
            let mut want = std::collections::BTreeSet::new();
            for &x in s {
                match x {
                    // write, remove, create by renaming, write what is ignored, read
                    0 => {
                        let _ = std::fs::write(p(0), "1");
                        want.insert(0);
                    },
                    1 => {
                        if std::fs::remove_file(p(1)).is_ok() {
                            want.insert(1);
                        }
                    },
                    2 => {
                        if std::fs::rename(p(0), p(2)).is_ok() {
                            want.extend([0, 2]);
                        }
                    },
                    3 => {
                        let _ = std::fs::write(p(3), "1");
                        let _ = std::fs::write(p(4), "1");
                    },
                    _ => {
                        let _ = std::fs::read(p(1));
                    },
                }
                sleep(Duration::from_millis(20)).await;
            }
            let mut got = std::collections::BTreeSet::new();
            let mut wait = 10_000;
            loop {
                if want.is_subset(&got) {
                    wait = 400;
                }
                match tokio::time::timeout(Duration::from_millis(wait), rx.recv()).await {
                    Ok(Some(ServerNotification::ResourceUpdated(n))) => {
                        got.extend((0..5).find(|&k| n.uri == format!("file://{}", p(k).display())));
                    },
                    _ => break,
                }
            }
            expect_eq(&mut o, "real", format!("{s:?}"), got, want);
            w.stop().await;
        });
        notify::mc::set_real(false);
        let _ = std::fs::remove_dir_all(&dir);
        o
    });
}
