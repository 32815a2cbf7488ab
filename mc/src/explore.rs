//! Stateless exhaustive exploration by re-execution.
//!
//! An execution asks a `Chooser` to resolve every nondeterministic choice.  The
//! explorer enumerates all choice sequences: `choose` alternatives are free
//! (all explored), `deviate` alternatives other than 0 each cost one unit of a
//! deviation budget (preemptions, non-FIFO task picks, injected faults).

use crate::ctx::Ctx;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashSet;
use std::io::{BufRead, Write};
use std::os::fd::AsRawFd;
use std::os::unix::net::UnixStream;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug)]
struct Point {
    n: u32,
    chosen: u32,
    /// 0: free choice.  1: any alternative but 0 costs one deviation.
    cost: u8,
}

#[derive(Default)]
pub struct ChooserInner {
    prefix: Vec<u32>,
    pos: usize,
    points: Vec<Point>,
    budget: u32,
    used: u32,
    diverged: bool,
    max_points: usize,
    overflow: bool,
}

impl ChooserInner {
    pub fn new(prefix: Vec<u32>, budget: u32, max_points: usize) -> Self {
        ChooserInner { prefix, budget, max_points, ..Default::default() }
    }
    pub fn pick(&mut self, n: u32, cost: u8) -> u32 {
        if n <= 1 {
            return 0;
        }
        if self.points.len() >= self.max_points {
            self.overflow = true;
            return 0;
        }
        // A costed point with no budget left is forced; it is not recorded, so
        // replaying a prefix must apply the same rule (it does: `used` is replayed).
        if cost > 0 && self.used >= self.budget {
            return 0;
        }
        let c = if self.pos < self.prefix.len() {
            let c = self.prefix[self.pos];
            if c >= n {
                self.diverged = true;
                n - 1
            } else {
                c
            }
        } else {
            0
        };
        self.pos += 1;
        self.points.push(Point { n, chosen: c, cost });
        if cost > 0 && c > 0 {
            self.used += 1;
        }
        c
    }
}

/// Handle given to single-threaded executions.
#[derive(Clone)]
pub struct Chooser(pub Rc<RefCell<ChooserInner>>);

impl Chooser {
    /// Free choice: every alternative is explored.
    pub fn choose(&self, n: usize) -> usize {
        self.0.borrow_mut().pick(n as u32, 0) as usize
    }
    /// Default 0; other alternatives cost one deviation.
    pub fn deviate(&self, n: usize) -> usize {
        self.0.borrow_mut().pick(n as u32, 1) as usize
    }
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// Observed outcome (counted for vacuity), e.g. the visible trace.
    pub observed: String,
    /// Violations found: (key, detail).
    pub fails: Vec<(String, String)>,
    pub transitions: u64,
}

impl Outcome {
    pub fn fail(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        self.fails.push((key.into(), detail.into()));
    }
}

pub struct Bounds {
    pub deviations: u32,
    pub max_points: usize,
    pub max_execs: u64,
    pub max_secs: u64,
    pub workers: usize,
}

impl Bounds {
    pub fn dev(d: u32) -> Self {
        Bounds { deviations: d, max_points: 4000, max_execs: 60_000_000, max_secs: 240, workers: 8 }
    }
    pub fn secs(mut self, s: u64) -> Self {
        self.max_secs = s;
        self
    }
}

pub struct Report {
    pub execs: u64,
    pub points: u64,
    pub complete: bool,
    pub diverged: u64,
    pub max_len: usize,
}

/// Run one execution with a choice prefix; returns its outcome and the points.
fn one<F>(f: &F, prefix: &[u32], b: &Bounds) -> (Outcome, Vec<Point>, bool, bool)
where
    F: Fn(Exec) -> Outcome + Sync,
{
    let inner = ChooserInner::new(prefix.to_vec(), b.deviations, b.max_points);
    // A fresh thread per execution: thread-local state (hash keys, RNG, clock)
    // is then a function of the execution alone.
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn_scoped(s, move || {
                crate::vm::seed_rng(0x5eed_0001);
                let slot = std::sync::Arc::new(Mutex::new(inner));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(Exec { slot: slot.clone() })));
                crate::vm::leave_clock();
                mchook::set_async(None);
                mchook::set_threads(None);
                let out = match r {
                    Ok(o) => o,
                    Err(e) => {
                        let mut o = Outcome::default();
                        o.observed = "panic".into();
                        o.fail("panic", format!("the code under test panicked: {}", panic_msg(&e)));
                        o
                    }
                };
                let mut g = slot.lock().unwrap_or_else(|p| p.into_inner());
                (out, std::mem::take(&mut g.points), g.diverged, g.overflow)
            })
            .expect("spawn")
            .join()
            .expect("execution thread")
    })
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "<panic>".into()
    }
}

/// One execution's access to its choices.
pub struct Exec {
    pub slot: std::sync::Arc<Mutex<ChooserInner>>,
}

impl Exec {
    pub fn choose(&self, n: usize) -> usize {
        self.slot.lock().unwrap().pick(n as u32, 0) as usize
    }
    pub fn deviate(&self, n: usize) -> usize {
        self.slot.lock().unwrap().pick(n as u32, 1) as usize
    }
    pub fn clone_handle(&self) -> Exec {
        Exec { slot: self.slot.clone() }
    }
}

fn pin(k: usize) {
    // SAFETY: plain affinity calls on a local set
    unsafe {
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut have) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &have)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut want: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[k % cpus.len()], &mut want);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &want);
    }
}

/// Explore the subtrees under `prefixes`, depth first, at most `n` executions;
/// report what happened and which prefixes are left.
fn explore_some<F>(f: &F, b: &Bounds, scenario: &str, job: &Value, sent: &mut HashSet<u64>) -> Value
where
    F: Fn(Exec) -> Outcome + Sync,
{
    let mut stack: Vec<Vec<u32>> = job["p"].as_array().map(|a| a.iter().map(unpack).collect()).unwrap_or_default();
    let n = job["n"].as_u64().unwrap_or(1);
    let mut known: HashSet<String> = job["known"].as_array().map(|a| a.iter().filter_map(|k| k.as_str().map(String::from)).collect()).unwrap_or_default();
    let t0 = std::time::Instant::now();
    let (mut execs, mut points, mut trans, mut diverged, mut maxlen, mut over_any) = (0u64, 0u64, 0u64, 0u64, 0usize, false);
    let mut outs: Vec<u64> = vec![];
    let mut fails: Vec<Value> = vec![];
    let mut flaky: Vec<String> = vec![];
    let mut sample = Value::Null;
    while execs < n && (execs == 0 || t0.elapsed().as_millis() < 400) {
        let Some(prefix) = stack.pop() else { break };
        let (o, pts, div, over) = one(f, &prefix, b);
        execs += 1;
        points += pts.len() as u64;
        trans += o.transitions.max(pts.len() as u64);
        maxlen = maxlen.max(pts.len());
        diverged += u64::from(div);
        over_any |= over;
        let h = Ctx::hash(&format!("{scenario}|{}", o.observed));
        if sent.insert(h) {
            outs.push(h);
        }
        let choices: Vec<u32> = pts.iter().map(|p| p.chosen).collect();
        if execs == 1 {
            sample = json!({"scenario": scenario, "choices": choices, "observed": trunc(&o.observed)});
        }
        for (k, d) in &o.fails {
            if known.contains(k) {
                continue;
            }
            // Trust a failure only if the same schedule fails again.
            let (o2, _, _, _) = one(f, &choices, b);
            if o2.fails.iter().any(|(k2, _)| k2 == k) {
                known.insert(k.clone());
                fails.push(json!([k, d, choices]));
            } else {
                flaky.push(k.clone());
            }
        }
        // children: alternatives at every point after the prefix
        let mut used = 0u32;
        for (i, p) in pts.iter().enumerate() {
            if i >= prefix.len() && !div && (p.cost == 0 || used < b.deviations) {
                for alt in (p.chosen + 1)..p.n {
                    let mut c: Vec<u32> = choices[..i].to_vec();
                    c.push(alt);
                    stack.push(c);
                }
            }
            if p.cost > 0 && p.chosen > 0 {
                used += 1;
            }
        }
    }
    json!({"left": stack.iter().map(|p| pack(p)).collect::<Vec<_>>(), "execs": execs, "points": points, "trans": trans, "div": diverged,
           "maxlen": maxlen, "over": over_any, "outs": outs, "fails": fails, "flaky": flaky, "sample": sample})
}

fn pack(p: &[u32]) -> String {
    p.iter().map(u32::to_string).collect::<Vec<_>>().join(",")
}
fn unpack(v: &Value) -> Vec<u32> {
    v.as_str().unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap_or(0)).collect()
}

struct Worker {
    pid: libc::pid_t,
    io: std::io::BufReader<UnixStream>,
    job: Option<(Vec<Vec<u32>>, std::time::Instant)>,
}

impl Worker {
    /// A forked copy of this process, pinned to one core: thread creation and
    /// hand-over between the threads of an execution stay cheap.
    fn start<F>(k: usize, f: &F, b: &Bounds, scenario: &str) -> Worker
    where
        F: Fn(Exec) -> Outcome + Sync,
    {
        let (ours, theirs) = UnixStream::pair().expect("socketpair");
        // SAFETY: no other thread of this process is alive here
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            drop(ours);
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                // the parent reports the death of a worker
                for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
                    libc::signal(s, libc::SIG_DFL);
                }
            }
            pin(k);
            let mut out = theirs.try_clone().expect("clone");
            let mut sent = HashSet::new();
            let mut lines = std::io::BufReader::new(theirs).lines();
            while let Some(Ok(l)) = lines.next() {
                let job: Value = serde_json::from_str(&l).unwrap_or(Value::Null);
                let mut r = explore_some(f, b, scenario, &job, &mut sent).to_string();
                r.push('\n');
                if out.write_all(r.as_bytes()).is_err() {
                    break;
                }
            }
            unsafe { libc::_exit(0) }
        }
        Worker { pid, io: std::io::BufReader::new(ours), job: None }
    }
    fn stop(&self) {
        unsafe {
            libc::kill(self.pid, libc::SIGKILL);
            libc::waitpid(self.pid, std::ptr::null_mut(), 0);
        }
    }
}

/// Explore every choice sequence of `f` within bounds.
pub fn explore<F>(ctx: &Ctx, scenario: &str, b: Bounds, f: F) -> Report
where
    F: Fn(Exec) -> Outcome + Sync,
{
    if let Some(r) = replay_request(ctx, scenario) {
        let (o, pts, div, _) = one(&f, &r, &b);
        println!("replay {scenario}: choices={:?} diverged={div}", pts.iter().map(|p| p.chosen).collect::<Vec<_>>());
        println!("observed: {}", o.observed);
        for (k, d) in &o.fails {
            println!("fail key={k}: {d}");
            ctx.violation(k, d.clone(), json!({"scenario": scenario, "choices": r}));
        }
        return Report { execs: 1, points: pts.len() as u64, complete: true, diverged: 0, max_len: pts.len() };
    }
    if ctx.replaying {
        return Report { execs: 0, points: 0, complete: true, diverged: 0, max_len: 0 };
    }
    let t0 = std::time::Instant::now();
    let mut stack: Vec<Vec<u32>> = vec![vec![]];
    let (mut execs, mut points, mut diverged, mut maxlen, mut chunks) = (0u64, 0u64, 0u64, 0usize, 0u64);
    let mut cap: Option<String> = None;
    let mut stopping = false;
    let mut workers: Vec<Worker> = vec![];
    loop {
        // hand out work
        if !stopping {
            for k in 0..b.workers {
                if stack.is_empty() {
                    break;
                }
                if k == workers.len() {
                    workers.push(Worker::start(k, &f, &b, scenario));
                }
                let w = &mut workers[k];
                if w.job.is_some() {
                    continue;
                }
                let many = stack.len() > 8 * b.workers;
                let take = if many { (stack.len() / (4 * b.workers)).clamp(1, 32) } else { 1 };
                let p = stack.split_off(stack.len() - take);
                let job = json!({"p": p.iter().map(|p| pack(p)).collect::<Vec<_>>(), "n": if many { 200 } else if execs < 64 { 2 } else { 24 }, "known": ctx.keys()});
                let mut line = job.to_string();
                line.push('\n');
                let _ = w.io.get_mut().write_all(line.as_bytes());
                w.job = Some((p, std::time::Instant::now()));
            }
        }
        if workers.iter().all(|w| w.job.is_none()) {
            break;
        }
        let mut fds: Vec<libc::pollfd> = workers.iter().map(|w| libc::pollfd { fd: if w.job.is_some() { w.io.get_ref().as_raw_fd() } else { -1 }, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as libc::nfds_t, 1000) };
        for (k, fd) in fds.iter().enumerate() {
            if fd.revents == 0 {
                let w = &mut workers[k];
                if w.job.as_ref().is_some_and(|j| j.1.elapsed().as_secs() > 200) {
                    let (p, _) = w.job.take().unwrap();
                    w.stop();
                    ctx.violation("hang", format!("[{scenario}] executions starting with {:?} do not end", p.last()), json!({"scenario": scenario, "choices": p.last()}));
                    *w = Worker::start(k, &f, &b, scenario);
                }
                continue;
            }
            let mut line = String::new();
            let n = workers[k].io.read_line(&mut line).unwrap_or(0);
            let (p, _) = workers[k].job.take().unwrap();
            if n == 0 || !line.ends_with('\n') {
                workers[k].stop();
                ctx.violation("crash", format!("[{scenario}] the process running executions that start with {:?} died", p.last()), json!({"scenario": scenario, "choices": p.last()}));
                workers[k] = Worker::start(k, &f, &b, scenario);
                continue;
            }
            let r: Value = serde_json::from_str(&line).expect("worker report");
            let num = |k: &str| r[k].as_u64().unwrap_or(0);
            stack.extend(r["left"].as_array().into_iter().flatten().map(unpack));
            execs += num("execs");
            points += num("points");
            diverged += num("div");
            maxlen = maxlen.max(num("maxlen") as usize);
            ctx.add_executions(num("execs"));
            ctx.add_transitions(num("trans"));
            for h in r["outs"].as_array().into_iter().flatten() {
                ctx.outcome_hash(h.as_u64().unwrap_or(0));
            }
            for v in r["fails"].as_array().into_iter().flatten() {
                let key = v[0].as_str().unwrap_or("");
                if !ctx.has_violation(key) {
                    ctx.violation(key, format!("[{scenario}] {}", v[1].as_str().unwrap_or("")), json!({"scenario": scenario, "choices": v[2]}));
                }
            }
            for v in r["flaky"].as_array().into_iter().flatten() {
                ctx.cap(&format!("{scenario}: a failure ({}) did not replay and was discarded", v.as_str().unwrap_or("")));
            }
            if r["over"] == true {
                cap = Some(format!("{scenario}: execution longer than {} choice points", b.max_points));
            }
            chunks += 1;
            if chunks == 1 || chunks == 20 || chunks == 200 {
                ctx.sample(r["sample"].clone());
            }
        }
        if !stopping && (execs >= b.max_execs || t0.elapsed().as_secs() >= b.max_secs || ctx.stopped()) {
            stopping = true;
        }
    }
    if stopping && !stack.is_empty() {
        cap = Some(format!("{scenario}: stopped after {execs} executions / {}s with {} prefixes unexplored", t0.elapsed().as_secs(), stack.len()));
    }
    for w in &workers {
        w.stop();
    }
    if let Some(c) = &cap {
        ctx.cap(c);
    }
    let r = Report { execs, points, complete: cap.is_none(), diverged, max_len: maxlen };
    ctx.add_states(r.points + r.execs);
    ctx.section(
        scenario,
        json!({"executions": r.execs, "choice_points": r.points, "deviation_bound": b.deviations,
               "complete": r.complete, "diverged": r.diverged, "longest_choice_sequence": r.max_len,
               "wall_s": t0.elapsed().as_secs_f64()}),
    );
    r
}

pub fn trunc(s: &str) -> String {
    if s.len() > 600 {
        let mut e = 600;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…", &s[..e])
    } else {
        s.to_string()
    }
}

thread_local! {
    static REPLAY: RefCell<Option<Value>> = const { RefCell::new(None) };
}
pub fn set_replay(v: Value) {
    REPLAY.with(|r| *r.borrow_mut() = Some(v));
}
fn replay_request(ctx: &Ctx, scenario: &str) -> Option<Vec<u32>> {
    if !ctx.replaying {
        return None;
    }
    REPLAY.with(|r| {
        let r = r.borrow();
        let v = r.as_ref()?;
        if v["scenario"].as_str()? != scenario {
            return None;
        }
        Some(v["choices"].as_array()?.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect())
    })
}

/// The case a thread of `for_all` is at.
struct Running<T> {
    since: std::time::Instant,
    case: *const T,
}
// SAFETY: the pointer is only followed while the thread that owns the case
// runs it, and `T` is only formatted.
unsafe impl<T> Send for Running<T> {}

/// Ends the check with a violation when a case does not end, or eats memory.
fn watch<T: std::fmt::Debug>(ctx: &Ctx, scenario: &str, slots: &[Mutex<Option<Running<T>>>], active: &AtomicU64) {
    let mut ticks = 0u64;
    while active.load(Ordering::Relaxed) > 0 {
        std::thread::sleep(std::time::Duration::from_millis(if ticks < 50 { 2 } else { 50 }));
        ticks += 1;
        let pages: u64 = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse().ok()).unwrap_or(0);
        let full = pages * 4096 > 16 << 30;
        let mut oldest: Option<(std::time::Instant, String)> = None;
        for s in slots {
            if let Some(r) = &*s.lock().unwrap() {
                let secs = r.since.elapsed().as_secs();
                if (full || secs >= 150) && oldest.as_ref().is_none_or(|o| r.since < o.0) {
                    // SAFETY: the slot is emptied, under this lock, before the case goes away
                    oldest = Some((r.since, format!("{:?}", unsafe { &*r.case })));
                }
            }
        }
        if let Some((t, case)) = oldest {
            let why = if full { "uses up memory" } else { "does not end" };
            ctx.violation("hang", format!("[{scenario}] case {}: {why} (running for {:?})", trunc(&case), t.elapsed()), json!({"scenario": scenario, "case": case}));
            std::process::exit(if ctx.replaying { 1 } else { ctx.finish(ctx.level.get().map_or("model_checking", |s| s)) });
        }
    }
}

/// Exhaustive check of a finite list of cases, in parallel.  `f` returns
/// (observed, Option<(key, detail)>).
pub fn for_all<T, I, F>(ctx: &Ctx, scenario: &str, cases: I, f: F) -> u64
where
    T: Send + std::fmt::Debug,
    I: IntoIterator<Item = T>,
    I::IntoIter: Send,
    F: Fn(&T) -> Outcome + Sync,
{
    let cases = cases.into_iter();
    let want: Option<String> = if ctx.replaying {
        let w = REPLAY.with(|r| {
            r.borrow().as_ref().and_then(|v| {
                if v["scenario"].as_str() == Some(scenario) {
                    v["case"].as_str().map(String::from)
                } else {
                    None
                }
            })
        });
        if w.is_none() {
            return 0;
        }
        w
    } else {
        None
    };
    let it = Mutex::new(cases);
    let n = AtomicU64::new(0);
    let t0 = std::time::Instant::now();
    let slots: Vec<Mutex<Option<Running<T>>>> = (0..8).map(|_| Mutex::new(None)).collect();
    let active = AtomicU64::new(8);
    std::thread::scope(|s| {
        let (slots, active) = (&slots, &active);
        s.spawn(move || watch(ctx, scenario, slots, active));
        for slot in slots {
            let want = want.clone();
            let (it, n, f) = (&it, &n, &f);
            let scenario = scenario.to_string();
            s.spawn(move || loop {
                let batch: Vec<T> = {
                    let mut g = it.lock().unwrap();
                    g.by_ref().take(64).collect()
                };
                if batch.is_empty() || ctx.stopped() {
                    active.fetch_sub(1, Ordering::Relaxed);
                    return;
                }
                let mut trans = 0;
                for c in &batch {
                    if ctx.stopped() {
                        break;
                    }
                    if let Some(w) = &want {
                        if *w != format!("{c:?}") {
                            continue;
                        }
                    }
                    let k = n.fetch_add(1, Ordering::Relaxed);
                    *slot.lock().unwrap() = Some(Running { since: std::time::Instant::now(), case: c });
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(c)));
                    *slot.lock().unwrap() = None;
                    let o = match r {
                        Ok(o) => o,
                        Err(e) => {
                            let mut o = Outcome::default();
                            o.fail("panic", format!("panicked: {}", panic_msg(&e)));
                            o
                        }
                    };
                    trans += o.transitions.max(1);
                    ctx.outcome(&format!("{scenario}|{}", o.observed));
                    if k < 2 || k == 1000 || k == 20000 {
                        ctx.sample(json!({"scenario": scenario, "case": trunc(&format!("{c:?}")), "observed": trunc(&o.observed)}));
                    }
                    if want.is_some() {
                        println!("replay case {c:?}\nobserved {}", o.observed);
                    }
                    for (key, d) in o.fails {
                        if ctx.has_violation(&key) {
                            continue;
                        }
                        ctx.violation(&key, format!("[{scenario}] case {}: {d}", trunc(&format!("{c:?}"))), json!({"scenario": scenario, "case": format!("{c:?}")}));
                    }
                }
                ctx.add_transitions(trans);
            });
        }
    });
    let k = n.load(Ordering::Relaxed);
    ctx.add_executions(k);
    ctx.add_states(k);
    ctx.section(scenario, json!({"cases": k, "complete": !ctx.stopped(), "wall_s": t0.elapsed().as_secs_f64()}));
    k
}

/// All sequences over `0..k` of length exactly `len`.
pub fn sequences(k: usize, len: usize) -> impl Iterator<Item = Vec<usize>> + Send {
    let total = (k as u64).checked_pow(len as u32).expect("space too large");
    (0..total).map(move |mut i| {
        let mut v = Vec::with_capacity(len);
        for _ in 0..len {
            v.push((i % k as u64) as usize);
            i /= k as u64;
        }
        v
    })
}

/// All sequences of length 0..=len (shortest first).
pub fn sequences_upto(k: usize, len: usize) -> impl Iterator<Item = Vec<usize>> + Send {
    (0..=len).flat_map(move |l| sequences(k, l))
}
