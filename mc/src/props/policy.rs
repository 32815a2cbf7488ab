//! C23 reconnection policy, C24 recovery strategies and circuit breaker.
use super::util::*;
use crate::aengine::{deadlock, run_async};
use crate::ctx::Ctx;
use crate::explore::*;
use crate::vm;
use futures::executor::block_on;
use pmcp::error::recovery::{with_retry, CircuitBreaker, CircuitBreakerConfig, FallbackHandler, RecoveryExecutor, RecoveryPolicy, RecoveryStrategy};
use pmcp::shared::reconnect::{ConnectionState, ReconnectCallbacks, ReconnectConfig, ReconnectGuard, ReconnectManager};
use pmcp::{Error, ErrorCode};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;
use tokio::time::Instant;

fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}

/// Keep the virtual std clock in step with tokio's.
fn sync_clocks(clock: &Arc<vm::Clock>, step: u64) -> tokio::task::JoinHandle<()> {
    let c = clock.clone();
    tokio::spawn(async move {
        let mut t = tokio::time::interval(ms(step));
        t.tick().await;
        loop {
            t.tick().await;
            c.advance(ms(step));
        }
    })
}

// ------------------------------------------------------------------ C23

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum R {
    TryOk,
    TryFail,
    Lost,
    Adv(u64),
    Reset,
    Toggle,
}

#[derive(Clone, Debug)]
struct RC {
    max: Option<u32>,
    threshold: Option<u32>,
    reset: bool,
    growth: f64,
}
const TIMEOUT: u64 = 100;
const LONG: u64 = 60;
const INIT: u64 = 20;
const MAXD: u64 = 90;
impl RC {
    fn build(&self, jitter: f64) -> ReconnectConfig {
        ReconnectConfig {
            initial_delay: ms(INIT),
            max_delay: ms(MAXD),
            growth_factor: self.growth,
            max_retries: self.max,
            jitter_factor: jitter,
            reset_on_success: self.reset,
            success_threshold: ms(LONG),
            circuit_breaker_threshold: self.threshold,
            circuit_breaker_timeout: ms(TIMEOUT),
        }
    }
    fn delay(&self, retries: u32) -> f64 {
        (INIT as f64 * self.growth.powi(retries as i32)).min(MAXD as f64)
    }
}

/// The reconnection policy as the documentation describes it.
#[derive(Clone, Debug)]
struct RM {
    c: RC,
    state: ConnectionState,
    retries: u32,
    failures: u32,
    attempts: u64,
    successes: u64,
    opened: u64,
    connected: u64,
    enabled: bool,
    cb: Vec<String>,
}
impl RM {
    fn new(c: RC) -> Self {
        RM { c, state: ConnectionState::Disconnected, retries: 0, failures: 0, attempts: 0, successes: 0, opened: 0, connected: 0, enabled: true, cb: vec![] }
    }
    fn should(&mut self, now: u64) -> bool {
        if !self.enabled || matches!(self.state, ConnectionState::Connected | ConnectionState::Connecting) {
            return false;
        }
        if self.state == ConnectionState::CircuitOpen {
            if now < self.opened + TIMEOUT {
                return false;
            }
            self.state = ConnectionState::Disconnected;
            self.cb.push("close".into());
        }
        self.c.max.is_none_or(|m| self.retries < m)
    }
    fn connecting(&mut self) {
        self.attempts += 1;
        self.state = ConnectionState::Connecting;
        self.cb.push(format!("connecting{}", self.retries));
    }
    fn ok(&mut self, now: u64) {
        self.successes += 1;
        self.failures = 0;
        if self.c.reset {
            self.retries = 0;
        }
        self.connected = now;
        self.state = ConnectionState::Connected;
        self.cb.push("connected".into());
    }
    fn fail(&mut self, now: u64) {
        self.retries += 1;
        self.failures += 1;
        self.state = ConnectionState::WaitingRetry;
        if self.c.threshold.is_some_and(|t| self.failures >= t) {
            self.state = ConnectionState::CircuitOpen;
            self.opened = now;
            self.cb.push("open".into());
        }
        self.cb.push("failed".into());
    }
    fn lost(&mut self, now: u64) {
        if self.state == ConnectionState::Connected && now >= self.connected + LONG {
            self.retries = 0;
        }
        if self.state != ConnectionState::CircuitOpen {
            self.state = ConnectionState::Disconnected;
        }
    }
    fn stats(&self) -> (u64, u64, u32, u32) {
        (self.attempts, self.successes, self.retries, self.failures)
    }
}

fn callbacks(log: &Log<String>) -> ReconnectCallbacks {
    let l: Vec<Log<String>> = (0..5).map(|_| log.clone()).collect();
    let [a, b, c, d, e]: [Log<String>; 5] = l.try_into().ok().unwrap();
    ReconnectCallbacks {
        on_connecting: Some(Box::new(move |n| a.push(format!("connecting{n}")))),
        on_connected: Some(Box::new(move || b.push("connected".into()))),
        on_failed: Some(Box::new(move |_| c.push("failed".into()))),
        on_circuit_open: Some(Box::new(move || d.push("open".into()))),
        on_circuit_close: Some(Box::new(move || e.push("close".into()))),
    }
}

fn stats_of(m: &ReconnectManager) -> (u64, u64, u32, u32) {
    let s = m.stats();
    (s.total_attempts, s.total_successes, s.current_retry_count, s.consecutive_failures)
}

pub fn c23(ctx: &Ctx) {
    ctx.assume("the delay before retry n is initial_delay * growth_factor^n (n = failures counted so far), capped by max_delay, plus or minus the jitter fraction");
    ctx.assume("one reconnection loop at a time per manager");
    let mut configs = vec![];
    for max in [None, Some(0), Some(1), Some(3)] {
        for threshold in [None, Some(1), Some(2), Some(3)] {
            for reset in [true, false] {
                configs.push(RC { max, threshold, reset, growth: 2.0 });
            }
        }
    }
    let alpha = [R::TryOk, R::TryFail, R::Lost, R::Adv(50), R::Adv(110), R::Reset, R::Toggle];
    let depth = ctx.by(6, 7);
    let cfg = configs.clone();
    let cases = cfg.into_iter().flat_map(move |c| sequences(alpha.len(), depth).map(move |q| (c.clone(), q.into_iter().map(|i| alpha[i]).collect::<Vec<_>>())));
    for_all(ctx, &format!("policy histories of {depth} operations"), cases, |(c, ops)| {
        let mut o = Outcome::default();
        let clock = vm::Clock::new();
        vm::join_clock(&clock);
        let mut mgr = ReconnectManager::new(c.build(0.0));
        let log = Log::new();
        mgr.set_callbacks(callbacks(&log));
        let mut m = RM::new(c.clone());
        let err = Error::internal("down");
        for (k, op) in ops.iter().enumerate() {
            o.transitions += 1;
            let now = clock.now().as_millis() as u64;
            let what = || format!("{c:?} {:?}", &ops[..=k]);
            match op {
                R::TryOk | R::TryFail => {
                    let want = m.should(now);
                    let got = block_on(mgr.should_reconnect());
                    if !expect_eq(&mut o, "should-reconnect", what(), got, want) {
                        break;
                    }
                    if want {
                        m.connecting();
                        block_on(mgr.on_connecting());
                        expect_eq(&mut o, "state", what(), block_on(mgr.state()), ConnectionState::Connecting);
                        let again = block_on(mgr.should_reconnect());
                        expect_eq(&mut o, "second-attempt", what(), again, false);
                        clock.advance(ms(5));
                        let now = clock.now().as_millis() as u64;
                        if *op == R::TryOk {
                            m.ok(now);
                            block_on(mgr.on_connected());
                        } else {
                            m.fail(now);
                            block_on(mgr.on_connection_failed(&err));
                        }
                    }
                },
                R::Lost => {
                    m.lost(now);
                    block_on(mgr.on_disconnected());
                },
                R::Adv(n) => clock.advance(ms(*n)),
                R::Reset => {
                    m.retries = 0;
                    m.failures = 0;
                    mgr.reset();
                },
                R::Toggle => {
                    m.enabled = !m.enabled;
                    mgr.set_enabled(m.enabled);
                },
            }
            let ok = expect_eq(&mut o, "state", what(), block_on(mgr.state()), m.state)
                & expect_eq(&mut o, "stats", what(), stats_of(&mgr), m.stats())
                & expect_eq(&mut o, "delay", what(), mgr.calculate_delay().as_micros(), (c.delay(m.retries) * 1000.0).round() as u128);
            if !ok {
                break;
            }
        }
        let (mut got, mut want) = (log.get(), m.cb.clone());
        if ops.contains(&R::Reset) {
            // which attempt number a callback is told after a reset is left open
            for v in [&mut got, &mut want] {
                v.iter_mut().for_each(|s| {
                    if s.starts_with("connecting") {
                        *s = "connecting".into();
                    }
                });
            }
        }
        expect_eq(&mut o, "callbacks", format!("{c:?} {ops:?}"), sorted(got), sorted(want));
        vm::leave_clock();
        o.observed = format!("{:?}{:?}", m.state, m.stats());
        o
    });

    // jitter, at both ends of its range, for many growth factors
    let mut jc = vec![];
    for jitter in [0.0, 0.1, 0.5, 1.0] {
        for growth in [1.0, 1.5, 2.0, 10.0, 0.5] {
            for frac in [0u64, 1, 250, 500, 750, 999] {
                for retries in [0u32, 1, 2, 3, 7, 40, 2000, u32::MAX - 1] {
                    jc.push((jitter, growth, frac, retries));
                }
            }
        }
    }
    for_all(ctx, "jittered delays", jc, |&(jitter, growth, frac, retries)| {
        let mut o = Outcome::default();
        let clock = vm::Clock::new();
        vm::join_clock(&clock);
        clock.advance(ms(frac) + Duration::from_nanos(if frac == 999 { 999_999 } else { 0 }));
        let c = RC { max: None, threshold: None, reset: true, growth };
        let mgr = ReconnectManager::new(c.build(jitter));
        let n = retries.min(2000);
        for _ in 0..n {
            block_on(mgr.on_connection_failed(&Error::internal("x")));
        }
        let base = c.delay(n);
        let got = mgr.calculate_delay().as_secs_f64() * 1000.0;
        let (lo, hi) = ((base * (1.0 - jitter)).max(0.0) - 0.001, (base * (1.0 + jitter)).min(MAXD as f64) + 0.001);
        o.observed = format!("{:.0}", got);
        if !(lo..=hi).contains(&got) {
            o.fail("jitter-range", format!("after {n} failures, growth {growth}, jitter {jitter}: waits {got} ms, allowed {lo:.3}..{hi:.3}"));
        }
        vm::leave_clock();
        o
    });

    // the reconnection loop: every outcome sequence
    let len = ctx.by(6, 8);
    let mut loops = vec![];
    for c in &configs {
        for growth in [2.0, 1.0] {
            loops.push(RC { growth, ..c.clone() });
        }
    }
    let cases = loops.into_iter().flat_map(move |c| (0..1u32 << len).flat_map(move |bits| {
        let c = c.clone();
        [0u64, 30].into_iter().map(move |d| (c.clone(), bits, d))
    }));
    for_all(ctx, &format!("reconnection loops, {len} scripted outcomes"), cases, |&(ref c, bits, dur)| {
        let mut o = Outcome::default();
        let clock = vm::Clock::new();
        vm::join_clock(&clock);
        let what = format!("{c:?} outcomes (1 = fails) {bits:0len$b} each {dur} ms");
        let r = seq(async {
            let tick = sync_clocks(&clock, 5);
            let t0 = Instant::now();
            let now = || t0.elapsed().as_millis() as u64;
            let mgr = ReconnectManager::new(c.build(0.0));
            let mut m = RM::new(c.clone());
            let script = Rc::new(RefCell::new((0..len).map(move |i| bits >> (len - 1 - i) & 1 == 1).collect::<Vec<_>>().into_iter()));
            let times: Rc<RefCell<Vec<u64>>> = Rc::default();
            let mut fails = vec![];
            let mut n_attempt = 0usize;
            let (mut model_script, mut want_times) = ((0..len).map(move |i| bits >> (len - 1 - i) & 1 == 1), vec![]);
            // two rounds: reconnect, (if connected) lose it, wait, reconnect
            for round in 0..2 {
                // what should happen
                let mut t = now();
                let want: Result<(), Option<usize>> = loop {
                    if !m.should(t) {
                        break Err(None);
                    }
                    m.connecting();
                    want_times.push(t);
                    t += dur;
                    let k = n_attempt;
                    n_attempt += 1;
                    if model_script.next().unwrap_or(false) {
                        m.fail(t);
                        if !m.should(t) {
                            break Err(Some(k));
                        }
                        t += c.delay(m.retries) as u64;
                    } else {
                        m.ok(t);
                        break Ok(());
                    }
                };
                let t2 = times.clone();
                let s2 = script.clone();
                let got = mgr
                    .reconnect_with(|| {
                        let (times, script) = (t2.clone(), s2.clone());
                        async move {
                            let k = times.borrow().len();
                            times.borrow_mut().push(t0.elapsed().as_millis() as u64);
                            tokio::time::sleep(ms(dur)).await;
                            let fails = script.borrow_mut().next().unwrap_or(false);
                            if fails {
                                Err(Error::internal(format!("attempt-{k}-failed")))
                            } else {
                                Ok(())
                            }
                        }
                    })
                    .await;
                let good = match (&got, &want) {
                    (Ok(()), Ok(())) | (Err(_), Err(None)) => true,
                    (Err(e), Err(Some(k))) => e.to_string().contains(&format!("attempt-{k}-failed")),
                    _ => false,
                };
                if !good {
                    fails.push(("result", format!("{what}: round {round} ended {got:?}, expected {want:?}")));
                }
                if *times.borrow() != want_times {
                    fails.push(("attempt-times", format!("{what}: attempts at {:?} ms, expected {want_times:?}", times.borrow())));
                }
                let st = mgr.state().await;
                if st != m.state {
                    fails.push(("state", format!("{what}: round {round}: state {st:?}, expected {:?}", m.state)));
                }
                if stats_of(&mgr) != m.stats() {
                    fails.push(("stats", format!("{what}: round {round}: {:?}, expected {:?}", stats_of(&mgr), m.stats())));
                }
                if !fails.is_empty() {
                    break;
                }
                if round == 0 {
                    // t differs from the exact ticks by less than a step
                    tokio::time::sleep(ms(if bits & 1 == 0 { 31 } else { 131 })).await;
                    let g = now();
                    mgr.on_disconnected().await;
                    m.lost(g);
                }
            }
            tick.abort();
            let n = times.borrow().len();
            (fails, n, m.stats())
        });
        vm::leave_clock();
        match r {
            Some((fails, n, st)) => {
                o.transitions = n as u64;
                o.observed = format!("{n} {st:?}");
                for (k, d) in fails {
                    o.fail(k, d);
                }
            },
            None => deadlock(&mut o, &what),
        }
        o
    });

    // the guard reports the loss of its connection
    for_all(ctx, "guard", 0..2, |&held| {
        let mut o = Outcome::default();
        let clock = vm::Clock::new();
        vm::join_clock(&clock);
        let r = seq(async {
            let mgr = Arc::new(ReconnectManager::new(RC { max: None, threshold: Some(1), reset: true, growth: 2.0 }.build(0.0)));
            let g = ReconnectGuard::new(mgr.clone());
            mgr.on_connecting().await;
            if held == 0 {
                mgr.on_connected().await;
            } else {
                mgr.on_connection_failed(&Error::internal("x")).await;
            }
            drop(g);
            crate::aengine::settle().await;
            (mgr.state().await, mgr.should_reconnect().await)
        });
        vm::leave_clock();
        let want = if held == 0 { (ConnectionState::Disconnected, true) } else { (ConnectionState::CircuitOpen, false) };
        expect_eq(&mut o, "guard", format!("guard dropped, case {held}"), r, Some(want));
        o
    });
}

// ------------------------------------------------------------------ C24

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Allow,
    Succ,
    Fail,
    Adv(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Closed(u32),
    Open(u64),
    Half(u32),
}

#[derive(Clone, Debug)]
struct BM {
    ft: u32,
    st: u32,
    s: St,
    now: u64,
}
impl BM {
    fn apply(&mut self, op: &Op) -> Option<bool> {
        match op {
            Op::Allow => {
                if let St::Open(t) = self.s {
                    if self.now < t + TIMEOUT {
                        return Some(false);
                    }
                    self.s = St::Half(0);
                }
                return Some(true);
            },
            Op::Succ => match self.s {
                St::Closed(_) => self.s = St::Closed(0),
                St::Half(n) => self.s = if n + 1 >= self.st { St::Closed(0) } else { St::Half(n + 1) },
                St::Open(_) => {},
            },
            Op::Fail => match self.s {
                St::Closed(n) => self.s = if n + 1 >= self.ft { St::Open(self.now) } else { St::Closed(n + 1) },
                St::Half(_) | St::Open(_) => self.s = St::Open(self.now),
            },
            Op::Adv(n) => self.now += n,
        }
        None
    }
}

async fn apply_real(cb: &CircuitBreaker, clock: &vm::Clock, op: &Op) -> Option<bool> {
    match op {
        Op::Allow => return Some(cb.allow_request().await),
        Op::Succ => cb.record_success().await,
        Op::Fail => cb.record_failure().await,
        Op::Adv(n) => clock.advance(ms(*n)),
    }
    None
}

fn breaker(ft: u32, st: u32) -> CircuitBreaker {
    CircuitBreaker::new(CircuitBreakerConfig { failure_threshold: ft, success_threshold: st, timeout: ms(TIMEOUT) })
}

const A: ErrorCode = ErrorCode::INVALID_REQUEST;
const B: ErrorCode = ErrorCode::PARSE_ERROR;
const C: ErrorCode = ErrorCode::METHOD_NOT_FOUND;
const D: ErrorCode = ErrorCode::INVALID_PARAMS;
const X: ErrorCode = ErrorCode::REQUEST_TIMEOUT;
const CODES: [Option<ErrorCode>; 6] = [None, Some(A), Some(B), Some(C), Some(D), Some(X)];

#[derive(Clone, Debug)]
struct Pol {
    fixed: (u32, u64),
    exp: (u32, u64, u64, f64),
    cb: (u32, u32),
}
impl Pol {
    fn executor(&self, fb: &Log<usize>) -> RecoveryExecutor {
        let mut p = RecoveryPolicy::new(RecoveryStrategy::FailFast);
        p.add_strategy(A, RecoveryStrategy::RetryFixed { attempts: self.fixed.0, delay: ms(self.fixed.1) });
        p.add_strategy(B, RecoveryStrategy::RetryExponential { attempts: self.exp.0, initial_delay: ms(self.exp.1), max_delay: ms(self.exp.2), multiplier: self.exp.3 });
        p.add_strategy(C, RecoveryStrategy::Fallback);
        p.add_strategy(D, RecoveryStrategy::CircuitBreaker { failure_threshold: self.cb.0, success_threshold: self.cb.1, timeout: ms(TIMEOUT) });
        let mut e = RecoveryExecutor::new(p);
        let fb = fb.clone();
        e.register_handler(
            "op".into(),
            Arc::new(FallbackHandler::new(move || {
                fb.push(1);
                async { Ok(json!("fallback")) }
            })),
        );
        e
    }
    fn exp_delay(&self, k: u32) -> u64 {
        (self.exp.1 as f64 * self.exp.3.powi(k as i32)).min(self.exp.2 as f64) as u64
    }
}

/// Scripted operation: k-th invocation's outcome; invocation times recorded.
struct Script {
    outcomes: Vec<Option<ErrorCode>>,
    times: Vec<u64>,
}

async fn invoke(s: Rc<RefCell<Script>>, t0: Instant) -> pmcp::Result<Value> {
    let (k, out) = {
        let mut s = s.borrow_mut();
        let k = s.times.len();
        s.times.push(t0.elapsed().as_millis() as u64);
        (k, s.outcomes.get(k).cloned().flatten())
    };
    tokio::task::yield_now().await;
    match out {
        None => Ok(json!(k)),
        Some(c) => Err(Error::protocol(c, format!("call-{k}-failed"))),
    }
}

fn matches(r: &pmcp::Result<Value>, want: &Result<Value, String>) -> bool {
    match (r, want) {
        (Ok(a), Ok(b)) => a == b,
        (Err(e), Err(m)) => e.to_string().contains(m.as_str()),
        _ => false,
    }
}

pub fn c24(ctx: &Ctx) {
    ctx.assume("the strategy is chosen by the first failure's code; retries end with the last failure whatever its code");
    // breaker: every history
    let alpha = [Op::Allow, Op::Succ, Op::Fail, Op::Adv(60), Op::Adv(100)];
    let depth = ctx.by(7, 9);
    let cfg: Vec<(u32, u32)> = (1..=3).flat_map(|f| (1..=3).map(move |s| (f, s))).collect();
    let c2 = cfg.clone();
    let cases = c2.into_iter().flat_map(move |c| sequences(alpha.len(), depth).map(move |q| (c, q.into_iter().map(|i| alpha[i]).collect::<Vec<_>>())));
    for_all(ctx, &format!("breaker histories of {depth} operations"), cases, |&((ft, st), ref ops)| {
        let mut o = Outcome::default();
        let clock = vm::Clock::new();
        vm::join_clock(&clock);
        let cb = breaker(ft, st);
        let mut m = BM { ft, st, s: St::Closed(0), now: 0 };
        let tail = [Op::Allow, Op::Adv(100), Op::Allow, Op::Succ, Op::Fail, Op::Allow];
        for (k, op) in ops.iter().chain(&tail).enumerate() {
            o.transitions += 1;
            let want = m.apply(op);
            let got = block_on(apply_real(&cb, &clock, op));
            if got != want {
                o.fail("admission", format!("opens after {ft} failures, closes after {st} successes: {ops:?} then {tail:?}: operation {k} admitted {got:?}, expected {want:?}"));
                break;
            }
            o.observed += if got == Some(true) { "y" } else if got.is_some() { "n" } else { "" };
        }
        vm::leave_clock();
        o
    });

    // breaker: interleavings of two users
    let progs: &[&[Op]] = &[&[Op::Allow, Op::Succ], &[Op::Allow, Op::Fail], &[Op::Fail, Op::Allow], &[Op::Succ, Op::Allow], &[Op::Allow, Op::Allow], &[Op::Fail, Op::Fail]];
    let starts: &[&[Op]] = &[
        &[],
        &[Op::Fail],
        &[Op::Fail, Op::Fail],
        &[Op::Fail, Op::Fail, Op::Adv(100)],
        &[Op::Fail, Op::Fail, Op::Adv(100), Op::Allow],
        &[Op::Fail, Op::Fail, Op::Adv(100), Op::Allow, Op::Succ],
    ];
    let dev = ctx.by(3, 5);
    explore(ctx, &format!("breaker, two users, deviations<={dev}"), Bounds::dev(dev).secs(ctx.by(60, 400)), |ex| {
        let mut o = Outcome::default();
        let start = starts[ex.choose(starts.len())];
        let (a, b) = (progs[ex.choose(progs.len())], progs[ex.choose(progs.len())]);
        let st = 1 + ex.choose(2) as u32;
        let clock = vm::Clock::new();
        vm::join_clock(&clock);
        let cb = Arc::new(breaker(2, st));
        let mut m = BM { ft: 2, st, s: St::Closed(0), now: 0 };
        for op in start {
            m.apply(op);
            block_on(apply_real(&cb, &clock, op));
        }
        let what = format!("{start:?}; then {a:?} || {b:?}, closes after {st}");
        let r = run_async(&ex, HOUR, true, async {
            let hs: Vec<_> = [a, b]
                .into_iter()
                .map(|p| {
                    let (cb, clock) = (cb.clone(), clock.clone());
                    tokio::spawn(async move {
                        let mut v = vec![];
                        for op in p {
                            v.push((*op, apply_real(&cb, &clock, op).await));
                        }
                        v
                    })
                })
                .collect();
            let mut v = vec![];
            for h in hs {
                v.push(h.await.unwrap_or_default());
            }
            v
        });
        let Some(threads) = r else {
            deadlock(&mut o, &what);
            vm::leave_clock();
            return o;
        };
        // afterwards: what the breaker lets through and when it closes
        let probe = [Op::Allow, Op::Adv(99), Op::Allow, Op::Adv(1), Op::Allow, Op::Succ, Op::Fail, Op::Allow, Op::Fail, Op::Allow];
        let got: Vec<Option<bool>> = probe.iter().map(|op| block_on(apply_real(&cb, &clock, op))).collect();
        vm::leave_clock();
        o.observed = format!("{threads:?} {got:?}");
        let ok = linearizable(&m, &threads, &|m, op| m.apply(op), &|m| {
            let mut m = m.clone();
            probe.iter().map(|op| m.apply(op)).collect::<Vec<_>>() == got
        });
        if !ok {
            o.fail("breaker-interleaving", format!("{what}: no order of the operations explains {threads:?}, afterwards {got:?}"));
        }
        o
    });

    // executor: one call, every outcome script
    let pols = [
        Pol { fixed: (2, 30), exp: (3, 20, 50, 2.0), cb: (1, 1) },
        Pol { fixed: (0, 10), exp: (0, 20, 50, 2.0), cb: (2, 2) },
        Pol { fixed: (4, 0), exp: (4, 80, 50, 3.0), cb: (2, 1) },
        Pol { fixed: (1, 500), exp: (2, 40, 1000, 1.0), cb: (3, 1) },
        Pol { fixed: (3, 15), exp: (4, 64, 1000, 0.5), cb: (3, 2) },
    ];
    let len = ctx.by(5, 6);
    let p2 = pols.clone();
    let cases = p2.into_iter().flat_map(move |p| sequences(CODES.len(), len).map(move |q| (p.clone(), q)));
    for_all(ctx, &format!("executor, scripts of {len} outcomes"), cases, |(p, q)| {
        let mut o = Outcome::default();
        let outcomes: Vec<Option<ErrorCode>> = q.iter().map(|i| CODES[*i]).collect();
        let what = format!("{p:?} outcomes {outcomes:?}");
        let fb = Log::new();
        let s = Rc::new(RefCell::new(Script { outcomes: outcomes.clone(), times: vec![] }));
        let r = seq(async {
            let e = p.executor(&fb);
            let t0 = Instant::now();
            let r = e.execute_with_recovery("op", || invoke(s.clone(), t0)).await;
            (r, t0.elapsed().as_millis() as u64)
        });
        let Some((r, t_end)) = r else {
            deadlock(&mut o, &what);
            return o;
        };
        // expected
        let mut times = vec![0u64];
        let mut fallbacks = 0;
        let mut end = 0;
        let res = |k: usize| match outcomes.get(k).cloned().flatten() {
            None => Ok(json!(k)),
            Some(_) => Err(format!("call-{k}-failed")),
        };
        let mut retry = |n: u32, delay: &dyn Fn(u32) -> u64| {
            let mut last = res(0);
            for k in 0..n {
                end += delay(k);
                times.push(end);
                last = res(k as usize + 1);
                if last.is_ok() {
                    break;
                }
            }
            last
        };
        let want = match &outcomes[0] {
            None => res(0),
            Some(c) if *c == A => retry(p.fixed.0, &|_| p.fixed.1),
            Some(c) if *c == B => retry(p.exp.0, &|k| p.exp_delay(k)),
            Some(c) if *c == C => {
                fallbacks = 1;
                Ok(json!("fallback"))
            },
            Some(_) => res(0),
        };
        let got_times = s.borrow().times.clone();
        o.transitions = got_times.len() as u64;
        o.observed = format!("{got_times:?}{}", r.is_ok());
        if got_times != times {
            o.fail("invocations", format!("{what}: ran at {got_times:?} ms, expected {times:?}"));
        }
        if !matches(&r, &want) {
            o.fail("result", format!("{what}: gave {r:?}, expected {want:?}"));
        }
        if fb.len() != fallbacks || t_end != *times.last().unwrap() {
            o.fail("fallback-or-time", format!("{what}: {} fallback calls, ended at {t_end} ms", fb.len()));
        }
        o
    });

    // executor: histories of calls through a breaker, two operations
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    enum H {
        Call(usize, usize),
        Adv(u64),
    }
    let halpha = [H::Call(0, 0), H::Call(0, 4), H::Call(0, 5), H::Call(1, 4), H::Call(1, 0), H::Adv(60), H::Adv(100)];
    let hd = ctx.by(5, 7);
    let cases = [(1u32, 1u32), (2, 1), (2, 2)].into_iter().flat_map(move |cb| sequences(halpha.len(), hd).map(move |q| (cb, q.into_iter().map(|i| halpha[i]).collect::<Vec<_>>())));
    for_all(ctx, &format!("executor under a breaker, {hd} steps"), cases, |&(cb, ref ops)| {
        let mut o = Outcome::default();
        let clock = vm::Clock::new();
        vm::join_clock(&clock);
        let p = Pol { cb, fixed: (0, 0), exp: (0, 1, 1, 1.0) };
        let e = p.executor(&Log::new());
        let mut m: [Option<BM>; 2] = [None, None];
        for (k, h) in ops.iter().enumerate() {
            o.transitions += 1;
            match h {
                H::Adv(n) => {
                    clock.advance(ms(*n));
                    m.iter_mut().flatten().for_each(|b| b.now += n);
                },
                H::Call(id, out) => {
                    let admitted = m[*id].as_mut().is_none_or(|b| b.apply(&Op::Allow) == Some(true));
                    let runs = RefCell::new(0);
                    let r = block_on(e.execute_with_recovery(["op", "op.x"][*id], || {
                        *runs.borrow_mut() += 1;
                        let c = CODES[*out];
                        async move {
                            match c {
                                None => Ok(json!("done")),
                                Some(c) => Err(Error::protocol(c, "it failed")),
                            }
                        }
                    }));
                    let want_runs = u32::from(admitted);
                    let want: Result<Value, String> = if !admitted {
                        Err("ircuit".into())
                    } else if *out == 0 {
                        Ok(json!("done"))
                    } else {
                        Err("it failed".into())
                    };
                    if admitted && *out == 0 {
                        if let Some(b) = &mut m[*id] {
                            b.apply(&Op::Succ);
                        }
                    }
                    if admitted && *out == 4 {
                        let now = clock.now().as_millis() as u64;
                        m[*id].get_or_insert(BM { ft: cb.0, st: cb.1, s: St::Closed(0), now }).apply(&Op::Fail);
                    }
                    o.observed += if r.is_ok() { "y" } else if *runs.borrow() == 0 { "o" } else { "n" };
                    let runs = *runs.borrow();
                    if runs != want_runs || !matches(&r, &want) {
                        o.fail("breaker-call", format!("breaker {cb:?}, {ops:?}: step {k} ran {runs} times and gave {r:?}, expected {want_runs} run(s) and {want:?}"));
                        break;
                    }
                },
            }
        }
        vm::leave_clock();
        o
    });

    // with_retry
    let cases = (0..=4u32).flat_map(|n| [0u64, 25].into_iter().flat_map(move |d| (0..32u32).map(move |bits| (n, d, bits))));
    for_all(ctx, "with_retry", cases, |&(n, d, bits)| {
        let mut o = Outcome::default();
        let what = format!("{n} attempts {d} ms apart, outcomes (1 = fails) {bits:05b}");
        let outcomes: Vec<Option<ErrorCode>> = (0..5).map(|k| (bits >> k & 1 == 1).then_some(A)).collect();
        let s = Rc::new(RefCell::new(Script { outcomes: outcomes.clone(), times: vec![] }));
        let r = seq(async {
            let t0 = Instant::now();
            with_retry(n, ms(d), || invoke(s.clone(), t0)).await
        });
        let mut times = vec![];
        let mut want = Err(String::new());
        for k in 0..n as usize {
            times.push(k as u64 * d);
            want = if outcomes[k].is_none() { Ok(json!(k)) } else { Err(format!("call-{k}-failed")) };
            if want.is_ok() {
                break;
            }
        }
        let got = s.borrow().times.clone();
        o.observed = format!("{got:?}");
        if got != times || !r.as_ref().is_some_and(|r| matches(r, &want)) {
            o.fail("with-retry", format!("{what}: ran at {got:?} and gave {r:?}, expected {times:?} and {want:?}"));
        }
        o
    });
    // the default policy
    for_all(ctx, "default policy", 0..3usize, |&k| {
        let mut o = Outcome::default();
        let code = [ErrorCode::INTERNAL_ERROR, ErrorCode::INVALID_REQUEST, ErrorCode::METHOD_NOT_FOUND][k];
        let s = Rc::new(RefCell::new(Script { outcomes: vec![Some(code); 9], times: vec![] }));
        let r = seq(async {
            let t0 = Instant::now();
            RecoveryExecutor::new(RecoveryPolicy::default()).execute_with_recovery("x", || invoke(s.clone(), t0)).await.is_err()
        });
        let want: &[u64] = [&[0, 100, 300, 700][..], &[0, 500, 1000], &[0]][k];
        let got = s.borrow().times.clone();
        if r != Some(true) || got != want {
            o.fail("default-policy", format!("{code:?}: ran at {got:?}, expected {want:?}"));
        }
        o
    });
}
