//! Controlled execution of real OS threads: exactly one thread runs at a time,
//! and the explorer decides at every lock acquisition (parking_lot, dashmap,
//! tokio) which thread runs next.

use crate::explore::{ChooserInner, Exec};
use crate::vm;
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked,
    Done,
}

struct State {
    cur: usize,
    st: Vec<St>,
    deadlock: bool,
    started: bool,
    threads: Vec<Option<std::thread::Thread>>,
}

impl State {
    fn wake(&self, i: usize) {
        if let Some(t) = &self.threads[i] {
            t.unpark();
        }
    }
    fn wake_all(&self) {
        (0..self.st.len()).for_each(|i| self.wake(i));
    }
}

pub struct Sched {
    slot: Arc<Mutex<ChooserInner>>,
    state: Mutex<State>,
}

struct Abort;

impl Sched {
    fn pick_next(&self, g: &mut State, me: usize, me_enabled: bool) {
        // canonical order: the running thread first if still enabled
        let mut en: Vec<usize> = Vec::new();
        if me_enabled {
            en.push(me);
        }
        for (i, s) in g.st.iter().enumerate() {
            if i != me && *s == St::Ready {
                en.push(i);
            }
        }
        if en.is_empty() {
            if g.st.iter().any(|s| *s == St::Blocked) {
                g.deadlock = true;
            }
            g.wake_all();
            return;
        }
        let k = self.slot.lock().unwrap().pick(en.len() as u32, u8::from(me_enabled)) as usize;
        g.cur = en[k];
        if g.cur != me {
            g.wake(g.cur);
        }
    }
    fn wait_turn(&self, tid: usize) {
        loop {
            {
                let g = self.state.lock().unwrap();
                if g.deadlock {
                    drop(g);
                    std::panic::resume_unwind(Box::new(Abort));
                }
                if g.started && g.cur == tid {
                    return;
                }
            }
            std::thread::park();
        }
    }
    fn finish(&self, tid: usize) {
        let mut g = self.state.lock().unwrap();
        g.st[tid] = St::Done;
        for s in g.st.iter_mut() {
            if *s == St::Blocked {
                *s = St::Ready;
            }
        }
        self.pick_next(&mut g, tid, false);
    }
}

impl mchook::ThreadHooks for Sched {
    fn point(&self, tid: usize) {
        if std::thread::panicking() {
            return;
        }
        {
            let mut g = self.state.lock().unwrap();
            for (i, s) in g.st.iter_mut().enumerate() {
                if i != tid && *s == St::Blocked {
                    *s = St::Ready;
                }
            }
            self.pick_next(&mut g, tid, true);
        }
        self.wait_turn(tid);
    }
    fn blocked(&self, tid: usize) {
        {
            let mut g = self.state.lock().unwrap();
            g.st[tid] = St::Blocked;
            self.pick_next(&mut g, tid, false);
        }
        self.wait_turn(tid);
        self.state.lock().unwrap().st[tid] = St::Ready;
    }
}

#[derive(Debug, PartialEq)]
pub enum End {
    Ok,
    Deadlock,
    Panic(String),
    /// The code blocked on something the scheduler does not control.
    Stuck,
}

/// Run the bodies concurrently under the explorer's control.
pub fn run_threads(ex: &Exec, clock: &Arc<vm::Clock>, bodies: Vec<Box<dyn FnOnce() + Send>>) -> End {
    let n = bodies.len();
    let sched = Arc::new(Sched {
        slot: ex.slot.clone(),
        state: Mutex::new(State { cur: 0, st: vec![St::Ready; n], deadlock: false, started: false, threads: vec![None; n] }),
    });
    let done = Arc::new((Mutex::new((0usize, None::<String>)), Condvar::new()));
    for (tid, body) in bodies.into_iter().enumerate() {
        let sched = sched.clone();
        let done = done.clone();
        let clock = clock.clone();
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                vm::seed_rng(0x7000 + 0x100 * tid as u64);
                vm::join_clock(&clock);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    sched.state.lock().unwrap().threads[tid] = Some(std::thread::current());
                    sched.wait_turn(tid);
                    mchook::set_threads(Some((sched.clone(), tid)));
                    body();
                }));
                mchook::set_threads(None);
                sched.finish(tid);
                vm::leave_clock();
                let mut g = done.0.lock().unwrap();
                g.0 += 1;
                if let Err(e) = r {
                    if !e.is::<Abort>() {
                        g.1 = Some(crate::explore::panic_msg(&e));
                    }
                }
                if g.0 == n {
                    done.1.notify_all();
                }
            })
            .expect("spawn");
    }
    {
        // first thread to run: a free choice
        let k = ex.slot.lock().unwrap().pick(n as u32, 0) as usize;
        let mut g = sched.state.lock().unwrap();
        g.cur = k;
        g.started = true;
        g.wake_all();
    }
    let stuck = vm::with_real_clock(|| {
        let g = done.0.lock().unwrap();
        done.1.wait_timeout_while(g, Duration::from_secs(10), |g| g.0 < n).unwrap().1.timed_out()
    });
    if stuck {
        return End::Stuck;
    }
    let mut g = done.0.lock().unwrap();
    if sched.state.lock().unwrap().deadlock {
        return End::Deadlock;
    }
    match g.1.take() {
        Some(p) => End::Panic(p),
        None => End::Ok,
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// Drive a future on a scheduled thread; while it is pending the thread is blocked.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = flag.clone().into();
    let mut cx = Context::from_waker(&waker);
    loop {
        flag.0.store(false, Ordering::SeqCst);
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        while !flag.0.load(Ordering::SeqCst) {
            mchook::blocked();
        }
    }
}
