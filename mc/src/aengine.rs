//! Controlled execution of async code on a single-threaded tokio runtime with
//! paused time: the explorer picks which runnable task is polled next and may
//! switch away before any tokio lock / semaphore acquisition.

use crate::explore::{ChooserInner, Exec, Outcome};
use std::future::Future;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

struct Hooks {
    slot: Arc<Mutex<ChooserInner>>,
}

impl mchook::AsyncHooks for Hooks {
    fn choose_task(&self, n: usize) -> usize {
        self.slot.lock().unwrap().pick(n as u32, 1) as usize
    }
    fn preempt(&self) -> bool {
        self.slot.lock().unwrap().pick(2, 1) == 1
    }
    fn choose_env(&self, n: u32) -> u32 {
        // `select!` start branch: fixed by default, others are deviations.
        self.slot.lock().unwrap().pick(n, 1)
    }
}

/// Run `main` to completion.  `None`: the system went quiescent before `main`
/// finished (nothing runnable and no timer before `horizon`) - a deadlock.
pub fn run_async<F, R>(ex: &Exec, horizon: Duration, explore_schedules: bool, main: F) -> Option<R>
where
    F: Future<Output = R>,
{
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime");
    if explore_schedules {
        mchook::set_async(Some(Rc::new(Hooks { slot: ex.slot.clone() })));
    }
    let r = rt.block_on(async { tokio::time::timeout(horizon, main).await.ok() });
    mchook::set_async(None);
    drop(rt);
    r
}

/// Like `run_async` for code that also touches sockets while setting up.
pub fn run_async_io<F, R>(ex: &Exec, main: F) -> Option<R>
where
    F: Future<Output = R>,
{
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .build()
        .expect("runtime");
    mchook::set_async(Some(Rc::new(Hooks { slot: ex.slot.clone() })));
    let r = rt.block_on(async { tokio::time::timeout(Duration::from_secs(3600), main).await.ok() });
    mchook::set_async(None);
    drop(rt);
    r
}

/// Plain sequential run (no schedule exploration) on a private paused runtime.
pub fn run_plain<F: Future>(horizon: Duration, main: F) -> Option<F::Output> {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime");
    let r = rt.block_on(async { tokio::time::timeout(horizon, main).await.ok() });
    drop(rt);
    r
}

pub fn deadlock(o: &mut Outcome, what: &str) {
    o.fail("deadlock", format!("no task can make progress: {what}"));
}

/// Let every currently runnable task run until the system is quiescent
/// (without letting time pass).
pub async fn settle() {
    for _ in 0..64 {
        tokio::task::yield_now().await;
    }
}
