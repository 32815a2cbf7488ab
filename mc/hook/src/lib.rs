//! Scheduling hooks called by the patched copies of tokio, dashmap and
//! parking_lot that the harness links.  Outside an exploration every hook is a
//! no-op, so code under test behaves exactly as with the stock crates.

use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;

/// Choices the explorer makes for a single-threaded async execution.
pub trait AsyncHooks {
    /// Which of the `n` runnable tasks to poll next.
    fn choose_task(&self, n: usize) -> usize;
    /// Whether to switch away before acquiring a tokio lock/semaphore.
    fn preempt(&self) -> bool;
    /// Resolve an internal random choice (`select!` start branch).
    fn choose_env(&self, n: u32) -> u32;
}

/// Scheduling points of an execution on real, serialized OS threads.
pub trait ThreadHooks: Send + Sync {
    fn point(&self, tid: usize);
    fn blocked(&self, tid: usize);
}

thread_local! {
    static ACTIVE: Cell<u8> = const { Cell::new(0) };
    static ASYNC: RefCell<Option<Rc<dyn AsyncHooks>>> = const { RefCell::new(None) };
    static THREADS: RefCell<Option<(Arc<dyn ThreadHooks>, usize)>> = const { RefCell::new(None) };
}

pub fn set_async(h: Option<Rc<dyn AsyncHooks>>) {
    let _ = ACTIVE.try_with(|a| a.set(if h.is_some() { 1 } else { 0 }));
    let _ = ASYNC.try_with(|c| *c.borrow_mut() = h);
}

pub fn set_threads(h: Option<(Arc<dyn ThreadHooks>, usize)>) {
    let _ = ACTIVE.try_with(|a| a.set(if h.is_some() { 2 } else { 0 }));
    let _ = THREADS.try_with(|c| *c.borrow_mut() = h);
}

#[inline]
pub fn async_active() -> bool {
    ACTIVE.try_with(|a| a.get() == 1).unwrap_or(false)
}

#[inline]
pub fn threads_active() -> bool {
    ACTIVE.try_with(|a| a.get() == 2).unwrap_or(false)
}

fn ah() -> Option<Rc<dyn AsyncHooks>> {
    if !async_active() {
        return None;
    }
    ASYNC.try_with(|c| c.borrow().clone()).ok().flatten()
}

fn th() -> Option<(Arc<dyn ThreadHooks>, usize)> {
    if !threads_active() {
        return None;
    }
    THREADS.try_with(|c| c.borrow().clone()).ok().flatten()
}

pub fn choose_task(n: usize) -> usize {
    ah().map_or(0, |h| h.choose_task(n))
}

pub fn async_preempt() -> bool {
    ah().is_some_and(|h| h.preempt())
}

pub fn choose_env(n: u32) -> Option<u32> {
    ah().map(|h| h.choose_env(n))
}

pub fn point() {
    if let Some((h, t)) = th() {
        h.point(t);
    }
}

pub fn blocked() {
    if let Some((h, t)) = th() {
        h.blocked(t);
    } else {
        std::thread::yield_now();
    }
}
