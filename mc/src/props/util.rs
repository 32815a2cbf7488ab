//! Shared helpers for property modules.
#![allow(dead_code)]
use crate::explore::{Exec, Outcome};
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub const HOUR: Duration = Duration::from_secs(3600);

/// A shared append-only log.
pub struct Log<T>(Arc<Mutex<Vec<T>>>);
impl<T> Clone for Log<T> {
    fn clone(&self) -> Self {
        Log(self.0.clone())
    }
}
impl<T> Default for Log<T> {
    fn default() -> Self {
        Log(Arc::new(Mutex::new(Vec::new())))
    }
}
impl<T: Clone> Log<T> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn push(&self, t: T) {
        self.0.lock().unwrap().push(t);
    }
    pub fn get(&self) -> Vec<T> {
        self.0.lock().unwrap().clone()
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().len()
    }
    pub fn take(&self) -> Vec<T> {
        std::mem::take(&mut *self.0.lock().unwrap())
    }
}

/// Is there an interleaving of the threads' operations (each thread in its own
/// order) under which the sequential model gives every observed result and a
/// final state accepted by `final_ok`?
pub fn linearizable<S, O, R>(
    init: &S,
    threads: &[Vec<(O, R)>],
    apply: &dyn Fn(&mut S, &O) -> R,
    final_ok: &dyn Fn(&S) -> bool,
) -> bool
where
    S: Clone,
    R: PartialEq,
{
    fn go<S: Clone, O, R: PartialEq>(
        s: &S,
        pos: &mut Vec<usize>,
        t: &[Vec<(O, R)>],
        apply: &dyn Fn(&mut S, &O) -> R,
        fin: &dyn Fn(&S) -> bool,
    ) -> bool {
        let mut any = false;
        for i in 0..t.len() {
            if pos[i] < t[i].len() {
                any = true;
                let (op, want) = &t[i][pos[i]];
                let mut s2 = s.clone();
                if apply(&mut s2, op) == *want {
                    pos[i] += 1;
                    let ok = go(&s2, pos, t, apply, fin);
                    pos[i] -= 1;
                    if ok {
                        return true;
                    }
                }
            }
        }
        !any && fin(s)
    }
    go(init, &mut vec![0; threads.len()], threads, apply, final_ok)
}

/// Assert equality into an outcome.
pub fn expect_eq<T: PartialEq + std::fmt::Debug>(o: &mut Outcome, key: &str, what: impl std::fmt::Display, got: T, want: T) -> bool {
    if got != want {
        o.fail(key, format!("{what}: got {got:?}, expected {want:?}"));
        return false;
    }
    true
}

/// Free-running sequential execution of async code (no exploration).
pub fn seq<F: Future>(f: F) -> Option<F::Output> {
    crate::aengine::run_plain(HOUR * 24 * 400, f)
}

pub fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

pub fn no_exec() -> Exec {
    Exec { slot: Arc::new(Mutex::new(crate::explore::ChooserInner::new(vec![], 0, 0))) }
}

/// Population sizes: small ones and both sides of every round number a limit might be set at.
pub const SIZES: &[usize] = &[1, 2, 3, 8, 9, 15, 16, 17, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300];
