//! Threads which end: what they leave, and handles in their thread-local variables.

use crate::mem;
use crate::obs;
use crate::rep;
use crate::rng::Rng;
use crate::work::Worker;
use std::cell::{Cell, RefCell};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Mutex;

const VARS: usize = 6;

macro_rules! ending {
    ($name: ident, $m: ident) => {
        mod $name {
            use super::*;
            use crate::$m::{collect, default_collect_condition, set_collect_condition, Any, CollectInfo, SYNC};

            /// Handles in a thread-local variable, and what to do when it is destroyed.
            struct Var {
                what: &'static str,
                handles: RefCell<Vec<(Any, u32)>>,
                seed: Cell<u64>,
            }

            thread_local! {
                static V0: Var = Var::new("0");
                static V1: Var = Var::new("1");
                static V2: Var = Var::new("2");
                static V3: Var = Var::new("3");
                static V4: Var = Var::new("4");
                static V5: Var = Var::new("5");
            }

            fn var<R>(i: usize, f: impl FnOnce(&Var) -> R) -> Option<R> {
                match i {
                    0 => V0.try_with(f).ok(),
                    1 => V1.try_with(f).ok(),
                    2 => V2.try_with(f).ok(),
                    3 => V3.try_with(f).ok(),
                    4 => V4.try_with(f).ok(),
                    _ => V5.try_with(f).ok(),
                }
            }

            impl Var {
                fn new(what: &'static str) -> Var {
                    Var { what, handles: RefCell::default(), seed: Cell::new(0) }
                }
            }

            impl Drop for Var {
                fn drop(&mut self) {
                    rep::count("variables_destroyed", 1);
                    let mut rng = Rng::new(self.seed.get());
                    let mut v = std::mem::take(&mut *self.handles.borrow_mut());
                    rep::trace(|| format!("destroying variable {} with {} handles", self.what, v.len()));
                    for _ in 0..rng.below(6) {
                        action(&mut rng, &mut v, true);
                    }
                    // the others as they come
                    if rng.chance(1, 2) {
                        for (h, id) in v {
                            rep::count("handles_dropped_at_teardown", 1);
                            read(&h, id);
                            drop(h);
                        }
                    } else {
                        rep::count("handles_dropped_at_teardown", v.len() as u64);
                        drop(v);
                    }
                    if rng.chance(1, 6) {
                        rep::trace(|| "collecting".into());
                        collect();
                    }
                }
            }

            static SHARED: Mutex<Shelf> = Mutex::new(Shelf(Vec::new()));
            struct Shelf(Vec<(Any, u32)>);
            // only used for shared handles
            unsafe impl Send for Shelf {}

            fn read(h: &Any, id: u32) {
                let (i, c) = h.id_can();
                obs::check_read(i, id, c);
            }

            fn action(rng: &mut Rng, v: &mut Vec<(Any, u32)>, teardown: bool) {
                let r = rng.below(14);
                rep::trace(|| format!("{}action {r}", if teardown { "teardown " } else { "" }));
                match r {
                    0..=2 => {
                        // some connected values
                        let n = rng.range(1, 4);
                        let first = v.len();
                        for _ in 0..n {
                            v.push(Any::make(rng.below(6) as u8, rng.below(2)));
                        }
                        for i in first..v.len() {
                            if let Some(s) = v[i].0.slots() {
                                let h = v[rng.range(first, v.len() - 1)].0.dup();
                                s.with(|s| s.push(h));
                            }
                        }
                    }
                    3 | 4 if !v.is_empty() => {
                        let i = rng.below(v.len());
                        let h = v[rng.below(v.len())].0.dup();
                        if let Some(s) = v[i].0.slots() {
                            s.with(|s| s.push(h));
                        }
                    }
                    5 | 6 if !v.is_empty() => {
                        let i = rng.below(v.len());
                        let (h, id) = v.swap_remove(i);
                        read(&h, id);
                        drop(h);
                    }
                    7 if !v.is_empty() => {
                        let i = rng.below(v.len());
                        let x = (v[i].0.dup(), v[i].1);
                        v.push(x);
                    }
                    8 => collect(),
                    9 if rng.chance(1, 3) => v.clear(),
                    10 if SYNC && !v.is_empty() => {
                        let i = rng.below(v.len());
                        let x = (v[i].0.dup(), v[i].1);
                        SHARED.lock().unwrap_or_else(|e| e.into_inner()).0.push(x);
                    }
                    11 if SYNC => {
                        let x = SHARED.lock().unwrap_or_else(|e| e.into_inner()).0.pop();
                        v.extend(x);
                    }
                    12 if !v.is_empty() => {
                        // drop through a stored handle
                        let i = rng.below(v.len());
                        let old = v[i].0.slots().and_then(|s| s.with(|s| s.pop()));
                        drop(old);
                    }
                    _ => {
                        // move something into a variable, perhaps one not used before
                        let x = (!v.is_empty()).then(|| v.swap_remove(rng.below(v.len())));
                        let seed = rng.next();
                        let i = rng.below(VARS);
                        let mut x = Some(x);
                        var(i, |w| {
                            if w.seed.get() == 0 {
                                w.seed.set(seed | 1);
                            }
                            if let Some(Some(x)) = x.take() {
                                w.handles.borrow_mut().push(x);
                            }
                        });
                    }
                }
            }

            fn always(_: &CollectInfo) -> bool {
                true
            }
            fn never(_: &CollectInfo) -> bool {
                false
            }
            /// A condition which uses the collector, perhaps while its thread is ending.
            fn busy(_: &CollectInfo) -> bool {
                thread_local!(static INSIDE: Cell<bool> = const { Cell::new(false) });
                if INSIDE.with(|i| i.replace(true)) {
                    return false;
                }
                let n = obs::NOISE.fetch_add(1, Relaxed);
                match n % 7 {
                    0 => {
                        let (h, _) = Any::make((n % 4) as u8, 0);
                        let k = h.dup();
                        h.slots().unwrap().with(|s| s.push(k));
                        rep::count("acts_of_conditions", 1);
                    }
                    2 => {
                        drop(Any::make(5, 0));
                        rep::count("acts_of_conditions", 1);
                    }
                    4 if n % 3 == 0 => {
                        collect();
                        rep::count("acts_of_conditions", 1);
                    }
                    _ => {}
                }
                INSIDE.with(|i| i.set(false));
                n % 5 == 0
            }

            /// The main thread of a process ends by `exit`.
            pub fn main_exit(seed: u64) {
                let mut rng = Rng::of(seed, 2);
                match rng.below(4) {
                    0 => set_collect_condition(never),
                    1 => set_collect_condition(always),
                    2 => set_collect_condition(busy),
                    _ => {}
                }
                let mut v = Vec::new();
                for _ in 0..rng.range(1, 24) {
                    action(&mut rng, &mut v, false);
                }
                if rng.chance(1, 4) {
                    // other threads end before, leaving their garbage
                    let seed = rng.next();
                    let t = std::thread::spawn(move || {
                        let mut rng = Rng::new(seed);
                        let mut v = Vec::new();
                        for _ in 0..rng.range(1, 12) {
                            action(&mut rng, &mut v, false);
                        }
                    });
                    if t.join().is_err() {
                        rep::violation("panic", "a thread panicked while it ended");
                    }
                }
                drop(v);
                rep::count("main_threads_ended", 1);
                rep::distinct_trace();
            }

            pub fn run(seed: u64) {
                let mut rng = Rng::of(seed, 1);
                collect();
                let policy = rng.below(4);
                let set = move || match policy {
                    0 => set_collect_condition(never),
                    1 => set_collect_condition(always),
                    2 => set_collect_condition(busy),
                    _ => set_collect_condition(default_collect_condition),
                };
                set();
                let n = rng.range(1, 3);
                let mut workers: Vec<(usize, Worker)> = (0..n).map(|i| (i, Worker::new())).collect();
                let mut steps: Vec<usize> = (0..n).map(|_| rng.range(1, 4)).collect();
                let first = obs::born_now() as u32;
                let mut pending = 0;
                while !workers.is_empty() {
                    let k = rng.below(workers.len());
                    let i = workers[k].0;
                    let seed = rng.next();
                    if steps[i] > 0 {
                        steps[i] -= 1;
                        workers[k].1.run(move || {
                            let mut rng = Rng::new(seed);
                            if !SYNC && rng.chance(1, 2) {
                                set();
                            }
                            let mut v = Vec::new();
                            for _ in 0..rng.range(1, 12) {
                                action(&mut rng, &mut v, false);
                            }
                            if rng.chance(1, 8) {
                                // dropped by unwinding
                                let _ = rep::expecting(move || {
                                    let _v = v;
                                    std::panic::panic_any("expected");
                                });
                            }
                        });
                    } else {
                        let left = (first..obs::born_now() as u32).filter(|i| !obs::is_dropped(*i)).count();
                        pending += left;
                        workers.swap_remove(k).1.end();
                        rep::count("threads_ended", 1);
                        if SYNC && rng.chance(1, 3) {
                            collect();
                        }
                    }
                }
                set_collect_condition(default_collect_condition);
                let mut shared = std::mem::take(&mut SHARED.lock().unwrap_or_else(|e| e.into_inner()).0);
                for (h, id) in shared.drain(..) {
                    read(&h, id);
                    drop(h);
                }
                if SYNC {
                    collect();
                }
                rep::count("values_left_when_threads_ended", pending as u64);
                rep::distinct_trace();
                let last = obs::born_now() as u32;
                let left: Vec<u32> = (first..last).filter(|i| !obs::is_dropped(*i)).collect();
                if !left.is_empty() {
                    rep::violation("exit", &format!("all threads have ended, but {} of {} values were not destroyed", left.len(), last - first));
                }
                set_collect_condition(default_collect_condition);
                collect();
                if mem::reset() > 0 && left.is_empty() {
                    rep::violation("exit", "memory of threads which have ended was not released");
                }
            }
        }
    };
}

ending!(u, useq);
ending!(s, sseq);

pub fn run(seed: u64, sync: bool) {
    if sync {
        s::run(seed);
    } else {
        u::run(seed);
    }
}

pub fn main_exit(seed: u64, sync: bool) {
    rep::forked_exiting(|| if sync { s::main_exit(seed) } else { u::main_exit(seed) });
}
