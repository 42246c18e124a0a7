//! Who is asked when, and what happens then: conditions of several threads.

use crate::mem;
use crate::obs;
use crate::rep;
use crate::rng::Rng;
use crate::work::Worker;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

const K: usize = 3;
const THREADS: usize = 4;

/// What condition k answers: 0 no, 1 yes, n > 1 every n-th time yes.
static ANSWER: [AtomicU32; K] = [const { AtomicU32::new(0) }; K];
static CALLS: [[AtomicU64; K]; THREADS] = [const { [const { AtomicU64::new(0) }; K] }; THREADS];
static YES: AtomicU64 = AtomicU64::new(0);
static LAST: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
}

fn answer(k: usize) -> bool {
    let me = ME.with(Cell::get);
    let n = CALLS[me][k].fetch_add(1, SeqCst) + 1;
    let yes = match ANSWER[k].load(SeqCst) {
        0 => false,
        1 => true,
        m => n % u64::from(m) == 0,
    };
    if yes {
        YES.fetch_add(1, SeqCst);
    }
    LAST.store(u32::from(yes), SeqCst);
    yes
}

fn calls() -> Vec<Vec<u64>> {
    CALLS.iter().map(|r| r.iter().map(|c| c.load(SeqCst)).collect()).collect()
}

macro_rules! policy {
    ($name: ident, $m: ident) => {
        mod $name {
            use super::*;
            use crate::$m::{collect, default_collect_condition, set_collect_condition, Any, CollectInfo, SYNC};

            thread_local! {
                static KEEP: RefCell<Vec<Any>> = const { RefCell::new(Vec::new()) };
            }

            fn cond<const N: usize>(_: &CollectInfo) -> bool {
                answer(N)
            }

            fn set(k: usize) {
                match k {
                    0 => set_collect_condition(cond::<0>),
                    1 => set_collect_condition(cond::<1>),
                    2 => set_collect_condition(cond::<2>),
                    _ => set_collect_condition(default_collect_condition),
                }
            }

            /// A ring of `n` values, and then its handles are dropped (also some additional ones).
            fn ring(n: usize, more: usize, kind: u8) -> (Vec<u32>, u64) {
                let v: Vec<(Any, u32)> = (0..n).map(|i| Any::make(if n == 1 { kind } else { (i % 5) as u8 }, i % 2)).collect();
                let mut first = None;
                for i in 0..n {
                    let h = v[(i + 1) % n].0.dup();
                    v[i].0.slots().unwrap().with(|s| s.push(h));
                    if i == 0 {
                        first = Some(v[i].0.dup());
                    }
                }
                let extra: Vec<Any> = (0..more).map(|i| v[i % n].0.dup()).collect();
                let ids = v.iter().map(|x| x.1).collect();
                drop(extra);
                drop(v);
                drop(first);
                (ids, (n + more + 1) as u64)
            }

            struct Thread {
                w: Worker,
                cond: Option<usize>,
                /// garbage not handed over yet
                local: Vec<u32>,
            }

            struct World {
                rng: Rng,
                ts: Vec<Thread>,
                global: Option<usize>,
                handed: Vec<u32>,
                kept: Vec<u32>,
            }

            fn start(me: usize) -> Thread {
                let w = Worker::new();
                w.run(move || ME.with(|m| m.set(me)));
                Thread { w, cond: None, local: vec![] }
            }

            impl World {
                fn cond_of(&self, i: usize) -> Option<usize> {
                    if SYNC { self.global } else { self.ts[i].cond }
                }

                /// Run something on thread `i` which drops `n` handles and makes garbage.
                fn dropping(&mut self, i: usize, what: &str, f: impl FnOnce() -> (Vec<u32>, u64) + Send + 'static) {
                    let before = calls();
                    let yes = YES.load(SeqCst);
                    LAST.store(0, SeqCst);
                    let (new, n) = self.ts[i].w.run(f);
                    self.ts[i].local.extend(new);
                    let after = calls();
                    let cur = self.cond_of(i);
                    for t in 0..THREADS {
                        for k in 0..K {
                            let d = after[t][k] - before[t][k];
                            if t == i && Some(k) == cur {
                                if d != n && YES.load(SeqCst) == yes {
                                    rep::violation("policy", &format!("{what} on thread {i}: the condition was consulted {d} times for {n} dropped handles"));
                                } else if d == 0 && n > 0 {
                                    rep::violation("policy", &format!("{what} on thread {i}: the condition was not consulted"));
                                }
                            } else if d != 0 {
                                rep::violation("policy", &format!("{what} on thread {i}: condition {k}, which is not the current one, was consulted on thread {t}"));
                            }
                        }
                    }
                    if cur.is_some() {
                        rep::count("condition_calls", n);
                        if YES.load(SeqCst) == yes {
                            self.none_gone(what);
                        } else if LAST.load(SeqCst) == 1 {
                            rep::count("condition_true", 1);
                            // collected after the last drop
                            if SYNC {
                                self.all_gone(what, &self.handed.clone());
                            } else {
                                self.all_gone(what, &self.ts[i].local.clone());
                            }
                        }
                    }
                    self.others_kept(i, what);
                    self.forget();
                }

                fn none_gone(&self, what: &str) {
                    let all = self.handed.iter().chain(self.ts.iter().flat_map(|t| &t.local));
                    for id in all {
                        rep::count("garbage_watched", 1);
                        if obs::is_dropped(*id) {
                            rep::violation("policy", &format!("{what}: cyclic garbage was collected although the condition never returned true"));
                        }
                    }
                }
                fn all_gone(&self, what: &str, ids: &[u32]) {
                    rep::count("garbage_due", ids.len() as u64);
                    for id in ids {
                        if !obs::is_dropped(*id) {
                            rep::violation("policy", &format!("{what}: garbage {id} is still there although the condition returned true"));
                        }
                    }
                }
                fn others_kept(&self, i: usize, what: &str) {
                    for id in &self.kept {
                        if obs::is_dropped(*id) {
                            rep::violation("safety", &format!("{what}: value {id} is held but was destroyed"));
                        }
                    }
                    if !SYNC {
                        for (j, t) in self.ts.iter().enumerate() {
                            if j != i && t.local.iter().any(|id| obs::is_dropped(*id)) {
                                rep::violation("policy", &format!("{what} on thread {i} collected garbage of thread {j}"));
                            }
                        }
                    }
                }
                fn forget(&mut self) {
                    self.handed.retain(|i| !obs::is_dropped(*i));
                    for t in &mut self.ts {
                        t.local.retain(|i| !obs::is_dropped(*i));
                    }
                }

                fn step(&mut self) {
                    let i = self.rng.below(self.ts.len());
                    match self.rng.below(20) {
                        0..=3 => {
                            let k = self.rng.below(K + 1);
                            rep::trace(|| format!("thread {i} sets condition {k}"));
                            self.ts[i].w.run(move || set(k));
                            let c = (k < K).then_some(k);
                            self.ts[i].cond = c;
                            self.global = c;
                            rep::count("conditions_set", 1);
                        }
                        4..=5 => {
                            let k = self.rng.below(K);
                            let a = [0, 0, 1, 2, 5][self.rng.below(5)];
                            rep::trace(|| format!("condition {k} answers {a}"));
                            ANSWER[k].store(a, SeqCst);
                        }
                        6..=11 => {
                            let (n, more, kind) = (self.rng.range(1, 5), self.rng.below(4), self.rng.below(5) as u8);
                            rep::trace(|| format!("thread {i} makes a ring of {n} into garbage"));
                            self.dropping(i, "making garbage", move || ring(n, more, kind));
                        }
                        12..=13 => {
                            rep::trace(|| format!("thread {i} drops a leaf"));
                            self.dropping(i, "dropping a leaf", || {
                                drop(Any::make(5, 0));
                                (vec![], 1)
                            });
                        }
                        14 => {
                            rep::trace(|| format!("thread {i} drops a copy"));
                            let id = self.ts[i].w.run(|| {
                                let (h, id) = Any::make(0, 0);
                                h.slots().unwrap().with(|s| s.push(h.dup()));
                                KEEP.with(|k| k.borrow_mut().push(h));
                                id
                            });
                            self.kept.push(id);
                            self.dropping(i, "dropping a copy", || {
                                let h = KEEP.with(|k| k.borrow().last().unwrap().dup());
                                drop(h);
                                (vec![], 1)
                            });
                        }
                        15..=16 => {
                            rep::trace(|| format!("thread {i} collects"));
                            let before = calls();
                            self.ts[i].w.run(collect);
                            if calls() != before {
                                rep::violation("policy", "an explicit collection consulted a condition");
                            }
                            self.all_gone("collect", &self.ts[i].local.clone());
                            if SYNC {
                                self.all_gone("collect", &self.handed.clone());
                            }
                            self.others_kept(i, "collect");
                            self.forget();
                        }
                        17..=18 => {
                            // the thread ends, another one takes its place
                            let kept: Vec<u32> = self.ts[i].w.run(|| KEEP.with(|k| k.borrow().iter().map(|h| h.id_can().0).collect()));
                            self.kept.retain(|x| !kept.contains(x));
                            rep::trace(|| format!("thread {i} ends"));
                            self.dropping(i, "letting go", move || {
                                let v = KEEP.with(|k| std::mem::take(&mut *k.borrow_mut()));
                                let n = v.len() as u64;
                                drop(v);
                                (kept, n.max(0))
                            });
                            let t = std::mem::replace(&mut self.ts[i], start(i));
                            let yes = YES.load(SeqCst);
                            let before = calls();
                            t.w.end();
                            if calls() != before {
                                rep::violation("policy", "the end of a thread consulted a condition");
                            }
                            if SYNC {
                                if YES.load(SeqCst) == yes && self.global.is_some() {
                                    self.none_gone("thread end");
                                }
                                self.handed.extend(t.local);
                            }
                            rep::count("threads_ended", 1);
                            self.forget();
                        }
                        _ => {
                            // the default, once restored, collects by itself
                            rep::trace(|| format!("thread {i} restores the default and drops many"));
                            self.ts[i].w.run(|| set(K));
                            self.ts[i].cond = None;
                            self.global = None;
                            self.dropping(i, "dropping many leaves", || {
                                for _ in 0..600 {
                                    drop(Any::make(5, 0));
                                }
                                (vec![], 600)
                            });
                            let due = if SYNC { self.handed.clone() } else { self.ts[i].local.clone() };
                            self.all_gone("dropping many leaves under the default condition", &due);
                        }
                    }
                }
            }

            pub fn run(seed: u64) {
                let mut rng = Rng::new(seed);
                for k in 0..K {
                    ANSWER[k].store(0, SeqCst);
                    for r in &CALLS {
                        r[k].store(0, SeqCst);
                    }
                }
                let n = rng.range(1, 3);
                let mut w = World { rng, ts: (0..n).map(start).collect(), global: None, handed: vec![], kept: vec![] };
                let steps = w.rng.range(10, 40);
                for _ in 0..steps {
                    w.step();
                }
                rep::distinct_trace();
                rep::count("operations", steps as u64);
                for t in &w.ts {
                    t.w.run(|| {
                        set(K);
                        KEEP.with(|k| k.borrow_mut().clear());
                        collect();
                    });
                }
                for t in w.ts {
                    t.w.end();
                }
                crate::$m::collect();
                mem::reset();
            }
        }
    };
}

policy!(u, useq);
policy!(s, sseq);

pub fn run(seed: u64, sync: bool) {
    if sync {
        s::run(seed);
    } else {
        u::run(seed);
    }
}
