//! What the default condition must achieve by itself: collections take place when they are due,
//! and their work stays in proportion to the handle operations.

use crate::mem;
use crate::obs;
use crate::rep;
use crate::rng::Rng;
use crate::work::Worker;
use std::sync::atomic::Ordering::*;

/// Shared handles, in code which also has to compile for thread-local ones.
struct Shared<T>(#[allow(dead_code)] T);
unsafe impl<T> Send for Shared<T> {}

macro_rules! automatic {
    ($name: ident, $m: ident) => {
        mod $name {
            use super::*;
            use crate::$m::{collect, default_collect_condition, set_collect_condition, Any, SYNC};

            /// A connected structure whose inner handles are known.
            struct Unit {
                ext: Vec<Any>,
                ids: Vec<u32>,
                inner: u64,
            }

            struct World {
                rng: Rng,
                units: Vec<Unit>,
                /// members and number of inner handles of what is garbage now
                garbage: Vec<(Vec<u32>, u64)>,
                existing: u64,
                canary: u32,
                /// drops since the canary became garbage
                drops: u64,
                ops: u64,
                work0: u64,
                what: &'static str,
            }

            fn canary() -> u32 {
                let f = || {
                    let (h, id) = Any::make(0, 0);
                    h.slots().unwrap().with(|s| s.push(h.dup()));
                    drop(h);
                    id
                };
                if SYNC {
                    // handed over when its thread ends
                    std::thread::spawn(f).join().unwrap_or_else(|_| rep::harness_error("a panic escaped"))
                } else {
                    f()
                }
            }

            impl World {
                fn dropped(&mut self) {
                    self.drops += 1;
                    self.ops += 1;
                    self.existing -= 1;
                    self.update();
                    if self.drops > self.existing {
                        rep::violation(
                            "auto",
                            &format!(
                                "{} handles were dropped since the last collection and {} exist, but none took place during the last drop ({})",
                                self.drops, self.existing, self.what
                            ),
                        );
                    }
                    rep::maxi("uncollected_garbage", self.garbage.iter().map(|g| g.0.len() as u64).sum());
                }

                /// Find out what has been collected.
                fn update(&mut self) {
                    if !obs::is_dropped(self.canary) {
                        return;
                    }
                    rep::count("automatic_collections", 1);
                    let mut gone = 1;
                    self.garbage.retain(|(ids, inner)| {
                        let dead = ids.iter().filter(|i| obs::is_dropped(**i)).count();
                        if dead == ids.len() {
                            gone += inner;
                            return false;
                        }
                        if !SYNC {
                            rep::violation("auto", "an automatic collection left garbage behind");
                        }
                        true
                    });
                    self.existing -= gone;
                    for u in &self.units {
                        if u.ids.iter().any(|i| obs::is_dropped(*i)) {
                            rep::violation("safety", "a held value was destroyed");
                        }
                    }
                    self.renew();
                }

                fn renew(&mut self) {
                    for _ in 0..20 {
                        self.canary = canary();
                        self.ops += 3;
                        if !obs::is_dropped(self.canary) {
                            self.existing += 1;
                            self.drops = 0;
                            return;
                        }
                    }
                    rep::violation("auto", "every drop runs a collection");
                    rep::harness_error("cannot keep a canary");
                }

                fn unit(&mut self, n: usize, form: usize) -> Unit {
                    let v: Vec<(Any, u32)> = (0..n).map(|i| Any::make(if n > 500 { 0 } else { (i % 5) as u8 }, i % 2)).collect();
                    let mut inner = 0;
                    let mut link = |i: usize, j: usize| {
                        let h = v[j % n].0.dup();
                        v[i % n].0.slots().unwrap().with(|s| s.push(h));
                        inner += 1;
                    };
                    for i in 0..n {
                        match form {
                            0 => link(i, i + 1),
                            1 => {
                                link(0, i);
                                link(i, 0);
                            }
                            2 => {
                                if i > 0 {
                                    link((i - 1) / 2, i);
                                    link(i, (i - 1) / 2);
                                } else {
                                    link(0, 0);
                                }
                            }
                            _ => (0..4).for_each(|k| link(i, i * 7 + k * k + 1)),
                        }
                    }
                    self.existing += n as u64 + inner;
                    self.ops += n as u64 + inner;
                    let (ext, ids) = v.into_iter().unzip();
                    Unit { ext, ids, inner }
                }

                /// Drop the handles of a unit one at a time, all but `keep` of them.
                fn release(&mut self, mut u: Unit, keep: usize) -> Option<Unit> {
                    while u.ext.len() > keep {
                        let i = self.rng.below(u.ext.len());
                        let h = u.ext.swap_remove(i);
                        if u.ext.is_empty() {
                            self.garbage.push((u.ids.clone(), u.inner));
                        }
                        drop(h);
                        self.dropped();
                    }
                    (!u.ext.is_empty()).then_some(u)
                }

                fn leaf(&mut self) {
                    let (h, id) = Any::make(5, 0);
                    self.existing += 1;
                    self.ops += 1;
                    drop(h);
                    if !obs::is_dropped(id) {
                        rep::violation("prompt", "a value without handles survived its last handle");
                    }
                    self.dropped();
                }

                fn phase(&mut self, big: usize) {
                    let r = self.rng.below(7);
                    let n = [1, 2, 3, 10, 60][self.rng.below(5)];
                    let form = self.rng.below(4);
                    rep::trace(|| format!("phase {r}: structures of {n} values, form {form}; {} are held, {} handles exist", self.units.len(), self.existing));
                    match r {
                        0 => {
                            self.what = "growing";
                            for _ in 0..self.rng.range(1, 10) {
                                let u = self.unit(n, form);
                                let keep = self.rng.range(1, u.ext.len());
                                let u = self.release(u, keep);
                                self.units.extend(u);
                            }
                        }
                        1 => {
                            self.what = "churning";
                            for _ in 0..self.rng.range(1, 300) {
                                let u = self.unit(n, form);
                                self.release(u, 0);
                            }
                        }
                        2 => {
                            self.what = "shrinking";
                            for _ in 0..self.rng.range(1, 10) {
                                if self.units.is_empty() {
                                    break;
                                }
                                let i = self.rng.below(self.units.len());
                                let u = self.units.swap_remove(i);
                                self.release(u, 0);
                            }
                        }
                        3 => {
                            self.what = "copying";
                            if self.units.is_empty() {
                                return;
                            }
                            for _ in 0..self.rng.range(1, 2000) {
                                let i = self.rng.below(self.units.len());
                                let j = self.rng.below(self.units[i].ext.len());
                                let h = self.units[i].ext[j].dup();
                                self.existing += 1;
                                self.ops += 1;
                                drop(h);
                                self.dropped();
                            }
                        }
                        4 => {
                            self.what = "dropping leaves";
                            for _ in 0..self.rng.range(1, 2000) {
                                self.leaf();
                            }
                        }
                        5 if self.units.len() < 40 => {
                            self.what = "a large structure";
                            let form = self.rng.range(1, 3);
                            let u = self.unit(big, form);
                            let keep = [0, 1, 5][self.rng.below(3)];
                            let u = self.release(u, keep);
                            self.units.extend(u);
                        }
                        _ => {
                            self.what = "many copies";
                            if self.units.is_empty() {
                                return;
                            }
                            let i = self.rng.below(self.units.len());
                            let k = self.rng.range(1, 2000);
                            let v: Vec<Any> = (0..k).map(|j| self.units[i].ext[j % self.units[i].ext.len()].dup()).collect();
                            self.existing += k as u64;
                            self.ops += k as u64;
                            for h in v {
                                drop(h);
                                self.dropped();
                            }
                        }
                    }
                    self.check_work();
                }

                fn check_work(&self) {
                    let work = obs::ACCEPTS.load(Relaxed) - self.work0;
                    rep::maxi("traversals_per_100_operations", work * 100 / self.ops.max(1000));
                    if work > 3 * self.ops + 1000 {
                        rep::violation("work", &format!("{work} traversals of values for {} handle operations", self.ops));
                    }
                }
            }

            pub fn run(seed: u64, big: usize) {
                set_collect_condition(default_collect_condition);
                collect();
                let w = Worker::new();
                w.run(move || {
                    let mut w = World {
                        rng: Rng::new(seed),
                        units: vec![],
                        garbage: vec![],
                        existing: 0,
                        canary: 0,
                        drops: 0,
                        ops: 0,
                        work0: obs::ACCEPTS.load(Relaxed),
                        what: "",
                    };
                    w.renew();
                    let n = w.rng.range(3, 25);
                    for _ in 0..n {
                        w.phase(big);
                        if obs::born_now() > obs::MAX / 2 {
                            break;
                        }
                    }
                    rep::count("handle_operations", w.ops);
                    rep::distinct_trace();
                    // one collection of everything, all of it suspected
                    let n: u64 = w.units.iter().map(|u| u.ids.len() as u64).sum::<u64>() + w.garbage.iter().map(|g| g.0.len() as u64).sum::<u64>() + 1;
                    for u in &w.units {
                        for h in &u.ext {
                            drop(h.dup());
                        }
                    }
                    let before = obs::ACCEPTS.load(Relaxed);
                    collect();
                    let work = obs::ACCEPTS.load(Relaxed) - before;
                    rep::maxi("traversals_per_100_values_in_one_collection", if n > 50 { work * 100 / n } else { 0 });
                    if work > 4 * n {
                        rep::violation("work", &format!("one collection traversed {n} values {work} times"));
                    }
                });
                w.end();
                collect();
                mem::reset();
            }

            /// A large living heap, all of which is suspected time and again.
            pub fn steady(seed: u64, log: usize) {
                set_collect_condition(default_collect_condition);
                collect();
                let w = Worker::new();
                w.run(move || {
                    let mut w = World {
                        rng: Rng::new(seed),
                        units: vec![],
                        garbage: vec![],
                        existing: 0,
                        canary: 0,
                        drops: 0,
                        ops: 0,
                        work0: obs::ACCEPTS.load(Relaxed),
                        what: "steady use of a large heap",
                    };
                    w.renew();
                    let n = w.rng.range(1 << (log - 1), 1 << log);
                    // the last form has long paths, which take much stack to follow
                    let form = w.rng.range(1, if n > 2000 { 2 } else { 3 });
                    let u = w.unit(n, form);
                    let rounds = 2 * (w.existing / 1000 + 1);
                    rep::trace(|| format!("{n} values, form {form}, {rounds} rounds"));
                    for _ in 0..rounds {
                        let picks: Vec<usize> = (0..1000).map(|_| w.rng.range(1, n - 1)).collect();
                        w.ops += 2000;
                        if SYNC {
                            // suspects are handed over at the end of their thread
                            let hs = Shared(picks.into_iter().map(|i| u.ext[i].dup()).collect::<Vec<Any>>());
                            if std::thread::spawn(move || drop({ hs })).join().is_err() {
                                rep::harness_error("a panic escaped");
                            }
                        } else {
                            for i in picks {
                                drop(u.ext[i].dup());
                            }
                        }
                        w.check_work();
                    }
                    rep::count("handle_operations", w.ops);
                    rep::count("large_heaps", 1);
                    rep::maxi("values_in_a_large_heap", n as u64);
                    rep::distinct_trace();
                    if u.ids.iter().any(|i| obs::is_dropped(*i)) {
                        rep::violation("safety", "a held value was destroyed");
                    }
                });
                w.end();
                collect();
                mem::reset();
            }

            /// Garbage of a thread that goes on without ever collecting explicitly.
            pub fn handover(seed: u64) {
                set_collect_condition(default_collect_condition);
                collect();
                let w = Worker::new();
                w.run(move || {
                    let mut rng = Rng::new(seed);
                    let n = rng.range(1, 40);
                    let v: Vec<(Any, u32)> = (0..n).map(|i| Any::make((i % 5) as u8, i % 2)).collect();
                    for i in 0..n {
                        let h = v[(i + 1) % n].0.dup();
                        v[i].0.slots().unwrap().with(|s| s.push(h));
                    }
                    let early = rng.below(100);
                    for _ in 0..early {
                        drop(Any::make(5, 0));
                    }
                    let (hs, ids): (Vec<Any>, Vec<u32>) = v.into_iter().unzip();
                    drop(hs);
                    let kept: Vec<(Any, u32)> = (0..rng.below(300)).map(|_| Any::make(0, 0)).collect();
                    let copies = !kept.is_empty() && rng.chance(1, 2);
                    let limit = 100_000 + 2000;
                    let mut k = 0;
                    while k < limit && !ids.iter().all(|i| obs::is_dropped(*i)) {
                        if copies {
                            drop(kept[k % kept.len()].0.dup());
                        } else {
                            drop(Any::make(5, 0));
                        }
                        k += 1;
                    }
                    if !ids.iter().all(|i| obs::is_dropped(*i)) {
                        rep::violation("auto", &format!("garbage is still there {k} drops later on the same thread"));
                    }
                    rep::count("handovers_by_drops", 1);
                    rep::maxi("drops_until_handover", k as u64);
                });
                w.end();
                collect();
                mem::reset();
            }
        }
    };
}

automatic!(u, useq);
automatic!(s, sseq);

pub fn run(seed: u64, sync: bool, big: usize) {
    let mut rng = Rng::of(seed, 5);
    if rng.chance(1, 10) {
        let log = rng.range(8, if big > 1000 { 15 } else { 12 });
        return if sync { s::steady(seed, log) } else { u::steady(seed, log) };
    }
    let long = rng.chance(1, 20);
    match (sync, long) {
        (true, true) => s::handover(seed),
        (true, false) => s::run(seed, big),
        (false, true) => u::handover(seed),
        (false, false) => u::run(seed, big),
    }
}
