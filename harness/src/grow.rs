//! The same program many times over in one process: afterwards there must not be more memory in use
//! than after the first few times.

use crate::mem;
use crate::obs;
use crate::rep;
use crate::rng::Rng;
use crate::work::Worker;

/// Shared handles, in code which also has to compile for thread-local ones.
struct Shared<T>(T);
unsafe impl<T> Send for Shared<T> {}

macro_rules! growth {
    ($name: ident, $m: ident) => {
        mod $name {
            use super::*;
            use crate::$m::{collect, default_collect_condition, set_collect_condition, Any, CollectInfo, SYNC};

            fn never(_: &CollectInfo) -> bool {
                false
            }
            fn often(_: &CollectInfo) -> bool {
                NTH.with(|n| {
                    n.set(n.get() + 1);
                    n.get() % 7 == 0
                })
            }
            thread_local! {
                static NTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
            }

            fn structure(rng: &mut Rng) -> Vec<Any> {
                let n = rng.range(1, 12);
                let form = rng.below(4);
                let v: Vec<Any> = (0..n).map(|_| Any::make(rng.below(5) as u8, rng.below(2)).0).collect();
                let link = |i: usize, j: usize| {
                    let h = v[j].dup();
                    v[i].slots().unwrap().with(|s| s.push(h));
                };
                for i in 0..n {
                    match form {
                        0 => link(i, (i + 1) % n),
                        1 if i > 0 => link(i - 1, i),
                        2 => link(i, i),
                        _ => (0..rng.below(3)).for_each(|_| link(i, rng.below(n))),
                    }
                }
                v
            }

            fn program(seed: u64) {
                let mut rng = Rng::new(seed);
                let mut held: Vec<Any> = vec![];
                for _ in 0..rng.range(1, 12) {
                    match rng.below(7) {
                        0 | 1 => held.extend(structure(&mut rng)),
                        2 => drop(structure(&mut rng)),
                        3 => {
                            for _ in 0..rng.below(20) {
                                if !held.is_empty() {
                                    drop(held[rng.below(held.len())].dup());
                                }
                            }
                        }
                        4 => {
                            for _ in 0..rng.below(20) {
                                if !held.is_empty() {
                                    let i = rng.below(held.len());
                                    drop(held.swap_remove(i));
                                }
                            }
                        }
                        5 if SYNC => {
                            let n = rng.below(held.len() + 1);
                            let part = Shared(held.split_off(n));
                            let s = rng.next();
                            let all = rng.chance(1, 2);
                            let th = std::thread::spawn(move || {
                                let part = { part };
                                let x = if all { vec![] } else { structure(&mut Rng::new(s)) };
                                drop(part.0);
                                drop(x);
                            });
                            if th.join().is_err() {
                                rep::harness_error("a panic escaped");
                            }
                        }
                        5 => {
                            let s = rng.next();
                            if std::thread::spawn(move || drop(structure(&mut Rng::new(s)))).join().is_err() {
                                rep::harness_error("a panic escaped");
                            }
                        }
                        _ => collect(),
                    }
                }
                drop(held);
                collect();
                collect();
            }

            pub fn run(seed: u64) {
                let mut rng = Rng::new(seed);
                let policy = rng.below(3);
                set_collect_condition([default_collect_condition, never, often][policy]);
                let w = Worker::new();
                let times = 1600;
                // memory in use after each quarter, at worst
                let (worst, values) = w.run(move || {
                    set_collect_condition([default_collect_condition, never, often][policy]);
                    NTH.with(|n| n.set(0));
                    let mut worst = [i64::MIN; 4];
                    let mut values = 0;
                    for i in 0..times {
                        program(seed);
                        values = values.max(obs::born_now());
                        let left = obs::born_now() as u64 - 1 - obs::DIED_NOW.load(std::sync::atomic::Ordering::SeqCst);
                        if left > 0 {
                            rep::violation("complete", &format!("{left} values are left after everything was dropped and collected"));
                        }
                        obs::reset();
                        let q = i * 4 / times;
                        worst[q] = worst[q].max(mem::heap());
                    }
                    (worst, values as i64)
                });
                w.end();
                rep::trace(|| format!("program {seed:x} with condition {policy} {times} times: {values} values, memory in use after each quarter (relative to the first) {:?}", [0, 1, 2, 3].map(|q| worst[q] - worst[0])));
                rep::count("programs_repeated", 1);
                rep::count("repetitions", times as u64);
                rep::distinct_trace();
                let slack = 8192 + 128 * values;
                let more = worst[3] - worst[1];
                if more > slack {
                    rep::violation("growth", &format!("a program with {values} values, run {times} times, left behind {more} bytes more at the end of the second half than at its beginning"));
                }
                rep::maxi("growth_in_bytes", more.max(0) as u64);
            }
        }
    };
}

growth!(u, useq);
growth!(s, sseq);

pub fn run(seed: u64, sync: bool) {
    mem::set_mode(mem::Mode::Off);
    if sync {
        s::run(seed);
    } else {
        u::run(seed);
    }
}
