#![allow(dead_code)]
//! The monitored workloads. See ../../DESIGN.md.

mod auto;
mod conc;
mod deep;
mod exit;
mod grow;
mod mem;
mod mix;
mod obs;
mod flood;
mod pause;
mod pol;
mod rep;
mod rng;
mod sched;
mod shift;
mod sseq;
mod useq;
mod work;
mod zoo;

use rng::Rng;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

static RANDOM: AtomicU64 = AtomicU64::new(1);

/// The standard library seeds its hash maps with this; here it is reproducible.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let x = RANDOM.fetch_add(0x9E37_79B9_7F4A_7C15, Relaxed);
        unsafe { *buf.add(i) = (Rng::new(x).next() >> 24) as u8 };
    }
    len as isize
}

pub struct Args(HashMap<String, String>);

impl Args {
    pub fn num(&self, k: &str, default: u64) -> u64 {
        self.0.get(k).map_or(default, |v| v.parse().unwrap_or_else(|_| rep::harness_error("bad number")))
    }
    pub fn has(&self, k: &str) -> bool {
        self.0.contains_key(k)
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(String::as_str)
    }
}

/// Run executions until time or number is up.
fn drive(a: &Args, mut one: impl FnMut(u64, u64)) {
    let seed = a.num("seed", 1);
    let start = Instant::now();
    let secs = a.num("secs", 10);
    let (first, n) = match a.get("exec") {
        Some(e) => (e.parse().unwrap(), 1),
        None => (0, a.num("n", u64::MAX / 2)),
    };
    for e in first..first + n {
        if start.elapsed() > Duration::from_secs(secs) {
            break;
        }
        rep::SEED.store(seed, Relaxed);
        rep::EXEC.store(e, Relaxed);
        rep::clear_trace();
        obs::reset();
        let x = Rng::of(seed, e).next();
        RANDOM.store(x, SeqCst);
        if a.has("forked") {
            rep::forked(|| one(x, e));
        } else {
            one(x, e);
        }
        rep::count("executions", 1);
    }
}

fn main() {
    let mut it = std::env::args().skip(1);
    let mode = it.next().unwrap_or_default();
    let a = Args(it.map(|s| s.split_once('=').map_or((s.clone(), String::new()), |(k, v)| (k.to_owned(), v.to_owned()))).collect());
    if mode != "deep" {
        rep::install();
    }
    let _ = rep::TOTALS.set(totals);
    rep::set_classes(a.get("classes").unwrap_or("all"));
    rep::VERBOSE.store(a.has("verbose"), Relaxed);
    let modes = [mem::Mode::Guard, mem::Mode::Fill, mem::Mode::Reuse];
    match mode.as_str() {
        "useq" | "sseq" => drive(&a, |x, e| {
            mem::set_mode(modes[a.num("mem", e % 3) as usize]);
            let has = |k: &str| a.has(k) || a.has("mixed") && Rng::of(x, 77).next() >> k.len() & 1 == 1;
            macro_rules! go {
                ($m: ident) => {
                    $m::run(
                        x,
                        &$m::Cfg {
                            borrow: has("borrow"),
                            dtor: has("dtor"),
                            panics: a.has("panics"),
                            visits: a.has("visits"),
                            cond: a.has("cond"),
                            cond_panics: a.has("condpanics"),
                            probe: a.has("probe"),
                            policy: a.get("policy").map(|p| p.parse().unwrap()),
                            big: a.has("big"),
                        },
                    )
                };
            }
            if mode == "useq" {
                go!(useq)
            } else {
                go!(sseq)
            }
        }),
        "conc" => drive(&a, |x, e| {
            mem::set_mode(modes[(e % 3) as usize]);
            conc::run(
                x,
                &conc::Cfg {
                    dtors: a.has("dtor") || a.has("mixed") && e % 4 == 3,
                    own: a.has("own"),
                    busy: a.has("cond"),
                    policy: a.get("policy").map(|p| p.parse().unwrap()),
                    threads: a.num("threads", 0) as usize,
                },
            );
        }),
        "upol" | "spol" => drive(&a, |x, e| {
            mem::set_mode(modes[(e % 3) as usize]);
            pol::run(x, mode == "spol");
        }),
        "uauto" | "sauto" => drive(&a, |x, e| {
            mem::set_mode(if e % 8 == 0 { mem::Mode::Reuse } else { mem::Mode::Off });
            auto::run(x, mode == "sauto", a.num("big", 3000) as usize);
        }),
        "uexit" | "sexit" => drive(&a, |x, e| {
            mem::set_mode(modes[(e % 3) as usize]);
            exit::run(x, mode == "sexit");
        }),
        "umexit" | "smexit" => drive(&a, |x, e| {
            mem::set_mode(modes[(e % 3) as usize]);
            exit::main_exit(x, mode == "smexit");
        }),
        "mix" => drive(&a, |x, e| {
            mem::set_mode(modes[(e % 3) as usize]);
            mix::run(x);
        }),
        "ugrow" | "sgrow" => {
            mem::COUNT.store(true, Relaxed);
            drive(&a, |x, _| grow::run(x, mode == "sgrow"));
        }
        "zoo" => drive(&a, |x, e| {
            mem::set_mode(modes[(e % 3) as usize]);
            zoo::run(x);
        }),
        "pause" => drive(&a, |x, e| {
            mem::set_mode(modes[(e % 3) as usize]);
            pause::run(x);
        }),
        "shift" => drive(&a, |x, e| {
            mem::set_mode(modes[(e % 3) as usize]);
            shift::run(x);
        }),
        "flood" => drive(&a, |x, e| {
            mem::set_mode(modes[(e % 3) as usize]);
            flood::run(x);
        }),
        "deep" => deep::run(a.has("sync"), a.num("n", 1000) as usize),
        _ => rep::harness_error("unknown mode"),
    }
    totals();
    rep::finish();
}

fn totals() {
    rep::count("values_created", obs::BORN.load(Relaxed));
    rep::count("values_destroyed", obs::DIED.load(Relaxed));
    rep::count("traversals", obs::ACCEPTS.load(Relaxed));
    rep::count("blocks_allocated", mem::ALLOCS.load(Relaxed));
    rep::count("blocks_released", mem::FREES.load(Relaxed));
}
