//! Destructors which drop very many handles, so that the collector's own limits are reached inside of
//! collections, on several threads at once.

use crate::mem;
use crate::obs;
use crate::pause::{finish, spawn};
use crate::rep;
use crate::rng::Rng;
use dumpster::sync::{collect, set_collect_condition, CollectInfo, Gc};
use dumpster::{Collectable, Visitor};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

struct Knot {
    id: u32,
    can: u64,
    slots: Mutex<Vec<Gc<Knot>>>,
    /// handles which the destructor drops, not known to the collector until then
    hoard: Hoard,
    what: u8,
}

/// Handles which are dropped by the drop glue, and are visited.
struct Hoard {
    leaves: Vec<Gc<u64>>,
    knots: Vec<Gc<Knot>>,
}

unsafe impl Collectable for Knot {
    fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
        obs::ACCEPTS.fetch_add(1, Relaxed);
        self.slots.accept(visitor)?;
        self.hoard.leaves.accept(visitor)?;
        self.hoard.knots.accept(visitor)
    }
}

/// Left to drop, at most, by each destructor
const MANY: usize = 100_001;
static EVERY: AtomicUsize = AtomicUsize::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);
static DROPS: AtomicU64 = AtomicU64::new(0);

impl Drop for Knot {
    fn drop(&mut self) {
        obs::dropped(self.id, self.can);
        let leaf = Gc::new(1u64);
        match self.what {
            1 => {
                for _ in 0..MANY {
                    drop(leaf.clone());
                }
                DROPS.fetch_add(MANY as u64, Relaxed);
            }
            2 => {
                // more suspects than fit
                let me = knot(0, Hoard { leaves: vec![], knots: vec![] });
                me.slots.lock().unwrap().push(me.clone());
                for _ in 0..2000 {
                    drop(me.clone());
                }
                collect();
                DROPS.fetch_add(2000, Relaxed);
            }
            3 => {
                for _ in 0..MANY {
                    drop(leaf.clone());
                }
                collect();
                DROPS.fetch_add(MANY as u64, Relaxed);
            }
            _ => (),
        }
    }
}

fn knot(what: u8, hoard: Hoard) -> Gc<Knot> {
    let id = obs::fresh();
    let v = Knot { id, can: obs::canary(id), slots: Mutex::new(vec![]), hoard, what };
    mem::track::<Knot, _>(move || Gc::new(v), |g| Gc::as_ptr(g) as usize)
}

fn cond(_: &CollectInfo) -> bool {
    let n = EVERY.load(Relaxed);
    n > 0 && CALLS.fetch_add(1, Relaxed) % n == n - 1
}

pub fn run(seed: u64) {
    let mut rng = Rng::new(seed);
    set_collect_condition(cond);
    EVERY.store([0, 0, 50, 5000][rng.below(4)], SeqCst);
    let threads = rng.range(1, 3);
    let live = knot(0, Hoard { leaves: vec![], knots: vec![] });
    live.slots.lock().unwrap().push(live.clone());
    let mut text = format!("{threads} threads, a collection every {} drops", EVERY.load(SeqCst));
    let ths = (0..threads)
        .map(|_| {
            let mut rng = Rng::new(rng.next());
            let n = rng.range(1, 4);
            let plan: Vec<(u8, usize, usize, bool)> = (0..n)
                .map(|_| {
                    let what = rng.below(4) as u8;
                    let leaves = if rng.chance(1, 3) { MANY } else { rng.below(20) };
                    let knots = if rng.chance(1, 4) { MANY } else { rng.below(20) };
                    (what, leaves, knots, rng.chance(2, 3))
                })
                .collect();
            text += &format!("; {plan:?}");
            let live = live.clone();
            spawn(move || {
                for (what, leaves, knots, ask) in plan {
                    let leaf = Gc::new(5u64);
                    let hoard = Hoard { leaves: (0..leaves).map(|_| leaf.clone()).collect(), knots: (0..knots).map(|_| live.clone()).collect() };
                    drop(leaf);
                    let k = knot(what, hoard);
                    k.slots.lock().unwrap().push(k.clone());
                    if rng.chance(1, 2) {
                        let other = knot(0, Hoard { leaves: vec![], knots: vec![k.clone()] });
                        k.slots.lock().unwrap().push(other);
                    }
                    drop(k);
                    DROPS.fetch_add((leaves + knots) as u64, Relaxed);
                    // otherwise left for the end of the thread, or for another thread
                    if ask {
                        collect();
                    }
                    obs::check_read(live.id, live.id, live.can);
                }
            })
        })
        .collect();
    rep::trace(|| text);
    finish(ths, "deadlock", "nothing but collections can hold them up");
    let main = spawn(|| {
        collect();
        collect();
        collect();
    });
    finish(vec![main], "deadlock", "it only asks for a collection");
    obs::check_read(live.id, live.id, live.can);
    rep::count("drops_of_hoarded_handles", DROPS.swap(0, Relaxed));
    rep::distinct_trace();
    EVERY.store(0, SeqCst);
    let main = spawn(move || {
        drop(live);
        collect();
        collect();
    });
    finish(vec![main], "deadlock", "it only asks for a collection");
    let left = obs::born_now() as u64 - 1 - obs::DIED_NOW.load(SeqCst);
    if left > 0 {
        rep::violation("complete", &format!("{left} values are left after everything was dropped and collected"));
    }
    mem::reset();
}
