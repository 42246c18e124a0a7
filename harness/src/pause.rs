//! A shared collection which is held up in the middle of a traversal or of a destructor: other
//! threads must be able to go on using handles.

use crate::mem;
use crate::obs;
use crate::rep;
use crate::rng::Rng;
use crate::sched;
use dumpster::sync::{collect, set_collect_condition, CollectInfo, Gc};
use dumpster::{Collectable, Visitor};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::thread::JoinHandle;
use std::time::Duration;

struct Node {
    id: u32,
    can: u64,
    slots: Mutex<Vec<Gc<Node>>>,
}

/// How many events of the collection remain until it is held up.
static FUSE: AtomicU64 = AtomicU64::new(u64::MAX);
static REACHED: AtomicBool = AtomicBool::new(false);
static IN_DTOR: AtomicBool = AtomicBool::new(false);
static OPEN: AtomicBool = AtomicBool::new(true);
static ASK: AtomicBool = AtomicBool::new(false);

thread_local! {
    static COLLECTOR: Cell<bool> = const { Cell::new(false) };
}

/// The collection passes through the code of a value.
fn event(dtor: bool) {
    if !COLLECTOR.with(Cell::get) || OPEN.load(SeqCst) {
        return;
    }
    if FUSE.fetch_sub(1, SeqCst) == 1 {
        IN_DTOR.store(dtor, SeqCst);
        REACHED.store(true, SeqCst);
        while !OPEN.load(SeqCst) {
            std::thread::park();
        }
    }
}

unsafe impl Collectable for Node {
    fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
        obs::ACCEPTS.fetch_add(1, Relaxed);
        event(false);
        self.slots.accept(visitor)
    }
}
impl Drop for Node {
    fn drop(&mut self) {
        obs::dropped(self.id, self.can);
        event(true);
    }
}
impl PartialEq for Node {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}

fn make() -> Gc<Node> {
    let id = obs::fresh();
    let v = Node { id, can: obs::canary(id), slots: Mutex::new(vec![]) };
    mem::track::<Node, _>(move || Gc::new(v), |g| Gc::as_ptr(g) as usize)
}

fn cond(_: &CollectInfo) -> bool {
    COLLECTOR.try_with(Cell::get).unwrap_or(false) && ASK.swap(false, SeqCst)
}

/// Connected values; the handles to all of them.
fn structure(rng: &mut Rng, n: usize) -> Vec<Gc<Node>> {
    let v: Vec<Gc<Node>> = (0..n).map(|_| make()).collect();
    for i in 0..n {
        for _ in 0..rng.range(1, 3) {
            let t = if rng.chance(1, 2) { (i + 1) % n } else { rng.below(n) };
            v[i].slots.lock().unwrap().push(v[t].clone());
        }
    }
    v
}

/// One of the threads that must not be held up.
fn use_handles(rng: &mut Rng, mut pool: Vec<Gc<Node>>, ops: usize) {
    let local = rng.chance(1, 2);
    for _ in 0..ops {
        if pool.is_empty() {
            pool.push(make());
        }
        let i = rng.below(pool.len());
        match rng.below(14) {
            0 => pool.push(make()),
            1 => pool.push(pool[i].clone()),
            2 => pool.extend(Gc::try_clone(&pool[i])),
            3 | 4 => {
                let g = &pool[i];
                obs::check_read(g.id, g.id, g.can);
                if Gc::try_deref(g).is_none() {
                    rep::violation("safety", "a handle in use is dead");
                }
            }
            5 => {
                let j = rng.below(pool.len());
                if Gc::ptr_eq(&pool[i], &pool[j]) != (pool[i] == pool[j]) {
                    rep::violation("safety", "two handles do not agree about what they refer to");
                }
            }
            // the traversal may hold the lock: that is a lock of the program, so only try
            6 | 7 => {
                let h = pool[rng.below(pool.len())].clone();
                if let Ok(mut s) = pool[i].slots.try_lock() {
                    s.push(h);
                };
            }
            8 => {
                let h = pool[i].slots.try_lock().ok().and_then(|mut s| s.pop());
                pool.extend(h);
            }
            9..=11 => drop(pool.swap_remove(i)),
            12 if local => {
                use dumpster::unsync;
                let c = unsync::Gc::new(std::cell::RefCell::new(None::<unsync::Gc<Held>>));
                let h = unsync::Gc::new(Held(std::cell::RefCell::new(vec![]), pool[i].clone()));
                h.0.borrow_mut().push(h.clone());
                *c.borrow_mut() = Some(h);
                drop(c);
                unsync::collect();
            }
            _ => set_collect_condition(cond),
        }
    }
    rep::count("operations_during_a_collection", ops as u64);
}

/// A thread-local value which owns a shared handle.
struct Held(std::cell::RefCell<Vec<dumpster::unsync::Gc<Held>>>, Gc<Node>);
unsafe impl Collectable for Held {
    fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
        self.0.accept(visitor)?;
        self.1.accept(visitor)
    }
}

pub struct Th {
    tid: Arc<AtomicI32>,
    join: JoinHandle<()>,
}

pub fn spawn(f: impl FnOnce() + Send + 'static) -> Th {
    let tid = Arc::new(AtomicI32::new(0));
    let t2 = tid.clone();
    let join = std::thread::Builder::new()
        .spawn(move || {
            t2.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
            f();
        })
        .unwrap_or_else(|_| rep::harness_error("failed to spawn thread"));
    Th { tid, join }
}

/// Wait for all of them, their thread-local variables included; nothing but the collection can hold them up.
pub fn finish(ths: Vec<Th>, class: &str, what: &str) {
    let gone = |t: &Th| {
        let tid = t.tid.load(SeqCst);
        tid != 0 && t.join.is_finished() && !std::path::Path::new(&format!("/proc/self/task/{tid}")).exists()
    };
    let mut seen = (String::new(), 0);
    let mut fast = 0;
    loop {
        let left: Vec<&Th> = ths.iter().filter(|t| !gone(t)).collect();
        if left.is_empty() {
            break;
        }
        fast += 1;
        if fast < 200 {
            std::thread::sleep(Duration::from_micros(50));
            continue;
        }
        std::thread::sleep(Duration::from_millis(100));
        let marks: Vec<(bool, String)> = left.iter().map(|t| sched::asleep(t.tid.load(SeqCst))).collect();
        let mark = format!("{marks:?}");
        if marks.iter().all(|m| m.0) && mark == seen.0 {
            seen.1 += 1;
            if seen.1 > 50 {
                rep::stop(class, &format!("{} threads wait although {what}", left.len()));
            }
        } else {
            seen = (mark, 0);
        }
    }
    for t in ths {
        if t.join.join().is_err() {
            rep::harness_error("a thread panicked");
        }
    }
}

pub fn run(seed: u64) {
    let mut rng = Rng::new(seed);
    set_collect_condition(cond);
    OPEN.store(true, SeqCst);
    REACHED.store(false, SeqCst);
    let n = [1, 2, 5, 20][rng.below(4)];
    let m = rng.range(1, 8);
    let live = structure(&mut rng, n);
    let dead = structure(&mut rng, m);
    let workers = rng.range(1, 3);
    let ops = if rng.chance(1, 40) { 60_000 } else { rng.range(1, 80) };
    let burst = rng.chance(1, 60);
    let fuse = rng.range(1, 3 * (n + m)) as u64;
    let automatic = rng.chance(1, 3);
    let after = rng.chance(1, 2);
    let mut pools: Vec<Vec<Gc<Node>>> = (0..workers).map(|_| (0..rng.below(4)).map(|_| live[rng.below(n)].clone()).collect()).collect();
    // sometimes what the other threads do is all that keeps the structure alive
    let keep = if rng.chance(1, 2) { live } else { drop(live); vec![] };
    rep::trace(|| format!("{n} living and {m} dead values, held up at event {fuse} of the collection (automatic: {automatic}), {workers} threads, {ops} operations, burst {burst}"));
    FUSE.store(u64::MAX, SeqCst);
    ASK.store(false, SeqCst);
    OPEN.store(false, SeqCst);
    let ended = Arc::new(AtomicBool::new(false));
    let e2 = ended.clone();
    // with `after`, the other threads exist before the collection begins
    let go = Arc::new(AtomicBool::new(false));
    let seeds: Vec<u64> = (0..workers).map(|_| rng.next()).collect();
    let start = |pools: &mut Vec<Vec<Gc<Node>>>| -> Vec<Th> {
        pools
            .drain(..)
            .zip(seeds.clone())
            .map(|(p, s)| {
                let go = go.clone();
                spawn(move || {
                    drop(Gc::new(1u8));
                    while !go.load(SeqCst) {
                        std::thread::yield_now();
                    }
                    if burst {
                        let g = Gc::new(7u64);
                        for _ in 0..120_000 {
                            drop(g.clone());
                        }
                        rep::count("bursts_during_a_collection", 1);
                    }
                    use_handles(&mut Rng::new(s), p, ops);
                })
            })
            .collect()
    };
    let mut ths = if after { vec![] } else { start(&mut pools) };
    let c = spawn(move || {
        COLLECTOR.with(|c| c.set(true));
        drop(dead);
        if automatic {
            // something which is handed over, by the end of its thread
            let g = make();
            g.slots.lock().unwrap().push(g.clone());
            let _ = std::thread::spawn(move || drop(g)).join();
            let x = Gc::new(0u8);
            FUSE.store(fuse.min(4), SeqCst);
            ASK.store(true, SeqCst);
            drop(x);
        } else {
            FUSE.store(fuse, SeqCst);
            collect();
        }
        COLLECTOR.with(|c| c.set(false));
        e2.store(true, SeqCst);
    });
    while !REACHED.load(SeqCst) && !ended.load(SeqCst) {
        std::thread::yield_now();
    }
    let held = REACHED.load(SeqCst);
    go.store(true, SeqCst);
    ths.extend(start(&mut pools));
    finish(ths, "stall", "they only use handles while a collection goes on elsewhere");
    if held {
        rep::count(if IN_DTOR.load(SeqCst) { "held_up_in_a_destructor" } else { "held_up_in_a_traversal" }, 1);
        if ended.load(SeqCst) {
            rep::harness_error("the collection was not held up");
        }
        rep::distinct_trace();
    }
    OPEN.store(true, SeqCst);
    c.join.thread().unpark();
    finish(vec![c], "deadlock", "the collection may go on");
    for g in &keep {
        obs::check_read(g.id, g.id, g.can);
    }
    drop(keep);
    collect();
    collect();
    mem::reset();
}
