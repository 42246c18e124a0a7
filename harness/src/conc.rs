//! Concurrent histories of the shared collector under the controlled scheduler.

use crate::mem;
use crate::obs;
use crate::rep;
use crate::rng::Rng;
use crate::sched::{self, Strategy};
use crate::sseq::Any;
use dumpster::sync::{collect, default_collect_condition, set_collect_condition, CollectInfo, Gc};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

/// The part of the reference graph which is certain: a handle is in here from when it surely
/// exists until its owner starts to give it up.
#[derive(Default)]
struct Shadow {
    out: BTreeMap<u32, Vec<u32>>,
    leaf: BTreeSet<u32>,
    roots: BTreeMap<u32, u32>,
    /// only ever known to one thread
    own: BTreeSet<u32>,
}

impl Shadow {
    fn root_add(&mut self, id: u32) {
        *self.roots.entry(id).or_default() += 1;
    }
    fn root_del(&mut self, id: u32) {
        let e = self.roots.get_mut(&id).unwrap();
        *e -= 1;
        if *e == 0 {
            self.roots.remove(&id);
        }
    }
    fn reach(&self) -> HashSet<u32> {
        let mut seen = HashSet::new();
        let mut todo: Vec<u32> = self.roots.keys().copied().collect();
        while let Some(x) = todo.pop() {
            if seen.insert(x) {
                if let Some(o) = self.out.get(&x) {
                    todo.extend(o);
                }
            }
        }
        seen
    }
    fn handles(&self) -> usize {
        self.roots.values().map(|x| *x as usize).sum::<usize>()
            + self.out.iter().filter(|(i, _)| !obs::is_dropped(**i)).map(|(_, o)| o.len()).sum::<usize>()
    }
}

static SH: Mutex<Option<Shadow>> = Mutex::new(None);
static MAIL: Mutex<Vec<(Any, u32)>> = Mutex::new(Vec::new());
static LEFT: Mutex<Vec<(Any, u32)>> = Mutex::new(Vec::new());
static POLICY: AtomicU32 = AtomicU32::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static LAST_EXISTING: AtomicUsize = AtomicUsize::new(0);
static DTORS: AtomicBool = AtomicBool::new(false);
static BUSY: AtomicBool = AtomicBool::new(false);
static DSEED: AtomicU64 = AtomicU64::new(0);
static COLLECTS: AtomicU64 = AtomicU64::new(0);
static OVERLAPS: AtomicU64 = AtomicU64::new(0);
static IN_COLLECT: AtomicU32 = AtomicU32::new(0);
static KILLED: AtomicU64 = AtomicU64::new(0);

fn sh<R>(f: impl FnOnce(&mut Shadow) -> R) -> R {
    let mut g = SH.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Shadow::default))
}

fn active() -> bool {
    SH.lock().unwrap_or_else(|e| e.into_inner()).is_some()
}

fn cond(info: &CollectInfo) -> bool {
    LAST_EXISTING.store(info.n_gcs_existing(), Relaxed);
    let n = CALLS.fetch_add(1, Relaxed);
    if BUSY.load(Relaxed) && !IN_COND.with(|c| c.replace(true)) {
        busy(n);
        IN_COND.with(|c| c.set(false));
    }
    match POLICY.load(Relaxed) {
        0 => false,
        1 => true,
        2 => n % 3 == 2,
        3 => n % 7 == 6,
        _ => default_collect_condition(info),
    }
}

/// A condition uses the collector.
fn busy(n: u64) {
    let mut rng = Rng::of(DSEED.load(Relaxed), n ^ 0xc0d);
    let act = rng.below(12);
    if act > 5 {
        return;
    }
    rep::trace(|| format!("a condition acts ({act})"));
    rep::count("acts_of_conditions", 1);
    match act {
        0 | 1 => {
            collect_op();
            rep::count("collections_inside_conditions", 1);
        }
        2 => {
            // garbage of its own
            let (h, t) = new_value(&mut rng, 1 << 40);
            let (k, u) = new_value(&mut rng, 1 << 40);
            for (a, b, ta, tb) in [(&h, &k, t, u), (&k, &h, u, t)] {
                let x = b.dup();
                a.slots().unwrap().with(|v| {
                    v.push(x);
                    sh(|s| s.out.get_mut(&ta).unwrap().push(tb));
                });
            }
            give_up(h, t);
            give_up(k, u);
            rep::count("values_made_by_conditions", 2);
        }
        3 => {
            let (h, t) = new_value(&mut rng, 1);
            give_up(h, t);
            rep::count("values_made_by_conditions", 1);
        }
        4 => {
            let v = new_value(&mut rng, 3);
            MAIL.lock().unwrap().push(v);
            rep::count("values_made_by_conditions", 1);
        }
        _ => {
            let r = MAIL.lock().unwrap().pop();
            if let Some((h, id)) = r {
                let (got, can) = h.id_can();
                obs::check_read(got, id, can);
                let x = h.dup();
                drop(h);
                give_up(x, id);
            }
        }
    }
}

thread_local! {
    static IN_COND: Cell<bool> = const { Cell::new(false) };
    static IN_DTOR: Cell<bool> = const { Cell::new(false) };
    static KEEP: RefCell<Vec<(Any, u32)>> = const { RefCell::new(Vec::new()) };
}

struct KeepGuard;
impl Drop for KeepGuard {
    fn drop(&mut self) {
        // handles kept in a thread-local variable are dropped at thread exit
        for (h, id) in LATE.with(|l| std::mem::take(&mut *l.borrow_mut())) {
            sh(|s| s.root_del(id));
            drop(h);
            rep::count("handles_dropped_at_thread_exit", 1);
        }
    }
}
thread_local! {
    static LATE: std::mem::ManuallyDrop<RefCell<Vec<(Any, u32)>>> = const { std::mem::ManuallyDrop::new(RefCell::new(Vec::new())) };
    static LATE_GUARD: KeepGuard = const { KeepGuard };
}

/// A destructor runs.
pub fn on_drop(id: u32, slots: &mut Vec<Any>) {
    if !active() {
        return;
    }
    if !sched::LOOSE.load(Relaxed) && sh(|s| s.reach().contains(&id)) {
        rep::violation("safety", &format!("value {id} is destroyed while still reachable"));
    }
    KILLED.fetch_add(1, Relaxed);
    sched::point(21);
    if !DTORS.load(Relaxed) || IN_DTOR.with(Cell::get) {
        return;
    }
    IN_DTOR.with(|d| d.set(true));
    let mut rng = Rng::of(DSEED.load(Relaxed), u64::from(id));
    let live: Vec<usize> = (0..slots.len()).filter(|i| slots[*i].try_id_can().is_some()).collect();
    rep::count("dead_handles_seen", (slots.len() - live.len()) as u64);
    for i in &live {
        let (t, can) = slots[*i].try_id_can().unwrap();
        if can != obs::canary(t) || obs::is_dropped(t) {
            rep::violation("dead", &format!("a handle inside value {id}, being destroyed, is live but its target is destroyed"));
        }
    }
    match rng.below(7) {
        0 => collect_op(),
        1 => {
            let (h, t) = Any::make(0, 0);
            sh(|s| s.out.insert(t, vec![]));
            h.slots().unwrap().with(|v| v.push(h.dup()));
            sh(|s| s.out.get_mut(&t).unwrap().push(t));
            drop(h);
        }
        2 if !live.is_empty() => {
            // let a live handle escape
            let h = slots[live[rng.below(live.len())]].dup();
            let t = h.id_can().0;
            if sh(|s| s.own.contains(&t)) {
                drop(h);
                IN_DTOR.with(|d| d.set(false));
                return;
            }
            sh(|s| s.root_add(t));
            MAIL.lock().unwrap().push((h, t));
            rep::count("handles_moved_out_by_destructors", 1);
        }
        3 if !live.is_empty() => drop(slots[live[rng.below(live.len())]].dup()),
        4 => {
            let (h, t) = Any::make(5, 0);
            sh(|s| {
                s.out.insert(t, vec![]);
                s.leaf.insert(t);
            });
            drop(h);
        }
        _ => {}
    }
    IN_DTOR.with(|d| d.set(false));
}

fn collect_op() {
    COLLECTS.fetch_add(1, Relaxed);
    if IN_COLLECT.fetch_add(1, Relaxed) > 0 {
        OVERLAPS.fetch_add(1, Relaxed);
    }
    collect();
    IN_COLLECT.fetch_sub(1, Relaxed);
}

struct Ctx {
    me: usize,
    /// mostly collects
    sweeper: bool,
    /// makes garbage nobody else knows of
    own: bool,
    roots: Vec<(Any, u32)>,
    rng: Rng,
}

fn new_value(rng: &mut Rng, leaf_of: usize) -> (Any, u32) {
    let kind = if rng.chance(1, leaf_of) {
        5
    } else if cfg!(feature = "unsized") {
        crate::sseq::some_kind(rng)
    } else {
        [0, 0, 1, 2, 3][rng.below(5)]
    };
    let (h, id) = Any::make(kind, rng.below(2));
    sh(|s| {
        s.out.insert(id, vec![]);
        if kind == 5 {
            s.leaf.insert(id);
        }
        s.root_add(id);
    });
    (h, id)
}

fn give_up(h: Any, id: u32) {
    sh(|s| s.root_del(id));
    drop(h);
}

impl Ctx {
    fn pick(&mut self) -> Option<usize> {
        (!self.roots.is_empty()).then(|| self.rng.below(self.roots.len()))
    }
    fn pick_node(&mut self) -> Option<usize> {
        for _ in 0..3 {
            let i = self.pick()?;
            if !matches!(self.roots[i].0, Any::L(_)) {
                return Some(i);
            }
        }
        None
    }
    fn t(&self, f: impl FnOnce() -> String) {
        rep::trace(|| format!("T{} {}", self.me, f()));
    }

    /// Values which no other thread ever has a handle to become garbage, and a collection is asked for.
    fn own_garbage(&mut self) {
        let n = self.rng.range(1, 4);
        let v: Vec<(Any, u32)> = (0..n).map(|_| new_value(&mut self.rng, 12)).collect();
        sh(|s| s.own.extend(v.iter().map(|x| x.1)));
        let store = |a: usize, h: Any, t: u32| {
            let Some(sl) = v[a].0.slots() else {
                give_up(h, t);
                return;
            };
            sl.with(|x| {
                x.push(h);
                sh(|s| {
                    s.root_del(t);
                    s.out.get_mut(&v[a].1).unwrap().push(t);
                });
            });
        };
        for _ in 0..self.rng.range(1, 2 * n) {
            let (a, b) = (self.rng.below(n), self.rng.below(n));
            let h = v[b].0.dup();
            sh(|s| s.root_add(v[b].1));
            store(a, h, v[b].1);
        }
        if let (Some(i), true) = (self.pick(), self.rng.chance(1, 3)) {
            // with a handle to something others use
            let t = self.roots[i].1;
            let h = self.roots[i].0.dup();
            sh(|s| s.root_add(t));
            store(self.rng.below(n), h, t);
        }
        let ids: Vec<u32> = v.iter().map(|x| x.1).collect();
        self.t(|| format!("garbage of its own: {ids:?}, then collect"));
        for (h, id) in v {
            give_up(h, id);
        }
        let pending = ids.iter().filter(|i| !obs::is_dropped(**i)).count();
        collect_op();
        rep::count("own_garbage_at_collections", pending as u64);
        let left: Vec<u32> = ids.into_iter().filter(|i| !obs::is_dropped(*i)).collect();
        if !left.is_empty() {
            rep::violation("own", &format!("values {left:?}, which no other thread ever knew of, are unreachable but still there when the collection returns"));
        }
        self.t(|| "collected".into());
    }

    fn step(&mut self) {
        sched::point(22);
        if self.own && self.rng.chance(1, 3) {
            self.own_garbage();
            return;
        }
        match if self.sweeper && self.rng.chance(3, 4) { 23 } else { self.rng.below(33) } {
            30..=32 => {
                // follow a stored handle, then let go of, or put away, the handle it was found through
                let Some(a) = self.pick_node() else { return };
                let ta = self.roots[a].1;
                let r = self.rng.next() as usize;
                let take = self.rng.chance(1, 3);
                let got = self.roots[a].0.slots().unwrap().with(|v| {
                    if v.is_empty() {
                        return None;
                    }
                    let k = r % v.len();
                    let h = if take { v.swap_remove(k) } else { v[k].dup() };
                    let t = sh(|s| {
                        let o = s.out.get_mut(&ta).unwrap();
                        let t = if take { o.swap_remove(k) } else { o[k] };
                        s.root_add(t);
                        t
                    });
                    Some((h, t))
                });
                let Some((h, t)) = got else { return };
                let (ha, _) = self.roots.swap_remove(a);
                if h.slots().is_some() && self.rng.chance(2, 3) {
                    self.t(|| format!("{} {t} out of {ta}, and move the handle to {ta} into it", if take { "take" } else { "clone" }));
                    h.slots().unwrap().with(|v| {
                        v.push(ha);
                        sh(|s| {
                            s.root_del(ta);
                            s.out.get_mut(&t).unwrap().push(ta);
                        });
                    });
                } else {
                    self.t(|| format!("{} {t} out of {ta}, and drop the handle to {ta}", if take { "take" } else { "clone" }));
                    give_up(ha, ta);
                }
                self.roots.push((h, t));
            }
            0..=1 => {
                let (h, id) = new_value(&mut self.rng, 6);
                self.t(|| format!("new {id}"));
                self.roots.push((h, id));
            }
            2..=4 => {
                let Some(i) = self.pick() else { return };
                let id = self.roots[i].1;
                self.t(|| format!("clone {id}"));
                let h = self.roots[i].0.dup();
                sh(|s| s.root_add(id));
                self.roots.push((h, id));
            }
            5..=9 => {
                let Some(i) = self.pick() else { return };
                let (h, id) = self.roots.swap_remove(i);
                self.t(|| format!("drop {id}"));
                give_up(h, id);
                self.t(|| format!("dropped {id}"));
            }
            10..=13 => {
                // store
                let (Some(a), Some(b)) = (self.pick_node(), self.pick()) else { return };
                let (ta, tb) = (self.roots[a].1, self.roots[b].1);
                let mv = a != b && self.rng.chance(1, 2);
                self.t(|| format!("store {ta} -> {tb}{}", if mv { " (moved)" } else { "" }));
                let put = |ha: &Any, h: Any| {
                    ha.slots().unwrap().with(|v| {
                        v.push(h);
                        sh(|s| {
                            s.root_del(tb);
                            s.out.get_mut(&ta).unwrap().push(tb);
                        });
                    });
                };
                if mv {
                    let (h, _) = self.roots.swap_remove(b);
                    let a = if a == self.roots.len() { b } else { a };
                    put(&self.roots[a].0, h);
                } else {
                    let h = self.roots[b].0.dup();
                    sh(|s| s.root_add(tb));
                    put(&self.roots[a].0, h);
                }
            }
            14..=16 => {
                // remove and drop, under the lock or after
                let Some(a) = self.pick_node() else { return };
                let ta = self.roots[a].1;
                let inside = self.rng.chance(1, 2);
                let r = self.rng.next() as usize;
                self.t(|| format!("remove from {ta}{}", if inside { " under the lock" } else { "" }));
                let got = self.roots[a].0.slots().unwrap().with(|v| {
                    if v.is_empty() {
                        return None;
                    }
                    let k = r % v.len();
                    let h = v.swap_remove(k);
                    let t = sh(|s| s.out.get_mut(&ta).unwrap().swap_remove(k));
                    if inside {
                        drop(h);
                        return None;
                    }
                    sh(|s| s.root_add(t));
                    Some((h, t))
                });
                if let Some((h, t)) = got {
                    give_up(h, t);
                }
            }
            17..=18 => {
                // take out
                let Some(a) = self.pick_node() else { return };
                let ta = self.roots[a].1;
                let r = self.rng.next() as usize;
                let got = self.roots[a].0.slots().unwrap().with(|v| {
                    if v.is_empty() {
                        return None;
                    }
                    let k = r % v.len();
                    let h = v.swap_remove(k);
                    let t = sh(|s| {
                        let t = s.out.get_mut(&ta).unwrap().swap_remove(k);
                        s.root_add(t);
                        t
                    });
                    Some((h, t))
                });
                self.t(|| format!("take {:?} from {ta}", got.as_ref().map(|x| x.1)));
                self.roots.extend(got);
            }
            19..=20 => {
                // clone something stored
                let Some(a) = self.pick_node() else { return };
                let ta = self.roots[a].1;
                let r = self.rng.next() as usize;
                self.t(|| format!("clone out of {ta}"));
                let got = self.roots[a].0.slots().unwrap().with(|v| {
                    if v.is_empty() {
                        return None;
                    }
                    let k = r % v.len();
                    let h = v[k].dup();
                    let t = sh(|s| {
                        let t = s.out[&ta][k];
                        s.root_add(t);
                        t
                    });
                    Some((h, t))
                });
                self.roots.extend(got);
            }
            21..=22 => {
                // look through a handle, and one level deeper
                let Some(i) = self.pick() else { return };
                let id = self.roots[i].1;
                let (got, can) = self.roots[i].0.id_can();
                obs::check_read(got, id, can);
                if let Some(sl) = self.roots[i].0.slots() {
                    sl.with(|v| {
                        for (k, h) in v.iter().enumerate().take(2) {
                            let t = sh(|s| s.out[&id][k]);
                            let (got, can) = h.id_can();
                            obs::check_read(got, t, can);
                        }
                    });
                }
                rep::count("reads", 1);
            }
            23..=25 => {
                self.t(|| "collect".into());
                collect_op();
                self.t(|| "collected".into());
            }
            26 => {
                // send
                let Some(i) = self.pick() else { return };
                let r = self.roots.swap_remove(i);
                self.t(|| format!("send {}", r.1));
                MAIL.lock().unwrap().push(r);
            }
            27 => {
                let r = {
                    let mut m = MAIL.lock().unwrap();
                    let n = m.len();
                    (n > 0).then(|| m.swap_remove(self.rng.below(n)))
                };
                self.t(|| format!("receive {:?}", r.as_ref().map(|x| x.1)));
                self.roots.extend(r);
            }
            28 => {
                // exchange the contents of two values
                let (Some(a), Some(b)) = (self.pick_node(), self.pick_node()) else { return };
                let (ta, tb) = (self.roots[a].1, self.roots[b].1);
                if ta == tb {
                    return;
                }
                self.t(|| format!("swap {ta} {tb}"));
                let (lo, hi) = if ta < tb { (a, b) } else { (b, a) };
                let (tl, th) = (ta.min(tb), ta.max(tb));
                let (sl, s2) = (self.roots[lo].0.slots().unwrap(), self.roots[hi].0.slots().unwrap());
                sl.with(|x| {
                    s2.with(|y| {
                        std::mem::swap(x, y);
                        sh(|s| {
                            let v = std::mem::take(s.out.get_mut(&tl).unwrap());
                            let w = std::mem::replace(s.out.get_mut(&th).unwrap(), v);
                            *s.out.get_mut(&tl).unwrap() = w;
                        });
                    })
                });
            }
            _ => {
                // overwrite in place
                let (Some(a), Some(b)) = (self.pick_node(), self.pick()) else { return };
                let (ta, tb) = (self.roots[a].1, self.roots[b].1);
                let r = self.rng.next() as usize;
                let h = self.roots[b].0.dup();
                sh(|s| s.root_add(tb));
                self.t(|| format!("overwrite in {ta} with {tb}"));
                self.roots[a].0.slots().unwrap().with(|v| {
                    if v.is_empty() {
                        v.push(h);
                        sh(|s| {
                            s.root_del(tb);
                            s.out.get_mut(&ta).unwrap().push(tb);
                        });
                        return;
                    }
                    let k = r % v.len();
                    let old = std::mem::replace(&mut v[k], h);
                    sh(|s| {
                        s.root_del(tb);
                        s.out.get_mut(&ta).unwrap()[k] = tb;
                    });
                    drop(old);
                });
            }
        }
    }
}

fn on_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| s.spawn(f).join()).unwrap_or_else(|_| rep::harness_error("a panic escaped"))
}

/// Collect twice; then nothing unreachable may be left.
fn settle(what: &str) {
    let missing = || -> Vec<u32> {
        sh(|s| {
            let r = s.reach();
            s.out.keys().copied().filter(|i| !r.contains(i) && !obs::is_dropped(*i)).collect()
        })
    };
    let before = missing().len() as u64;
    rep::count("garbage_at_quiescence", before);
    on_thread(collect);
    if !missing().is_empty() {
        rep::count("second_collections_needed", 1);
        on_thread(collect);
    }
    // destructors may have produced more garbage, and that may repeat
    if DTORS.load(Relaxed) {
        DTORS.store(false, Relaxed);
        on_thread(collect);
        on_thread(collect);
        let m = MAIL.lock().unwrap().drain(..).collect::<Vec<_>>();
        on_thread(move || {
            for (h, id) in m {
                give_up(h, id);
            }
            collect();
            collect();
        });
    }
    let left = missing();
    if !left.is_empty() {
        rep::violation("complete", &format!("values {left:?} are unreachable but survive two collections ({what})"));
    }
    if mem::mode() != mem::Mode::Off && mem::UNTRACKED.load(Relaxed) == 0 {
        let n = sh(|s| s.out.keys().filter(|i| !obs::is_dropped(**i)).count());
        let m = mem::LIVE.load(Relaxed);
        if m > n {
            rep::violation("complete", &format!("memory of {m} values is allocated but only {n} exist ({what})"));
        }
        if m != n {
            rep::violation("once", &format!("memory of {m} values is allocated but {n} exist ({what})"));
        }
    }
}

fn probe(base: usize, what: &str) {
    let p = POLICY.swap(0, Relaxed);
    on_thread(|| drop(Gc::new(1u8)));
    POLICY.store(p, Relaxed);
    let got = LAST_EXISTING.load(Relaxed);
    let want = base + sh(|s| s.handles());
    if got != want {
        rep::violation("count", &format!("the condition is told that {got} handles exist, but there are {want} ({what})"));
    }
    rep::count("counter_probes", 1);
}

pub struct Cfg {
    pub dtors: bool,
    pub own: bool,
    /// conditions use the collector
    pub busy: bool,
    pub policy: Option<u32>,
    pub threads: usize,
}

pub fn run(seed: u64, cfg: &Cfg) {
    let mut rng = Rng::new(seed);
    #[cfg(dumpster_vp)]
    dumpster::vp::set_hook(sched::hook);
    set_collect_condition(cond);
    *SH.lock().unwrap() = None;
    POLICY.store(0, SeqCst);
    CALLS.store(0, SeqCst);
    on_thread(|| drop(Gc::new(1u8)));
    let base = LAST_EXISTING.load(Relaxed);
    *SH.lock().unwrap() = Some(Shadow::default());
    DTORS.store(false, SeqCst);
    DSEED.store(rng.next(), SeqCst);
    // few operations, most of them collections, on suspected values
    let focus = rng.chance(1, 3);
    let n = if cfg.threads > 0 { cfg.threads } else { [2, 2, 2, 3, 3, 4][rng.below(6)] };
    // a small graph, shared between the threads
    let (setup, mut parts) = {
        let mut r = Rng::new(rng.next());
        on_thread(move || {
            let mut c = Ctx { me: 9, sweeper: false, own: false, roots: vec![], rng: Rng::new(r.next()) };
            for _ in 0..r.range(1, 4) {
                let v = new_value(&mut r, 4);
                c.t(|| format!("new {}", v.1));
                c.roots.push(v);
            }
            for _ in 0..r.range(0, 6) {
                let (Some(a), Some(b)) = (c.pick_node(), c.pick()) else { break };
                let (ta, tb) = (c.roots[a].1, c.roots[b].1);
                let h = c.roots[b].0.dup();
                c.roots[a].0.slots().unwrap().with(|v| v.push(h));
                sh(|s| s.out.get_mut(&ta).unwrap().push(tb));
                c.t(|| format!("store {ta} -> {tb}"));
            }
            let mut parts: Vec<Vec<(Any, u32)>> = (0..n).map(|_| vec![]).collect();
            for (h, id) in &c.roots {
                for (i, p) in parts.iter_mut().enumerate() {
                    if r.chance(2, 3) {
                        let x = h.dup();
                        sh(|s| s.root_add(*id));
                        p.push((x, *id));
                        c.t(|| format!("handle to {id} for T{i}"));
                    }
                }
            }
            if focus {
                for (h, _) in &c.roots {
                    if r.chance(3, 4) {
                        drop(h.dup());
                    }
                }
            }
            // the originals stay, go to a thread, or go away
            let mut keep = vec![];
            for (h, id) in std::mem::take(&mut c.roots) {
                match r.below(4) {
                    0 => keep.push((h, id)),
                    1 => give_up(h, id),
                    _ => {
                        let t = r.below(n);
                        c.t(|| format!("original handle to {id} for T{t}"));
                        parts[t].push((h, id));
                    }
                }
            }
            if !focus && r.chance(1, 2) {
                // suspicions from here are already handed over
                collect();
                c.t(|| "collect".into());
            }
            (keep, parts)
        })
    };
    LEFT.lock().unwrap().extend(setup);
    POLICY.store(cfg.policy.unwrap_or_else(|| [0, 0, 0, 1, 2, 3, 4][rng.below(7)]), SeqCst);
    DTORS.store(cfg.dtors, SeqCst);
    BUSY.store(cfg.busy, SeqCst);
    let mut bodies: Vec<sched::Body> = vec![];
    let mut total = 0;
    for me in 0..n {
        let roots = std::mem::take(&mut parts[me]);
        let mut r = Rng::new(rng.next());
        let own = cfg.own && (me == 0 || r.chance(1, 2));
        let sweeper = focus && me != n - 1 && r.chance(3, 4);
        let ops = match (focus, sweeper) {
            (true, true) => r.range(1, 3),
            (true, false) => r.range(1, 4),
            _ => r.range(2, 9),
        };
        total += ops;
        bodies.push(Box::new(move || {
            let early = r.chance(1, 2);
            if early {
                LATE_GUARD.with(|_| ()); // destroyed after the collector's own thread-local state
            }
            let mut c = Ctx { me, sweeper, own, roots, rng: Rng::new(r.next()) };
            for _ in 0..ops {
                c.step();
            }
            let fate = r.below(4);
            for (h, id) in std::mem::take(&mut c.roots) {
                match if fate == 3 { r.below(3) } else { fate } {
                    0 => {
                        c.t(|| format!("drop {id} at the end"));
                        give_up(h, id);
                    }
                    1 => LEFT.lock().unwrap().push((h, id)),
                    _ => LATE.with(|l| l.borrow_mut().push((h, id))),
                }
            }
            if !early {
                LATE_GUARD.with(|_| ());
            }
            c.t(|| "end".into());
        }));
    }
    let strategy = Strategy::pick(&mut rng, n, 20 * total as u64 + 30);
    rep::trace(|| format!("{strategy:?} policy {}", POLICY.load(Relaxed)));
    let k0 = KILLED.load(Relaxed);
    let out = sched::run(bodies, strategy, &mut rng);
    BUSY.store(false, SeqCst);
    let killed = KILLED.load(Relaxed) - k0;
    rep::count("schedule_points", out.steps);
    rep::count("thread_switches", out.switches);
    rep::count("destroyed_while_concurrent", killed);
    rep::count("concurrent_collect_calls", COLLECTS.swap(0, Relaxed));
    rep::count("overlapping_collect_calls", OVERLAPS.swap(0, Relaxed));
    rep::count("thread_operations", total as u64);
    if killed > 0 && out.switches > 2 {
        rep::distinct(out.hash ^ seed);
        rep::sample(rep::trace_text);
    }
    rep::trace(|| "all threads have ended".into());
    // values without handles inside must be gone by now if nothing refers to them
    let stale: Vec<u32> = sh(|s| {
        let mut used: BTreeSet<u32> = s.roots.keys().copied().collect();
        for (i, o) in &s.out {
            if !obs::is_dropped(*i) {
                used.extend(o);
            }
        }
        s.leaf.iter().copied().filter(|i| !used.contains(i) && !obs::is_dropped(*i)).collect()
    });
    if !stale.is_empty() {
        rep::violation("prompt", &format!("values {stale:?} contain no handles and have none left, but still exist when all threads have ended"));
    }
    rep::count("leaf_values", sh(|s| s.leaf.len() as u64));
    probe(base, "after the threads ended");
    settle("after the threads ended");
    probe(base, "after collecting");
    // everything still held must still be intact
    let mut left: Vec<(Any, u32)> = std::mem::take(&mut *LEFT.lock().unwrap());
    left.append(&mut MAIL.lock().unwrap());
    for (h, id) in &left {
        let (got, can) = h.id_can();
        obs::check_read(got, *id, can);
    }
    on_thread(move || {
        for (h, id) in left {
            give_up(h, id);
        }
    });
    settle("after dropping everything");
    probe(base, "in the end");
    let alive = sh(|s| s.out.keys().filter(|i| !obs::is_dropped(**i)).count());
    if alive > 0 {
        rep::violation("complete", "values are left in the end");
    }
    *SH.lock().unwrap() = None;
    let n = mem::reset();
    let untracked = mem::UNTRACKED.swap(0, Relaxed);
    if n > 0 && untracked == 0 {
        rep::violation("once", "memory is left in the end");
    }
    set_collect_condition(default_collect_condition);
}
