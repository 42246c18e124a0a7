//! Handles change places while the shared collector looks at them: values have several parts with
//! locks of their own, so a handle may be seen in both of its places or in none, and references
//! obtained before a collection are used during it.

use crate::mem;
use crate::obs;
use crate::rep;
use crate::rng::Rng;
use crate::sched::{self, Strategy};
use dumpster::sync::{collect, default_collect_condition, set_collect_condition, CollectInfo, Gc};
use dumpster::{Collectable, Visitor};
use std::borrow::Borrow;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Mutex, RwLock, TryLockError, TryLockResult};

const PARTS: usize = 3;

enum Part {
    M(Mutex<Option<Gc<Val>>>),
    W(RwLock<Option<Gc<Val>>>),
}

struct Val {
    id: u32,
    can: u64,
    parts: [Part; PARTS],
}

unsafe impl Collectable for Val {
    fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
        obs::ACCEPTS.fetch_add(1, Relaxed);
        for p in &self.parts {
            sched::point(20);
            match p {
                Part::M(m) => m.accept(visitor)?,
                Part::W(m) => m.accept(visitor)?,
            }
        }
        sched::point(20);
        Ok(())
    }
}

impl Drop for Val {
    fn drop(&mut self) {
        obs::dropped(self.id, self.can);
        if !sched::LOOSE.load(Relaxed) && sh(|s| s.reach().contains(&self.id)) {
            rep::violation("safety", &format!("value {} is destroyed while still reachable", self.id));
        }
        KILLED.fetch_add(1, Relaxed);
        sched::point(21);
    }
}

/// What is certain about the reference graph, as in `conc`.
#[derive(Default)]
struct Shadow {
    out: BTreeMap<u32, [u32; PARTS]>,
    roots: BTreeMap<u32, u32>,
}

impl Shadow {
    fn root_add(&mut self, id: u32) {
        *self.roots.entry(id).or_default() += 1;
    }
    fn root_del(&mut self, id: u32) {
        let e = self.roots.get_mut(&id).unwrap();
        *e -= 1;
        if *e == 0 {
            self.roots.remove(&id);
        }
    }
    fn reach(&self) -> HashSet<u32> {
        let mut seen = HashSet::new();
        let mut todo: Vec<u32> = self.roots.keys().copied().collect();
        while let Some(x) = todo.pop() {
            if x != 0 && seen.insert(x) {
                todo.extend(self.out[&x]);
            }
        }
        seen
    }
}

static SH: Mutex<Option<Shadow>> = Mutex::new(None);
static LEFT: Mutex<Vec<Root>> = Mutex::new(Vec::new());
static KILLED: AtomicU64 = AtomicU64::new(0);
static COLLECTING: AtomicU32 = AtomicU32::new(0);
/// Handles which changed places during a collection
static MOVES: AtomicU64 = AtomicU64::new(0);
/// References obtained before a collection and used during it
static EARLY: AtomicU64 = AtomicU64::new(0);
static COLLECTS: AtomicU32 = AtomicU32::new(0);

type Root = (Gc<Val>, u32);

fn sh<R>(f: impl FnOnce(&mut Shadow) -> R) -> R {
    let mut g = SH.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Shadow::default))
}

fn never(_: &CollectInfo) -> bool {
    false
}

fn wait<G>(f: impl Fn() -> TryLockResult<G>) -> G {
    loop {
        match f() {
            Ok(g) => return g,
            Err(TryLockError::Poisoned(e)) => return e.into_inner(),
            Err(TryLockError::WouldBlock) => sched::block(),
        }
    }
}

impl Val {
    fn make(rng: &mut Rng) -> Root {
        let id = obs::fresh();
        let parts = std::array::from_fn(|_| if rng.chance(1, 3) { Part::W(RwLock::default()) } else { Part::M(Mutex::default()) });
        sh(|s| {
            s.out.insert(id, [0; PARTS]);
            s.root_add(id);
        });
        let v = Val { id, can: obs::canary(id), parts };
        (mem::track::<Val, _>(move || Gc::new(v), |g| Gc::as_ptr(g) as *const u8 as usize), id)
    }

    /// Put something into a part, and get what was there.
    fn exchange(&self, k: usize, new: Option<Root>) -> Option<Root> {
        let (h, t) = new.map_or((None, 0), |(h, t)| (Some(h), t));
        sched::point(23);
        let put = |slot: &mut Option<Gc<Val>>| {
            let old = std::mem::replace(slot, h);
            sh(|s| {
                let o = std::mem::replace(&mut s.out.get_mut(&self.id).unwrap()[k], t);
                if t != 0 {
                    s.root_del(t);
                }
                if o != 0 {
                    s.root_add(o);
                }
                old.map(|h| (h, o))
            })
        };
        let old = match &self.parts[k] {
            Part::M(m) => put(&mut *wait(|| m.try_lock())),
            Part::W(m) => put(&mut *wait(|| m.try_write())),
        };
        if COLLECTING.load(Relaxed) > 0 && (t != 0 || old.is_some()) {
            MOVES.fetch_add(1, Relaxed);
        }
        old
    }
}

/// Look through a handle in one of the possible ways.
fn access<'a>(root: &'a Root, how: usize) -> &'a Val {
    let g = &root.0;
    let v: &'a Val = match how {
        0 => g,
        1 => Gc::try_deref(g).unwrap_or_else(|| rep::stop("uaf", "a live handle appears to be dead")),
        2 => g.as_ref(),
        _ => g.borrow(),
    };
    obs::check_read(v.id, root.1, v.can);
    v
}

struct Ctx {
    me: usize,
    roots: Vec<Root>,
    how: Option<usize>,
    rng: Rng,
}

impl Ctx {
    fn t(&self, f: impl FnOnce() -> String) {
        rep::trace(|| format!("T{} {}", self.me, f()));
    }
    fn how(&mut self) -> usize {
        self.how.unwrap_or_else(|| self.rng.below(4))
    }
    /// A part of the value, by preference one which is full (or empty).
    fn part(&mut self, id: u32, full: bool) -> usize {
        let o = sh(|s| s.out[&id]);
        let k = self.rng.below(PARTS);
        if (o[k] != 0) != full && self.rng.chance(3, 4) {
            return (0..PARTS).find(|k| (o[*k] != 0) == full).unwrap_or(k);
        }
        k
    }
    fn take_root(&mut self) -> Option<Root> {
        (!self.roots.is_empty()).then(|| self.roots.swap_remove(self.rng.below(self.roots.len())))
    }

    fn step(&mut self) {
        match self.rng.below(12) {
            0..=6 => {
                // take something out of a value, or put something of ours in exchange, and perhaps
                // then put away the handle to that value
                let Some(z) = self.take_root() else { return };
                let (hz, hv, kz) = (self.how(), self.how(), self.part(z.1, true));
                let with = if self.rng.chance(1, 6) { self.take_root() } else { None };
                let n = COLLECTS.load(Relaxed);
                self.t(|| format!("look at {}", z.1));
                let rz = access(&z, hz);
                sched::point(22);
                let what = with.as_ref().map(|w| w.1);
                let early = COLLECTING.load(Relaxed) > 0 && COLLECTS.load(Relaxed) != n;
                let e = rz.exchange(kz, with);
                if early {
                    EARLY.fetch_add(1, Relaxed);
                }
                self.t(|| format!("put {what:?} in part {kz} of {}, in exchange for {:?}", z.1, e.as_ref().map(|e| e.1)));
                match (e, self.rng.below(4)) {
                    (Some(e), 0..=2) if e.1 != z.1 => {
                        let t = z.1;
                        let kv = self.part(e.1, false);
                        let rv = access(&e, hv);
                        sched::point(22);
                        let o = rv.exchange(kv, Some(z));
                        self.t(|| format!("move the handle to {t} into part {kv} of {}, in exchange for {:?}", e.1, o.as_ref().map(|e| e.1)));
                        self.roots.extend(o);
                        self.roots.push(e);
                    }
                    (Some(e), 3) if self.roots.len() > 0 => {
                        // put it elsewhere
                        let w = self.take_root().unwrap();
                        let t = e.1;
                        let kv = self.part(w.1, false);
                        let rw = access(&w, hv);
                        sched::point(22);
                        let o = rw.exchange(kv, Some(e));
                        self.t(|| format!("move the handle to {t} into part {kv} of {}, in exchange for {:?}", w.1, o.as_ref().map(|e| e.1)));
                        self.roots.extend(o);
                        self.roots.push(w);
                        self.roots.push(z);
                    }
                    (e, _) => {
                        self.roots.push(z);
                        self.roots.extend(e);
                    }
                }
            }
            7..=8 => {
                // move a handle into a value
                if self.roots.len() < 2 {
                    return;
                }
                let (z, w) = (self.take_root().unwrap(), self.take_root().unwrap());
                let (h, k, t) = (self.how(), self.part(w.1, false), z.1);
                let rw = access(&w, h);
                sched::point(22);
                let o = rw.exchange(k, Some(z));
                self.t(|| format!("move the handle to {t} into part {k} of {}, in exchange for {:?}", w.1, o.as_ref().map(|e| e.1)));
                self.roots.extend(o);
                self.roots.push(w);
            }
            9 => {
                let Some(z) = self.take_root() else { return };
                self.t(|| format!("clone {}", z.1));
                let c = if self.rng.chance(1, 2) { Gc::try_clone(&z.0) } else { Some(z.0.clone()) };
                let c = c.unwrap_or_else(|| rep::stop("uaf", "a live handle appears to be dead"));
                sh(|s| s.root_add(z.1));
                self.roots.push((c, z.1));
                self.roots.push(z);
            }
            10 => {
                let Some(z) = self.take_root() else { return };
                self.t(|| format!("drop {}", z.1));
                give_up(z);
            }
            _ => {
                if let Some(z) = self.take_root() {
                    access(&z, self.how());
                    self.roots.push(z);
                }
            }
        }
    }
}

fn give_up((h, id): Root) {
    sh(|s| s.root_del(id));
    drop(h);
}

fn collect_op() {
    COLLECTS.fetch_add(1, Relaxed);
    COLLECTING.fetch_add(1, Relaxed);
    collect();
    COLLECTING.fetch_sub(1, Relaxed);
}

fn on_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| s.spawn(f).join()).unwrap_or_else(|_| rep::harness_error("a panic escaped"))
}

/// Collect twice; then nothing unreachable may be left.
fn settle(what: &str) {
    on_thread(collect);
    on_thread(collect);
    let left: Vec<u32> = sh(|s| {
        let r = s.reach();
        s.out.keys().copied().filter(|i| !r.contains(i) && !obs::is_dropped(*i)).collect()
    });
    if !left.is_empty() {
        rep::violation("complete", &format!("values {left:?} are unreachable but survive two collections ({what})"));
    }
}

pub fn run(seed: u64) {
    let mut rng = Rng::new(seed);
    #[cfg(dumpster_vp)]
    dumpster::vp::set_hook(sched::hook);
    set_collect_condition(never);
    *SH.lock().unwrap() = Some(Shadow::default());
    let mutators = if rng.chance(1, 4) { 2 } else { 1 };
    let collectors = if rng.chance(1, 5) { 2 } else { 1 };
    let n = mutators + collectors;
    let how = if rng.chance(2, 3) { Some(rng.below(4)) } else { None };
    let mut parts = {
        let mut r = Rng::new(rng.next());
        on_thread(move || {
            // a ring held by one handle only, or anything
            let ring = r.chance(1, 2);
            let vals: Vec<Root> = (0..if ring { r.range(1, 4) } else { r.range(2, 5) }).map(|_| Val::make(&mut r)).collect();
            let m = vals.len();
            let mut edges: Vec<(usize, usize)> = vec![];
            let pair = ring && m == 3 && r.chance(2, 3);
            if pair {
                // two values with handles to each other and a third one before them
                edges.extend([(0, 1), (1, 2), (2, 1), (1 + r.below(2), 0)]);
            } else if ring {
                edges.extend((0..m).map(|i| (i, (i + 1) % m)));
            }
            for _ in 0..if pair { 0 } else if ring { r.below(3) } else { r.range(1, 7) } {
                edges.push((r.below(m), r.below(m)));
            }
            let only = if pair { 2 } else { r.below(m) };
            for (a, b) in edges {
                // mostly in a part of its own
                let o = sh(|s| s.out[&vals[a].1]);
                let k = r.below(PARTS);
                let k = (k..k + PARTS).map(|k| k % PARTS).find(|k| o[*k] == 0).unwrap_or(k);
                let h = vals[b].0.clone();
                sh(|s| s.root_add(vals[b].1));
                rep::trace(|| format!("part {k} of {} -> {}", vals[a].1, vals[b].1));
                if let Some(old) = vals[a].0.exchange(k, Some((h, vals[b].1))) {
                    give_up(old);
                }
            }
            let mut parts: Vec<Vec<Root>> = (0..mutators).map(|_| vec![]).collect();
            for (j, v) in vals.into_iter().enumerate() {
                // every value is suspected
                drop(v.0.clone());
                if ring {
                    if j == only {
                        let i = r.below(mutators);
                        rep::trace(|| format!("handle to {} for T{i}", v.1));
                        parts[i].push(v);
                    } else {
                        give_up(v);
                    }
                    continue;
                }
                for (i, p) in parts.iter_mut().enumerate() {
                    if r.chance(1, 3) {
                        let h = v.0.clone();
                        sh(|s| s.root_add(v.1));
                        rep::trace(|| format!("handle to {} for T{i}", v.1));
                        p.push((h, v.1));
                    }
                }
                match r.below(3) {
                    0 => {
                        let i = r.below(mutators);
                        rep::trace(|| format!("handle to {} for T{i}", v.1));
                        parts[i].push(v);
                    }
                    _ => give_up(v),
                }
            }
            parts
        })
    };
    let mut bodies: Vec<sched::Body> = vec![];
    for me in 0..mutators {
        let roots = std::mem::take(&mut parts[me]);
        let mut r = Rng::new(rng.next());
        bodies.push(Box::new(move || {
            let mut c = Ctx { me, roots, how, rng: Rng::new(r.next()) };
            for _ in 0..r.range(1, 6) {
                sched::point(22);
                c.step();
            }
            if r.chance(1, 3) {
                for z in std::mem::take(&mut c.roots) {
                    c.t(|| format!("drop {} at the end", z.1));
                    give_up(z);
                }
            } else {
                LEFT.lock().unwrap().append(&mut c.roots);
            }
        }));
    }
    for me in mutators..n {
        let k = rng.range(1, 3);
        bodies.push(Box::new(move || {
            for _ in 0..k {
                rep::trace(|| format!("T{me} collect"));
                collect_op();
                rep::trace(|| format!("T{me} collected"));
            }
        }));
    }
    let strategy = if rng.chance(2, 3) {
        // a few long turns
        let mut turns = vec![];
        for _ in 0..[1, 1, 1, 2, 3][rng.below(5)] {
            let most = [8, 40][rng.below(2)];
            turns.push((rng.below(mutators), rng.range(1, most) as u64));
            turns.push((mutators + rng.below(collectors), rng.range(1, 80) as u64));
        }
        turns.push((rng.below(mutators), [rng.range(1, 60), 100][rng.below(2)] as u64));
        turns.push((mutators + rng.below(collectors), 100));
        Strategy::Turns(turns)
    } else {
        Strategy::pick(&mut rng, n, 150)
    };
    rep::trace(|| format!("{strategy:?}"));
    let k0 = KILLED.load(Relaxed);
    let out = sched::run(bodies, strategy, &mut rng);
    let killed = KILLED.load(Relaxed) - k0;
    rep::count("schedule_points", out.steps);
    rep::count("thread_switches", out.switches);
    rep::count("destroyed_while_concurrent", killed);
    let moves = MOVES.swap(0, Relaxed);
    rep::count("handles_moved_during_collections", moves);
    rep::count("early_references_used_during_collections", EARLY.swap(0, Relaxed));
    rep::count("concurrent_collect_calls", u64::from(COLLECTS.swap(0, Relaxed)));
    if moves > 0 && killed > 0 {
        rep::distinct(out.hash ^ seed);
        rep::sample(rep::trace_text);
    }
    rep::trace(|| "all threads have ended".into());
    settle("after the threads ended");
    let left: Vec<Root> = std::mem::take(&mut *LEFT.lock().unwrap());
    for r in &left {
        access(r, 0);
    }
    on_thread(move || left.into_iter().for_each(give_up));
    settle("after dropping everything");
    *SH.lock().unwrap() = None;
    if mem::reset() > 0 && mem::UNTRACKED.swap(0, Relaxed) == 0 {
        rep::violation("once", "memory is left in the end");
    }
    set_collect_condition(default_collect_condition);
}
