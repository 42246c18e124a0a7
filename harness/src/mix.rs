//! Thread-local and shared values together, on several threads which take turns.

use crate::mem;
use crate::obs;
use crate::rep;
use crate::rng::Rng;
use crate::work::Worker;
use dumpster::{sync, unsync, Collectable, Visitor};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::{Arc, Mutex};

type U = unsync::Gc<Local>;
type S = sync::Gc<Shared>;

/// A thread-local value with handles of both kinds.
struct Local {
    id: u32,
    can: u64,
    /// shared handles come first when visited
    first: bool,
    u: RefCell<Vec<U>>,
    s: RefCell<Vec<S>>,
}

struct Shared {
    id: u32,
    can: u64,
    s: Mutex<Vec<S>>,
}

unsafe impl Collectable for Local {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        obs::ACCEPTS.fetch_add(1, Relaxed);
        if self.first {
            self.s.accept(v)?;
            self.u.accept(v)
        } else {
            self.u.accept(v)?;
            self.s.accept(v)
        }
    }
}

unsafe impl Collectable for Shared {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        obs::ACCEPTS.fetch_add(1, Relaxed);
        self.s.accept(v)
    }
}

impl Drop for Local {
    fn drop(&mut self) {
        obs::dropped(self.id, self.can);
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        obs::dropped(self.id, self.can);
    }
}

/// A cyclic value which does something when it is destroyed.
struct LocalTask {
    f: RefCell<Option<Box<dyn FnOnce()>>>,
    me: RefCell<Option<unsync::Gc<LocalTask>>>,
}
struct SharedTask {
    f: Mutex<Option<Box<dyn FnOnce() + Send>>>,
    me: Mutex<Option<sync::Gc<SharedTask>>>,
}
unsafe impl Collectable for LocalTask {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.me.accept(v)
    }
}
unsafe impl Collectable for SharedTask {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.me.accept(v)
    }
}
impl Drop for LocalTask {
    fn drop(&mut self) {
        if let Some(f) = self.f.take() {
            f();
        }
    }
}
impl Drop for SharedTask {
    fn drop(&mut self) {
        let f = self.f.get_mut().unwrap().take();
        if let Some(f) = f {
            f();
        }
    }
}

/// Make a cyclic value of either kind which calls `f` in its destructor, and collect it.
fn collect_with(shared: bool, f: impl FnOnce() + Send + 'static) {
    let done = Arc::new(AtomicBool::new(false));
    let d = done.clone();
    let f = move || {
        f();
        d.store(true, Relaxed);
    };
    if shared {
        let t = sync::Gc::new(SharedTask { f: Mutex::new(Some(Box::new(f))), me: Mutex::new(None) });
        *t.me.lock().unwrap() = Some(t.clone());
        drop(t);
        sync::collect();
    } else {
        let t = unsync::Gc::new(LocalTask { f: RefCell::new(Some(Box::new(f))), me: RefCell::new(None) });
        *t.me.borrow_mut() = Some(t.clone());
        drop(t);
        unsync::collect();
    }
    if !done.load(Relaxed) {
        let what = if shared { "shared" } else { "thread-local" };
        rep::violation("mix", &format!("a {what} collection did not destroy the cyclic {what} garbage its thread has just made"));
    }
}

/// The handles a thread holds; only that thread touches them.
#[derive(Default)]
struct Hand {
    u: Vec<U>,
    s: Vec<S>,
}

#[derive(Clone, Copy)]
struct At(usize);
impl At {
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut Hand {
        unsafe { &mut *(self.0 as *mut Hand) }
    }
}

/// What is known about a value.
struct Info {
    /// the thread it belongs to, or none for a shared value
    owner: Option<usize>,
    u: Vec<u32>,
    s: Vec<u32>,
}

struct Thread {
    id: usize,
    w: Worker,
    at: At,
    u: Vec<u32>,
    s: Vec<u32>,
}

struct World {
    rng: Rng,
    threads: Vec<Thread>,
    born: usize,
    /// what exists
    v: BTreeMap<u32, Info>,
    exact: bool,
}

impl World {
    fn refs(&self) -> BTreeMap<u32, usize> {
        let mut n: BTreeMap<u32, usize> = self.v.keys().map(|k| (*k, 0)).collect();
        let ext = self.threads.iter().flat_map(|t| t.u.iter().chain(&t.s));
        for i in self.v.values().flat_map(|i| i.u.iter().chain(&i.s)).chain(ext) {
            *n.entry(*i).or_default() += 1;
        }
        n
    }

    fn reach(&self, roots: Vec<u32>) -> BTreeSet<u32> {
        let mut seen = BTreeSet::new();
        let mut todo = roots;
        while let Some(i) = todo.pop() {
            if seen.insert(i) {
                if let Some(v) = self.v.get(&i) {
                    todo.extend(v.u.iter().chain(&v.s));
                }
            }
        }
        seen
    }

    /// Thread-local values of `t` which are not reachable.
    fn local_garbage(&self, t: usize) -> BTreeSet<u32> {
        let roots = self.threads.iter().filter(|x| x.id == t).flat_map(|t| t.u.iter().copied()).collect();
        let live = self.reach(roots);
        self.v.iter().filter(|(i, v)| v.owner == Some(t) && !live.contains(i)).map(|(i, _)| *i).collect()
    }

    /// Shared values which are not reachable from handles or existing thread-local values.
    fn shared_garbage(&self) -> BTreeSet<u32> {
        let held = self.threads.iter().flat_map(|t| t.s.iter().copied());
        let stored = self.v.values().filter(|v| v.owner.is_some()).flat_map(|v| v.s.iter().copied());
        let live = self.reach(held.chain(stored).collect());
        self.v.iter().filter(|(i, v)| v.owner.is_none() && !live.contains(i)).map(|(i, _)| *i).collect()
    }

    /// Compare with what has happened. `u`: a thread-local collection of that thread has (exactly)
    /// or may have taken place; `s`: a shared one.
    fn settle(&mut self, what: &str, u: &[usize], s: bool, certain: bool) {
        let mut dead: BTreeSet<u32> = self.v.keys().copied().filter(|i| obs::is_dropped(*i)).collect();
        rep::trace(|| format!("{what} destroyed {dead:?}"));
        for &t in u {
            let g = self.local_garbage(t);
            if certain {
                rep::count("local_garbage_due", g.len() as u64);
                if let Some(i) = g.iter().find(|i| !dead.contains(i)) {
                    rep::violation("mix", &format!("{what} on thread {t} did not destroy its garbage value {i}"));
                }
            }
            for i in &g {
                if dead.remove(i) {
                    self.v.remove(i);
                }
            }
        }
        self.cascade(&mut dead, what);
        if s {
            let g = self.shared_garbage();
            for i in &g {
                if dead.remove(i) {
                    rep::count("shared_garbage_collected", 1);
                    self.v.remove(i);
                }
            }
            self.cascade(&mut dead, what);
        }
        if let Some(i) = dead.first() {
            let k = match self.v[i].owner {
                Some(t) => format!("thread-local value {i} of thread {t}"),
                None => format!("shared value {i}"),
            };
            rep::violation("mix", &format!("{what} destroyed the {k}, which it must not affect"));
            rep::violation("safety", &format!("{what} destroyed the {k}, which it must not affect"));
        }
    }

    /// What has no handles any more is destroyed at once, except for a shared value
    /// while some other thread suspects it: that takes a shared collection.
    fn cascade(&mut self, dead: &mut BTreeSet<u32>, what: &str) {
        loop {
            let refs = self.refs();
            let Some(i) = self.v.keys().copied().find(|i| refs[i] == 0 && (dead.contains(i) || self.v[i].owner.is_some())) else { break };
            rep::count("values_destroyed_with_their_last_handle", 1);
            if !dead.remove(&i) {
                rep::violation("mix", &format!("after {what}, value {i} has no handles but was not destroyed"));
                rep::stop("harness", "inconsistent");
            }
            self.v.remove(&i);
        }
    }

    fn step(&mut self) {
        rep::trace(|| {
            let v: Vec<String> = self.v.iter().map(|(i, v)| format!("{i}{}:{:?}{:?}", v.owner.map_or(String::new(), |t| format!("@{t}")), v.u, v.s)).collect();
            let t: Vec<String> = self.threads.iter().map(|t| format!("{}:{:?}{:?}", t.id, t.u, t.s)).collect();
            format!("  values {} threads {}", v.join(" "), t.join(" "))
        });
        let rng = &mut self.rng;
        let k = rng.below(self.threads.len());
        let at = self.threads[k].at;
        let tid = self.threads[k].id;
        let r = rng.below(22);
        let local = [tid];
        let (auto_u, auto_s) = if self.exact { (&[][..], false) } else { (&local[..], true) };
        macro_rules! t {
            () => {
                self.threads[k]
            };
        }
        rep::trace(|| format!("thread {tid}: {r}"));
        match r {
            0..=2 => {
                let first = rng.chance(1, 2);
                let id = t!().w.run(move || {
                    let id = obs::fresh();
                    let v = Local { id, can: obs::canary(id), first, u: RefCell::default(), s: RefCell::default() };
                    at.get().u.push(mem::track::<Local, _>(move || U::new(v), |g| U::as_ptr(g) as usize));
                    id
                });
                t!().u.push(id);
                self.v.insert(id, Info { owner: Some(tid), u: vec![], s: vec![] });
            }
            3 | 4 => {
                let id = t!().w.run(move || {
                    let id = obs::fresh();
                    let v = Shared { id, can: obs::canary(id), s: Mutex::default() };
                    at.get().s.push(mem::track::<Shared, _>(move || S::new(v), |g| S::as_ptr(g) as usize));
                    id
                });
                t!().s.push(id);
                self.v.insert(id, Info { owner: None, u: vec![], s: vec![] });
            }
            5 | 6 if !t!().u.is_empty() => {
                // local to local
                let (i, j) = (rng.below(t!().u.len()), rng.below(t!().u.len()));
                let (a, b) = (t!().u[i], t!().u[j]);
                t!().w.run(move || {
                    let h = at.get();
                    let x = h.u[j].clone();
                    h.u[i].u.borrow_mut().push(x);
                });
                self.v.get_mut(&a).unwrap().u.push(b);
            }
            7 | 8 if !t!().u.is_empty() && !t!().s.is_empty() => {
                // local to shared; the handle is moved or copied
                let (i, j) = (rng.below(t!().u.len()), rng.below(t!().s.len()));
                let (a, b) = (t!().u[i], t!().s[j]);
                let moved = rng.chance(1, 2);
                t!().w.run(move || {
                    let h = at.get();
                    let x = if moved { h.s.swap_remove(j) } else { h.s[j].clone() };
                    h.u[i].s.borrow_mut().push(x);
                });
                if moved {
                    t!().s.swap_remove(j);
                }
                self.v.get_mut(&a).unwrap().s.push(b);
            }
            9 | 10 if !t!().s.is_empty() => {
                let (i, j) = (rng.below(t!().s.len()), rng.below(t!().s.len()));
                let (a, b) = (t!().s[i], t!().s[j]);
                t!().w.run(move || {
                    let h = at.get();
                    let x = h.s[j].clone();
                    h.s[i].s.lock().unwrap().push(x);
                });
                self.v.get_mut(&a).unwrap().s.push(b);
            }
            11 | 12 if !t!().u.is_empty() => {
                let i = rng.below(t!().u.len());
                t!().u.swap_remove(i);
                t!().w.run(move || drop(at.get().u.swap_remove(i)));
                rep::count("handles_dropped", 1);
                self.settle("a drop of a thread-local handle", auto_u, auto_s, false);
            }
            13 | 14 if !t!().s.is_empty() => {
                let i = rng.below(t!().s.len());
                t!().s.swap_remove(i);
                t!().w.run(move || drop(at.get().s.swap_remove(i)));
                rep::count("handles_dropped", 1);
                self.settle("a drop of a shared handle", &[], auto_s, false);
            }
            15 => {
                t!().w.run(unsync::collect);
                rep::count("local_collections", 1);
                self.settle("a thread-local collection", &[tid], auto_s, true);
            }
            16 => {
                t!().w.run(sync::collect);
                rep::count("shared_collections", 1);
                self.settle("a shared collection", &[], true, false);
            }
            17 if self.threads.len() > 1 && !t!().s.is_empty() => {
                // send a shared handle
                let to = rng.below(self.threads.len());
                let i = rng.below(t!().s.len());
                let x = Arc::new(Mutex::new(None));
                let (y, z) = (x.clone(), x);
                t!().w.run(move || *y.lock().unwrap() = Some(at.get().s.swap_remove(i)));
                let at2 = self.threads[to].at;
                self.threads[to].w.run(move || at2.get().s.push(z.lock().unwrap().take().unwrap()));
                let id = t!().s.swap_remove(i);
                self.threads[to].s.push(id);
            }
            18 if !t!().u.is_empty() => {
                // empty a value, and read what it had
                let i = rng.below(t!().u.len());
                let id = t!().u[i];
                let (us, ss) = (self.v[&id].u.clone(), self.v[&id].s.clone());
                let got = t!().w.run(move || {
                    let v = &at.get().u[i];
                    let (a, b) = (v.u.take(), v.s.take());
                    (a.iter().map(|x| (x.id, x.can)).collect::<Vec<_>>(), b.iter().map(|x| (x.id, x.can)).collect::<Vec<_>>())
                });
                for (g, e) in got.0.iter().zip(&us).chain(got.1.iter().zip(&ss)) {
                    // destroyed by now perhaps, but what was read must be right
                    if g.0 != *e || g.1 != obs::canary(*e) {
                        rep::violation("uaf", "a stored handle refers to something else");
                        rep::violation("mix", "a stored handle refers to something else");
                    }
                }
                let v = self.v.get_mut(&id).unwrap();
                v.u.clear();
                v.s.clear();
                self.settle("emptying a value", auto_u, auto_s, false);
            }
            20 | 21 => {
                // a collection inside a destructor which another collection runs
                let outer = rng.chance(1, 2);
                // not where an automatic shared collection would wait for the one which waits for it
                let other = if outer && !self.exact { k } else { rng.below(self.threads.len()) };
                // of the other kind, or of the thread-local kind on another thread
                let inner = !outer && (other == k || rng.chance(1, 2));
                let to = &self.threads[other].w as *const Worker as usize;
                t!().w.run(move || {
                    collect_with(outer, move || {
                        rep::count("collections_inside_others", 1);
                        if other == k {
                            collect_with(inner, || ());
                        } else {
                            // it waits for us, and nobody uses it meanwhile
                            unsafe { &*(to as *const Worker) }.run(move || collect_with(inner, || ()));
                        }
                    });
                });
                let what = format!("a {} collection, with a {} one on thread {} inside,", ["thread-local", "shared"][usize::from(outer)], ["thread-local", "shared"][usize::from(inner)], self.threads[other].id);
                let mut locals = vec![];
                if !outer {
                    locals.push(tid);
                }
                if !inner {
                    locals.push(self.threads[other].id);
                }
                self.settle(&what, &locals, outer || inner || auto_s, true);
            }
            _ if r > 16 && self.threads.len() > 1 && self.rng.chance(1, 6) => {
                // a thread ends, without dropping its handles explicitly or after that
                let t = self.threads.swap_remove(k);
                t.w.run(move || drop(unsafe { Box::from_raw(at.0 as *mut Hand) }));
                self.settle("dropping all handles of a thread", auto_u, auto_s, false);
                t.w.end();
                rep::count("threads_ended", 1);
                self.settle("the end of a thread", &[tid], auto_s, true);
            }
            _ => {
                if self.threads.len() < 4 && self.rng.chance(1, 4) {
                    let t = start(self.born);
                    self.born += 1;
                    self.threads.push(t);
                }
            }
        }
    }
}

fn start(id: usize) -> Thread {
    let w = Worker::new();
    let at = At(w.run(|| Box::into_raw(Box::<Hand>::default()) as usize));
    Thread { id, w, at, u: vec![], s: vec![] }
}

pub fn run(seed: u64) {
    let mut rng = Rng::new(seed);
    let exact = rng.chance(2, 3);
    let n = rng.range(1, 3);
    let steps = rng.range(10, 150);
    sync::collect();
    if exact {
        sync::set_collect_condition(|_| false);
    } else {
        sync::set_collect_condition(sync::default_collect_condition);
    }
    let threads = (0..n).map(start).collect();
    let mut w = World { rng, threads, born: n, v: BTreeMap::new(), exact };
    let mut set = BTreeSet::new();
    for _ in 0..steps {
        if exact {
            for t in &w.threads {
                if set.insert(t.id) {
                    t.w.run(|| unsync::set_collect_condition(|_| false));
                }
            }
        }
        w.step();
    }
    // everything is let go
    while let Some(t) = w.threads.pop() {
        let at = t.at;
        t.w.run(move || drop(unsafe { Box::from_raw(at.0 as *mut Hand) }));
        t.w.end();
        rep::count("threads_ended", 1);
        w.settle("the end of a thread", &[t.id], true, true);
    }
    sync::collect();
    w.settle("a shared collection", &[], true, false);
    rep::distinct_trace();
    if let Some(i) = w.v.keys().next() {
        rep::violation("mix", &format!("value {i} is still there although every thread has ended and a collection has run"));
    }
    sync::set_collect_condition(sync::default_collect_condition);
    if mem::reset() > 0 && w.v.is_empty() {
        rep::violation("mix", "memory was not released");
    }
}
