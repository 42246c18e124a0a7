//! Random programs for Miri and ThreadSanitizer, which are the oracles. The program only makes sure
//! that many kinds of accesses meet.

#[cfg(vp_tsan)]
mod fence;

use dumpster::{sync, unsync, Collectable, Visitor};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex, RwLock};
use std::time::{Duration, Instant};

static BORN: AtomicU64 = AtomicU64::new(0);
static DIED: AtomicU64 = AtomicU64::new(0);
static OPS: AtomicU64 = AtomicU64::new(0);
static COLLECTIONS: AtomicU64 = AtomicU64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);
static SMALL: AtomicU64 = AtomicU64::new(0);
static THREADS: AtomicU64 = AtomicU64::new(0);

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() >> 33) as usize % n.max(1)
    }
}

type S = sync::Gc<Shared>;
type U = unsync::Gc<Local>;

enum Slots {
    M(Mutex<Vec<S>>),
    R(RwLock<Vec<S>>),
}

/// A shared value. The destructor writes what every read reads.
struct Shared {
    data: [u64; 3],
    slots: Slots,
    tail: Box<u64>,
}

impl Shared {
    fn make(r: &mut Rng) -> S {
        BORN.fetch_add(1, Relaxed);
        let x = r.next();
        let slots = if r.below(2) == 0 { Slots::M(Mutex::default()) } else { Slots::R(RwLock::default()) };
        S::new(Shared { data: [x, !x, x], slots, tail: Box::new(x) })
    }
    fn read(&self) {
        READS.fetch_add(1, Relaxed);
        if self.data[0] != !self.data[1] || self.data[2] != *self.tail {
            viol("uaf", "a value read through a live handle is not intact");
        }
    }
    fn with<R>(&self, f: impl FnOnce(&mut Vec<S>) -> R) -> R {
        match &self.slots {
            Slots::M(m) => f(&mut m.lock().unwrap_or_else(|e| e.into_inner())),
            Slots::R(m) => f(&mut m.write().unwrap_or_else(|e| e.into_inner())),
        }
    }
    fn get(&self, r: &mut Rng) -> Option<S> {
        let mut f = |v: &Vec<S>| (!v.is_empty()).then(|| v[r.below(v.len())].clone());
        match &self.slots {
            Slots::M(m) => f(&m.lock().unwrap_or_else(|e| e.into_inner())),
            Slots::R(m) => f(&m.read().unwrap_or_else(|e| e.into_inner())),
        }
    }
}

fn viol(class: &str, msg: &str) -> ! {
    println!("VIOL {{\"class\":\"{class}\",\"msg\":\"{msg}\"}}");
    std::process::exit(41);
}

unsafe impl Collectable for Shared {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        match &self.slots {
            Slots::M(m) => m.accept(v),
            Slots::R(m) => m.accept(v),
        }
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        DIED.fetch_add(1, Relaxed);
        self.read();
        self.data = [0; 3];
        *self.tail = 1;
    }
}

struct Local {
    data: Cell<u64>,
    slots: RefCell<Vec<U>>,
    shared: RefCell<Vec<S>>,
    tail: Box<Cell<u64>>,
}
unsafe impl Collectable for Local {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.slots.accept(v)?;
        self.shared.accept(v)
    }
}
impl Local {
    fn make(r: &mut Rng) -> U {
        BORN.fetch_add(1, Relaxed);
        let x = r.next();
        U::new(Local { data: Cell::new(x), slots: RefCell::default(), shared: RefCell::default(), tail: Box::new(Cell::new(!x)) })
    }
    fn read(&self) {
        READS.fetch_add(1, Relaxed);
        if self.data.get() != !self.tail.get() {
            viol("uaf", "a value read through a live handle is not intact");
        }
        let x = self.data.get().wrapping_add(1);
        self.data.set(x);
        self.tail.set(!x);
    }
}
impl Drop for Local {
    fn drop(&mut self) {
        DIED.fetch_add(1, Relaxed);
        self.read();
        self.data.set(0);
    }
}

thread_local! {
    static KEEP: RefCell<(Vec<S>, Vec<U>)> = const { RefCell::new((Vec::new(), Vec::new())) };
}

fn copy(r: &mut Rng, h: &S) -> S {
    if r.below(3) > 0 {
        return h.clone();
    }
    S::try_clone(h).unwrap_or_else(|| viol("dead", "a live handle cannot be cloned"))
}

fn copy_local(r: &mut Rng, h: &U) -> U {
    if r.below(3) > 0 {
        return h.clone();
    }
    U::try_clone(h).unwrap_or_else(|| viol("dead", "a live handle cannot be cloned"))
}

fn local_ops(r: &mut Rng, own: &mut Vec<U>, shared: &mut Vec<S>, n: usize) {
    for _ in 0..n {
        OPS.fetch_add(1, Relaxed);
        match r.below(10) {
            0 | 1 => own.push(Local::make(r)),
            2 | 3 if !own.is_empty() => {
                let (i, j) = (r.below(own.len()), r.below(own.len()));
                let h = copy_local(r, &own[j]);
                own[i].slots.borrow_mut().push(h);
            }
            4 | 5 if !own.is_empty() => {
                let h = own.swap_remove(r.below(own.len()));
                h.read();
                drop(h);
            }
            6 if !own.is_empty() && !shared.is_empty() => {
                let h = shared.swap_remove(r.below(shared.len()));
                own[r.below(own.len())].shared.borrow_mut().push(h);
            }
            7 => {
                COLLECTIONS.fetch_add(1, Relaxed);
                unsync::collect();
            }
            8 if !own.is_empty() => {
                let h = own[r.below(own.len())].slots.borrow_mut().pop();
                if let Some(h) = h {
                    h.read();
                    own.push(h);
                }
            }
            _ if !own.is_empty() => {
                let x = own[r.below(own.len())].clone();
                // dropped while its contents are borrowed
                let k = x.clone();
                let b = k.slots.borrow_mut();
                drop(x);
                unsync::collect();
                drop(b);
            }
            _ => {}
        }
    }
}

fn thread(seed: u64, n: usize, pool: &[Mutex<Option<S>>], mut own: Vec<S>) {
    let mut r = Rng(seed);
    THREADS.fetch_add(1, Relaxed);
    for _ in 0..n {
        OPS.fetch_add(1, Relaxed);
        match r.below(16) {
            0 => own.push(Shared::make(&mut r)),
            1 | 2 if !own.is_empty() => {
                let (i, j) = (r.below(own.len()), r.below(own.len()));
                let h = copy(&mut r, &own[j]);
                own[i].with(|v| v.push(h));
            }
            3 | 4 if !own.is_empty() => {
                let h = own.swap_remove(r.below(own.len()));
                h.read();
                drop(h);
            }
            5 | 6 if !own.is_empty() => {
                let h = own[r.below(own.len())].get(&mut r);
                if let Some(h) = h {
                    h.read();
                    own.push(h);
                }
            }
            7 if !own.is_empty() => {
                let h = own[r.below(own.len())].with(Vec::pop);
                if let Some(h) = h {
                    h.read();
                    own.push(h);
                }
            }
            8 | 9 => {
                COLLECTIONS.fetch_add(1, Relaxed);
                sync::collect();
            }
            10 | 11 if !own.is_empty() => {
                // swap with the pool
                let i = r.below(own.len());
                let mut p = pool[r.below(pool.len())].lock().unwrap();
                let old = p.take();
                *p = Some(own.swap_remove(i));
                drop(p);
                own.extend(old);
            }
            12 => {
                let h = pool[r.below(pool.len())].lock().unwrap().clone();
                if let Some(h) = h {
                    h.read();
                    own.push(h);
                }
            }
            13 => {
                let h = pool[r.below(pool.len())].lock().unwrap().take();
                drop(h);
            }
            14 if !own.is_empty() => {
                // by reference from another thread at the same time
                let h = own[r.below(own.len())].clone();
                let x = Arc::new(h);
                let y = x.clone();
                let t = std::thread::spawn(move || {
                    let z: S = (*y).clone();
                    drop(y);
                    z.read();
                    drop(z);
                });
                let z = (*x).clone();
                drop(x);
                z.read();
                if r.below(2) == 0 {
                    own.push(z);
                } else {
                    drop(z);
                    sync::collect();
                }
                t.join().unwrap();
            }
            _ => {
                for h in &own {
                    h.read();
                }
            }
        }
    }
    let mut locals = Vec::new();
    if r.below(3) == 0 {
        local_ops(&mut r, &mut locals, &mut own, n);
    }
    if r.below(3) == 0 {
        KEEP.with(|k| {
            let mut k = k.borrow_mut();
            k.0 = own;
            k.1 = locals;
        });
    }
}

/// Threads which have the same handles and drop them at about the same time.
fn drops(r: &mut Rng, threads: usize, n: usize) {
    let values: Vec<S> = (0..n).map(|_| Shared::make(r)).collect();
    for _ in 0..r.below(n) {
        let (i, j) = (r.below(n), r.below(n));
        let h = values[j].clone();
        values[i].with(|v| v.push(h));
    }
    let ts: Vec<_> = (1..2 + r.below(threads - 1))
        .map(|_| (r.next(), values.clone()))
        .map(|(seed, values)| std::thread::spawn(move || drop_all(seed, values)))
        .collect();
    drop_all(r.next(), values);
    for t in ts {
        if t.join().is_err() {
            std::process::abort();
        }
    }
}

fn drop_all(seed: u64, values: Vec<S>) {
    let mut r = Rng(seed);
    THREADS.fetch_add(1, Relaxed);
    for h in values {
        OPS.fetch_add(1, Relaxed);
        match r.below(12) {
            0 => std::thread::yield_now(),
            1 => {
                COLLECTIONS.fetch_add(1, Relaxed);
                sync::collect();
            }
            2 => drop(h.clone()),
            3 => drop(h.with(Vec::pop)),
            _ => {}
        }
        h.read();
        drop(h);
    }
}

/// How far each thread of a small program is. Nothing is ordered by this.
type Progress = [AtomicU64; 3];

/// Few values and threads, which wait for each other without being ordered by that.
fn small(r: &mut Rng, threads: usize) {
    SMALL.fetch_add(1, Relaxed);
    let n = 1 + r.below(5) / 2;
    let values: Vec<S> = (0..n).map(|_| Shared::make(r)).collect();
    for _ in 0..1 + r.below(2 * n) {
        let (i, j) = (r.below(n), r.below(n));
        let j = if r.below(3) == 0 { i } else { j };
        let h = values[j].clone();
        values[i].with(|v| v.push(h));
    }
    let progress: Arc<Progress> = Arc::default();
    let ts: Vec<_> = (1..2 + r.below(threads.min(3) - 1))
        .map(|me| {
            let mut own: Vec<S> = values.iter().filter(|_| r.below(3) > 0).cloned().collect();
            if own.is_empty() {
                own.push(values[0].clone());
            }
            let (seed, progress) = (r.next(), progress.clone());
            std::thread::spawn(move || few(seed, me, &progress, own))
        })
        .collect();
    let mut values = values;
    for i in (0..n).rev() {
        if r.below(3) > 0 {
            drop(values.swap_remove(i));
        }
    }
    few(r.next(), 0, &progress, values);
    for t in ts {
        if t.join().is_err() {
            std::process::abort();
        }
    }
}

fn await_other(r: &mut Rng, me: usize, progress: &Progress) {
    let (other, goal) = ((me + 1 + r.below(2)) % 3, 1 + r.below(4) as u64);
    for _ in 0..40 {
        if progress[other].load(Relaxed) >= goal {
            return;
        }
        std::thread::yield_now();
    }
}

fn few(seed: u64, me: usize, progress: &Progress, mut own: Vec<S>) {
    let mut r = Rng(seed);
    THREADS.fetch_add(1, Relaxed);
    for _ in 0..1 + r.below(5) {
        OPS.fetch_add(1, Relaxed);
        match r.below(if me == 0 { 16 } else { 12 }) {
            0..=2 if !own.is_empty() => {
                let (i, j) = (r.below(own.len()), r.below(own.len()));
                let h = copy(&mut r, &own[j]);
                own[i].with(|v| v.push(h));
            }
            3 if own.len() > 1 => {
                let h = own.swap_remove(r.below(own.len()));
                own[r.below(own.len())].with(|v| v.push(h));
            }
            4 if !own.is_empty() => {
                let h = own[r.below(own.len())].with(Vec::pop);
                own.extend(h);
            }
            5 if !own.is_empty() => {
                let h = own[r.below(own.len())].get(&mut r);
                own.extend(h);
            }
            6 if !own.is_empty() => drop(own.swap_remove(r.below(own.len()))),
            7 if !own.is_empty() => {
                let i = r.below(own.len());
                drop(copy(&mut r, &own[i]));
            }
            8 => own.iter().for_each(|h| h.read()),
            9 | 10 if me > 0 => await_other(&mut r, me, progress),
            _ => {
                if r.below(3) > 0 {
                    await_other(&mut r, me, progress);
                }
                COLLECTIONS.fetch_add(1, Relaxed);
                sync::collect();
            }
        }
        progress[me].fetch_add(1, Relaxed);
    }
    progress[me].fetch_add(10, Relaxed);
    for h in &own {
        if S::try_deref(h).is_none() {
            viol("uaf", "a value was destroyed while a handle to it was held");
        }
        h.read();
        if let Some(g) = h.get(&mut r) {
            g.read();
        }
    }
}

#[derive(Clone, Copy)]
#[repr(align(64))]
#[allow(dead_code)]
struct Wide(u8);
#[derive(Clone, Copy)]
struct Empty;
unsafe impl Collectable for Wide {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> {
        Ok(())
    }
}
unsafe impl Collectable for Empty {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> {
        Ok(())
    }
}

/// A value of any layout which may refer to itself and to others.
struct Knot<T: 'static, G: 'static> {
    value: T,
    next: Mutex<Option<G>>,
}
unsafe impl<T, G: Collectable> Collectable for Knot<T, G> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.next.accept(v)
    }
}
struct UKnot<T: 'static>(unsync::Gc<Knot<T, UKnot<T>>>);
struct SKnot<T: Send + Sync + 'static>(sync::Gc<Knot<T, SKnot<T>>>);
unsafe impl<T> Collectable for UKnot<T> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.0.accept(v)
    }
}
unsafe impl<T: Send + Sync> Collectable for SKnot<T> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.0.accept(v)
    }
}

macro_rules! knots {
    ($name: ident, $m: ident, $k: ident) => {
        fn $name<T: Clone + Send + Sync + 'static>(r: &mut Rng, value: T) {
            let a = $m::Gc::new(Knot { value: value.clone(), next: Mutex::default() });
            let b = $m::Gc::new(Knot { value, next: Mutex::default() });
            if r.below(3) > 0 {
                *a.next.lock().unwrap() = Some($k(b.clone()));
            }
            if r.below(3) > 0 {
                *b.next.lock().unwrap() = Some($k(if r.below(2) == 0 { a.clone() } else { b.clone() }));
            }
            drop(a.value.clone());
            drop(a);
            if r.below(2) == 0 {
                $m::collect();
            }
            drop(b.value.clone());
            if let Some(n) = b.next.lock().unwrap().as_ref() {
                drop(n.0.value.clone());
            }
            drop(b);
            COLLECTIONS.fetch_add(1, Relaxed);
            OPS.fetch_add(10, Relaxed);
            $m::collect();
        }
    };
}
knots!(uknots, unsync, UKnot);
knots!(sknots, sync, SKnot);

fn layouts(r: &mut Rng) {
    for _ in 0..2 {
        match r.below(16) {
            0 => uknots(r, ()),
            1 => uknots(r, Wide(1)),
            2 => uknots(r, 1u8),
            3 => uknots(r, String::from("text")),
            4 => uknots(r, [1u64; 33]),
            5 => uknots(r, Some(Box::new(1u16))),
            6 => uknots(r, (1u128, 'x')),
            7 => sknots(r, ()),
            8 => sknots(r, Wide(1)),
            9 => sknots(r, 1u8),
            10 => sknots(r, String::from("text")),
            11 => sknots(r, [1u64; 33]),
            12 => sknots(r, Some(Box::new(1u16))),
            13 => sknots(r, (1u128, 'x')),
            14 => {
                let (e, w) = (unsync::Gc::new(Empty), unsync::Gc::new(Wide(1)));
                drop((e.clone(), w.clone(), w));
            }
            _ => {
                let (e, w) = (sync::Gc::new(Empty), sync::Gc::new(Wide(1)));
                drop((e.clone(), w.clone(), w));
            }
        }
    }
}

/// Whether a type implements a trait.
macro_rules! implements {
    ($t: ty: $b: path) => {{
        #[allow(dead_code)]
        trait No {
            const IT: bool = false;
        }
        impl<T: ?Sized> No for T {}
        struct W<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + $b> W<T> {
            const IT: bool = true;
        }
        <W<$t>>::IT
    }};
}

fn probes() {
    let bad = [
        (implements!(unsync::Gc<u8>: Send), "thread-local handles can be sent to other threads"),
        (implements!(unsync::Gc<u8>: Sync), "thread-local handles can be shared with other threads"),
        (implements!(&'static unsync::Gc<u8>: Send), "references to thread-local handles can be sent to other threads"),
        (implements!(unsync::Gc<Local>: Send), "thread-local handles can be sent to other threads"),
        (!implements!(sync::Gc<u8>: Send), "shared handles cannot be sent to other threads"),
        (!implements!(sync::Gc<u8>: Sync), "shared handles cannot be shared with other threads"),
    ];
    for (b, msg) in bad {
        if b {
            viol("bounds", msg);
        }
    }
}

fn program(seed: u64, ops: usize, threads: usize, only_small: bool) -> u64 {
    let mut r = Rng(seed);
    if only_small {
        if r.below(4) == 0 {
            sync::set_collect_condition(|_| true);
        } else {
            sync::set_collect_condition(|_| false);
        }
        small(&mut r, threads);
        sync::collect();
        return r.next();
    }
    match r.below(3) {
        0 => sync::set_collect_condition(|_| false),
        1 => sync::set_collect_condition(|_| true),
        _ => sync::set_collect_condition(sync::default_collect_condition),
    }
    let kind = r.below(9);
    if kind < 3 {
        drops(&mut r, threads, ops + ops / 2);
    } else if kind == 3 {
        // one thread
        let mut u = Vec::new();
        let mut s = vec![Shared::make(&mut r)];
        local_ops(&mut r, &mut u, &mut s, ops * 3);
        layouts(&mut r);
    } else {
        let pool: Arc<Vec<Mutex<Option<S>>>> = Arc::new((0..2).map(|_| Mutex::new(Some(Shared::make(&mut r)))).collect());
        let mut first: Vec<S> = (0..2).map(|_| Shared::make(&mut r)).collect();
        for _ in 0..r.below(4) {
            let (i, j) = (r.below(first.len()), r.below(first.len()));
            let h = first[j].clone();
            first[i].with(|v| v.push(h));
        }
        if r.below(2) == 0 {
            let h = first.pop();
            drop(h);
        }
        let n = 2 + r.below(threads - 1);
        let ts: Vec<_> = (0..n)
            .map(|_| {
                let (seed, own, pool) = (r.next(), first.clone(), pool.clone());
                std::thread::spawn(move || thread(seed, ops, &pool, own))
            })
            .collect();
        drop(first);
        for t in ts {
            if t.join().is_err() {
                std::process::abort();
            }
        }
    }
    sync::collect();
    unsync::collect();
    r.next()
}

fn main() {
    let arg = |k: &str, d: u64| std::env::args().find_map(|a| a.strip_prefix(&format!("{k}=")).map(|v| v.parse().unwrap())).unwrap_or(d);
    let (seed, n, secs) = (arg("seed", 1), arg("n", u64::MAX), arg("secs", 3600));
    let (ops, threads) = (arg("ops", 8) as usize, arg("threads", 3) as usize);
    let only_small = std::env::args().any(|a| a == "small");
    probes();
    let start = Instant::now();
    let mut done = 0;
    let mut seen = HashSet::new();
    while done < n && start.elapsed() < Duration::from_secs(secs) {
        let x = Rng(seed.wrapping_mul(1_000_003) ^ done << 20).next();
        match std::panic::catch_unwind(|| program(x, ops, threads, only_small)) {
            Ok(end) => seen.insert(end),
            Err(_) => {
                viol("panic", "an operation on handles panicked");
                break;
            }
        };
        done += 1;
    }
    println!(
        "RESULT {{\"counts\":{{\"executions\":{done},\"programs_under_{}\":{done},\"operations\":{},\"reads_of_values\":{},\"collections\":{},\"threads_started\":{},\"programs_without_ordering\":{},\"values_created\":{},\"values_destroyed\":{}}},\"maxes\":{{}},\"distinct\":{},\"samples\":[\"{}: {} programs of up to {threads} threads with {ops} operations each, from seed {seed}\"]}}",
        if cfg!(miri) { "miri" } else { "thread_sanitizer" },
        OPS.load(Relaxed), READS.load(Relaxed), COLLECTIONS.load(Relaxed), THREADS.load(Relaxed), SMALL.load(Relaxed), BORN.load(Relaxed), DIED.load(Relaxed), seen.len(),
        if cfg!(miri) { "Miri" } else { "ThreadSanitizer" }, done
    );
}
