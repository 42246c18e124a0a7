// Sequential histories against a model; included once for each collector.
// In scope: Gc, collect, set_collect_condition, default_collect_condition, CollectInfo, SYNC, Slots, Held.

use crate::mem;
use crate::obs;
use crate::rep;
use crate::rng::Rng;
use dumpster::{Collectable, Visitor};
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::Ordering::Relaxed;

pub struct Node<P: Send + Sync + 'static> {
    pub id: u32,
    pub can: u64,
    #[allow(dead_code)]
    pad: P,
    pub slots: Slots,
}

pub struct Leaf {
    pub id: u32,
    pub can: u64,
}

#[repr(align(64))]
pub struct A64([u8; 64]);
#[repr(align(512))]
pub struct A512([u8; 8]);

unsafe impl<P: Send + Sync> Collectable for Node<P> {
    fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
        obs::ACCEPTS.fetch_add(1, Relaxed);
        if SYNC {
            crate::sched::point(20);
        }
        let r = match gate(self.id) {
            0 => Err(()),
            1 => self.slots.accept(visitor).and(Err(())),
            _ => self.slots.accept(visitor),
        };
        fuse();
        r
    }
}

/// Panic, if this is the traversal that shall.
fn fuse() {
    if FUSE.try_with(|f| f.get() == 1 && f.replace(0) == 1 || { f.set(f.get().saturating_sub(1)); false }).unwrap_or(false) {
        FIRED.with(|f| f.set(true));
        std::panic::panic_any("traversal panics on purpose");
    }
}

unsafe impl Collectable for Leaf {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> {
        obs::ACCEPTS.fetch_add(1, Relaxed);
        Ok(())
    }
}

impl<P: Send + Sync> Drop for Node<P> {
    fn drop(&mut self) {
        obs::dropped(self.id, self.can);
        let id = self.id;
        if DTOR.with(Cell::get) {
            dtor(id, self.slots.get_mut());
        } else if SYNC {
            on_drop(id, self.slots.get_mut());
        }
    }
}

impl Drop for Leaf {
    fn drop(&mut self) {
        obs::dropped(self.id, self.can);
        if DTOR.with(Cell::get) {
            dtor(self.id, &mut Vec::new());
        } else if SYNC {
            on_drop(self.id, &mut Vec::new());
        }
    }
}

/// Equality of values: coarser than identity, and not reflexive for some of them.
fn value_eq(a: u32, b: u32) -> bool {
    a % 5 == b % 5 && a % 7 != 3
}
impl<P: Send + Sync> PartialEq for Node<P> {
    fn eq(&self, o: &Self) -> bool {
        value_eq(self.id, o.id)
    }
}
impl PartialEq for Leaf {
    fn eq(&self, o: &Self) -> bool {
        value_eq(self.id, o.id)
    }
}

pub enum Any {
    A(Gc<Node<()>>),
    B(Gc<Node<[u8; 3]>>),
    C(Gc<Node<[u64; 40]>>),
    D(Gc<Node<A64>>),
    E(Gc<Node<A512>>),
    L(Gc<Leaf>),
    #[cfg(feature = "unsized")]
    F(Gc<Fat<[Slots]>>),
    #[cfg(feature = "unsized")]
    G(Gc<Fat<[Slots; 3]>>),
}

/// Ends with any number of parts.
#[cfg(feature = "unsized")]
pub struct Fat<S: Parts + ?Sized> {
    pub id: u32,
    pub can: u64,
    n: usize,
    slots: Slots,
    tail: S,
}
pub trait Parts {
    fn parts(&self) -> &[Slots];
    fn last(&mut self) -> Option<&mut Slots>;
}
impl Parts for [Slots] {
    fn parts(&self) -> &[Slots] {
        self
    }
    fn last(&mut self) -> Option<&mut Slots> {
        self.last_mut()
    }
}
impl<const N: usize> Parts for [Slots; N] {
    fn parts(&self) -> &[Slots] {
        self
    }
    fn last(&mut self) -> Option<&mut Slots> {
        self.last_mut()
    }
}
#[cfg(feature = "unsized")]
impl<S: Parts + ?Sized> Fat<S> {
    fn make<const N: usize>(id: u32, k: usize) -> Gc<Fat<[Slots; N]>> {
        let v = Fat { id, can: obs::canary(id), n: N, slots: Slots::new(k), tail: std::array::from_fn(|_| Slots::new(k)) };
        mem::track::<Fat<[Slots; N]>, _>(move || Gc::new(v), |g| Gc::as_ptr(g) as *const u8 as usize)
    }
    /// Handles are kept at the end of the value.
    fn slots(&self) -> &Slots {
        if self.tail.parts().len() != self.n {
            rep::violation("unsized", &format!("a value of {} parts appears to have {}", self.n, self.tail.parts().len()));
        }
        rep::count("reads_through_unsized_values", 1);
        self.tail.parts().last().unwrap_or(&self.slots)
    }
}
#[cfg(feature = "unsized")]
unsafe impl<S: Parts + ?Sized> Collectable for Fat<S> {
    fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
        obs::ACCEPTS.fetch_add(1, Relaxed);
        if SYNC {
            crate::sched::point(20);
        }
        if self.tail.parts().len() != self.n {
            rep::violation("unsized", &format!("a value of {} parts is traversed as one of {}", self.n, self.tail.parts().len()));
        }
        fuse();
        let all = |visitor: &mut V| {
            self.slots.accept(visitor)?;
            self.tail.parts().iter().try_for_each(|p| p.accept(visitor))
        };
        match gate(self.id) {
            0 => Err(()),
            1 => all(visitor).and(Err(())),
            _ => all(visitor),
        }
    }
}
#[cfg(feature = "unsized")]
impl<S: Parts + ?Sized> Drop for Fat<S> {
    fn drop(&mut self) {
        obs::dropped(self.id, self.can);
        if self.tail.parts().len() != self.n {
            rep::violation("unsized", &format!("a value of {} parts is destroyed as one of {}", self.n, self.tail.parts().len()));
        }
        let id = self.id;
        let slots = match self.tail.last() {
            Some(s) => s,
            None => &mut self.slots,
        };
        if DTOR.with(Cell::get) {
            dtor(id, slots.get_mut());
        } else if SYNC {
            on_drop(id, slots.get_mut());
        }
    }
}
#[cfg(feature = "unsized")]
impl<S: Parts + ?Sized> PartialEq for Fat<S> {
    fn eq(&self, o: &Self) -> bool {
        value_eq(self.id, o.id)
    }
}

/// How many kinds of values with handles there are.
pub const KINDS: usize = if cfg!(feature = "unsized") { 12 } else { 5 };

/// A kind of value with handles.
pub fn some_kind(rng: &mut Rng) -> u8 {
    let k = rng.below(KINDS) as u8;
    if k < 5 {
        k
    } else {
        k + 1
    }
}

macro_rules! each {
    ($any: expr, $g: ident => $e: expr) => {
        match $any {
            Any::A($g) => $e,
            Any::B($g) => $e,
            Any::C($g) => $e,
            Any::D($g) => $e,
            Any::E($g) => $e,
            Any::L($g) => $e,
            #[cfg(feature = "unsized")]
            Any::F($g) => $e,
            #[cfg(feature = "unsized")]
            Any::G($g) => $e,
        }
    };
}
macro_rules! map {
    ($any: expr, $g: ident => $e: expr) => {
        match $any {
            Any::A($g) => Any::A($e),
            Any::B($g) => Any::B($e),
            Any::C($g) => Any::C($e),
            Any::D($g) => Any::D($e),
            Any::E($g) => Any::E($e),
            Any::L($g) => Any::L($e),
            #[cfg(feature = "unsized")]
            Any::F($g) => Any::F($e),
            #[cfg(feature = "unsized")]
            Any::G($g) => Any::G($e),
        }
    };
}

unsafe impl Collectable for Any {
    fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
        each!(self, g => g.accept(visitor))
    }
}

impl Any {
    pub fn make(kind: u8, n_slot_kind: usize) -> (Any, u32) {
        fn node<P: Send + Sync + 'static>(pad: P, id: u32, k: usize) -> Gc<Node<P>> {
            let n = Node { id, can: obs::canary(id), pad, slots: Slots::new(k) };
            mem::track::<Node<P>, _>(move || new(n), |g| Gc::as_ptr(g) as *const u8 as usize)
        }
        let id = obs::fresh();
        let k = n_slot_kind;
        let a = match kind {
            0 => Any::A(node((), id, k)),
            1 => Any::B(node([7; 3], id, k)),
            2 => Any::C(node([9; 40], id, k)),
            3 => Any::D(node(A64([1; 64]), id, k)),
            4 => Any::E(node(A512([1; 8]), id, k)),
            #[cfg(feature = "unsized")]
            6 => Any::F(Fat::<[Slots]>::make::<0>(id, k)),
            #[cfg(feature = "unsized")]
            7 => Any::F(Fat::<[Slots]>::make::<1>(id, k)),
            #[cfg(feature = "unsized")]
            8 => Any::F(Fat::<[Slots]>::make::<2>(id, k)),
            #[cfg(feature = "unsized")]
            9 => Any::F(Fat::<[Slots]>::make::<7>(id, k)),
            #[cfg(feature = "unsized")]
            10.. => Any::G(Fat::<[Slots]>::make::<3>(id, k)),
            _ => {
                let l = Leaf { id, can: obs::canary(id) };
                Any::L(mem::track::<Leaf, _>(move || new(l), |g| Gc::as_ptr(g) as *const u8 as usize))
            }
        };
        (a, id)
    }
    pub fn dup(&self) -> Any {
        #[cfg(feature = "unsized")]
        if let Any::G(g) = self {
            // handles of both types refer to the same value
            if obs::NOISE.fetch_add(1, Relaxed) % 2 == 0 {
                rep::count("coerced_copies", 1);
                return Any::F(g.clone());
            }
        }
        if obs::NOISE.fetch_add(1, Relaxed) % 3 == 0 {
            if let Some(a) = self.try_dup() {
                return a;
            }
        }
        map!(self, g => g.clone())
    }
    pub fn try_dup(&self) -> Option<Any> {
        Some(match self {
            Any::A(g) => Any::A(Gc::try_clone(g)?),
            Any::B(g) => Any::B(Gc::try_clone(g)?),
            Any::C(g) => Any::C(Gc::try_clone(g)?),
            Any::D(g) => Any::D(Gc::try_clone(g)?),
            Any::E(g) => Any::E(Gc::try_clone(g)?),
            Any::L(g) => Any::L(Gc::try_clone(g)?),
            #[cfg(feature = "unsized")]
            Any::F(g) => Any::F(Gc::try_clone(g)?),
            #[cfg(feature = "unsized")]
            Any::G(g) => Any::F(Gc::try_clone(g)?),
        })
    }
    pub fn id_can(&self) -> (u32, u64) {
        each!(self, g => {
            let v = look(g);
            (v.id, v.can)
        })
    }
    pub fn try_id_can(&self) -> Option<(u32, u64)> {
        each!(self, g => Gc::try_deref(g).map(|n| (n.id, n.can)))
    }
    pub fn slots(&self) -> Option<&Slots> {
        match self {
            Any::A(g) => Some(&look(g).slots),
            Any::B(g) => Some(&look(g).slots),
            Any::C(g) => Some(&look(g).slots),
            Any::D(g) => Some(&look(g).slots),
            Any::E(g) => Some(&look(g).slots),
            Any::L(_) => None,
            #[cfg(feature = "unsized")]
            Any::F(g) => Some(look(g).slots()),
            #[cfg(feature = "unsized")]
            Any::G(g) => Some(look(g).slots()),
        }
    }
    pub fn ptr(&self) -> usize {
        each!(self, g => Gc::as_ptr(g) as *const u8 as usize)
    }
    pub fn ptr_eq(&self, o: &Any) -> bool {
        match (self, o) {
            (Any::A(a), Any::A(b)) => Gc::ptr_eq(a, b),
            (Any::B(a), Any::B(b)) => Gc::ptr_eq(a, b),
            (Any::C(a), Any::C(b)) => Gc::ptr_eq(a, b),
            (Any::D(a), Any::D(b)) => Gc::ptr_eq(a, b),
            (Any::E(a), Any::E(b)) => Gc::ptr_eq(a, b),
            (Any::L(a), Any::L(b)) => Gc::ptr_eq(a, b),
            #[cfg(feature = "unsized")]
            (Any::F(a), Any::F(b)) => Gc::ptr_eq(a, b),
            #[cfg(feature = "unsized")]
            (Any::G(a), Any::G(b)) => Gc::ptr_eq(a, b),
            #[cfg(feature = "unsized")]
            (Any::F(_), Any::G(_)) | (Any::G(_), Any::F(_)) => self.ptr() == o.ptr(),
            _ => false,
        }
    }
    fn same_kind(&self, o: &Any) -> bool {
        std::mem::discriminant(self) == std::mem::discriminant(o)
    }
    fn val_eq(&self, o: &Any) -> bool {
        fn eq_ne<T: PartialEq>(a: &T, b: &T) -> bool {
            if (a == b) == (a != b) {
                rep::violation("ident", "handles are both equal and unequal, or neither");
            }
            a == b
        }
        match (self, o) {
            (Any::A(a), Any::A(b)) => eq_ne(a, b),
            (Any::B(a), Any::B(b)) => eq_ne(a, b),
            (Any::C(a), Any::C(b)) => eq_ne(a, b),
            (Any::D(a), Any::D(b)) => eq_ne(a, b),
            (Any::E(a), Any::E(b)) => eq_ne(a, b),
            (Any::L(a), Any::L(b)) => eq_ne(a, b),
            #[cfg(feature = "unsized")]
            (Any::F(a), Any::F(b)) => eq_ne(a, b),
            #[cfg(feature = "unsized")]
            (Any::G(a), Any::G(b)) => eq_ne(a, b),
            _ => false,
        }
    }
    /// Every way of getting at the address of the value.
    fn addrs(&self) -> [usize; 6] {
        fn b<T, G: Borrow<T>>(g: &G) -> usize {
            let r: &T = g.borrow();
            r as *const T as *const u8 as usize
        }
        fn all<T: Collectable + Send + Sync>(g: &Gc<T>) -> [usize; 6] {
            [
                Gc::as_ptr(g) as *const u8 as usize,
                &**g as *const T as *const u8 as usize,
                Gc::try_deref(g).map_or(0, |r| r as *const T as *const u8 as usize),
                g.as_ref() as *const T as *const u8 as usize,
                b::<T, _>(g),
                usize::from_str_radix(format!("{:p}", *g).trim_start_matches("0x"), 16).unwrap_or(1),
            ]
        }
        trait One {
            fn addrs(&self) -> [usize; 6];
        }
        impl<P: Send + Sync + 'static> One for Gc<Node<P>> {
            fn addrs(&self) -> [usize; 6] {
                // `Node` is only `Sync` with the thread-safe slots, so go by its address
                let g = self;
                [
                    Gc::as_ptr(g) as *const u8 as usize,
                    &**g as *const Node<P> as *const u8 as usize,
                    Gc::try_deref(g).map_or(0, |r| r as *const Node<P> as *const u8 as usize),
                    AsRef::<Node<P>>::as_ref(g) as *const Node<P> as *const u8 as usize,
                    b::<Node<P>, _>(g),
                    usize::from_str_radix(format!("{:p}", *g).trim_start_matches("0x"), 16).unwrap_or(1),
                ]
            }
        }
        #[cfg(feature = "unsized")]
        macro_rules! fat {
            ($s: ty) => {
        impl One for Gc<Fat<$s>> {
            fn addrs(&self) -> [usize; 6] {
                let g = self;
                let b: &Fat<$s> = g.borrow();
                let p = format!("{:p}", *g);
                let hex: String = p.chars().skip_while(|c| *c != 'x').skip(1).take_while(char::is_ascii_hexdigit).collect();
                [
                    Gc::as_ptr(g) as *const u8 as usize,
                    &**g as *const Fat<$s> as *const u8 as usize,
                    Gc::try_deref(g).map_or(0, |r| r as *const Fat<$s> as *const u8 as usize),
                    AsRef::<Fat<$s>>::as_ref(g) as *const Fat<$s> as *const u8 as usize,
                    b as *const Fat<$s> as *const u8 as usize,
                    usize::from_str_radix(&hex, 16).unwrap_or(1),
                ]
            }
        }
            };
        }
        #[cfg(feature = "unsized")]
        fat!([Slots]);
        #[cfg(feature = "unsized")]
        fat!([Slots; 3]);
        impl One for Gc<Leaf> {
            fn addrs(&self) -> [usize; 6] {
                all(self)
            }
        }
        each!(self, g => One::addrs(g))
    }
    /// The infallible accessors on a dead handle must panic.
    fn dead_accessors_panic(&self) -> Option<&'static str> {
        if rep::expecting(|| self.id_can()).is_ok() {
            return Some("dereferencing");
        }
        if rep::expecting(|| std::mem::forget(self.dup())).is_ok() {
            return Some("cloning");
        }
        if rep::expecting(|| self.ptr()).is_ok() {
            return Some("taking the raw pointer of");
        }
        None
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    Never,
    Always,
    Every(u32),
    Default,
}

thread_local! {
    static POLICY: Cell<Policy> = const { Cell::new(Policy::Default) };
    static WHICH: Cell<u8> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static TRUES: Cell<u64> = const { Cell::new(0) };
    static LAST: Cell<(usize, usize, bool)> = const { Cell::new((0, 0, false)) };
    static EXPLICIT: Cell<bool> = const { Cell::new(false) };
    static DTOR: Cell<bool> = const { Cell::new(false) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static FUSE: Cell<u32> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static BUSY_COND: Cell<bool> = const { Cell::new(false) };
    static INSIDE_COND: Cell<bool> = const { Cell::new(false) };
    static COND_FUSE: Cell<u32> = const { Cell::new(0) };
    /// handles of the conditions, and the values they have made
    static PRIVATE: RefCell<Vec<(Any, u32)>> = const { RefCell::new(Vec::new()) };
    static PRIVATE_IDS: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static ACTS: RefCell<Vec<Act>> = const { RefCell::new(Vec::new()) };
    static GATES: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    static STASH: RefCell<Vec<Any>> = const { RefCell::new(Vec::new()) };
    static DRNG: RefCell<Rng> = RefCell::new(Rng::new(0));
}

/// While it exists, another thread now and then locks a part of the value, so that visits to it
/// fail before or after the contents.
pub struct Gate(u32);

impl Gate {
    fn new(id: u32) -> Gate {
        GATES.with(|g| g.borrow_mut().push(id));
        Gate(id)
    }
}

impl Drop for Gate {
    fn drop(&mut self) {
        GATES.with(|g| {
            let mut g = g.borrow_mut();
            let i = g.iter().position(|x| *x == self.0).unwrap();
            g.swap_remove(i);
        });
    }
}

fn gate(id: u32) -> u32 {
    if !GATES.try_with(|g| g.borrow().contains(&id)).unwrap_or(false) {
        return 9;
    }
    rep::count("visits_of_contended_values", 1);
    DRNG.with(|r| r.borrow_mut().below(5)) as u32
}

/// The conditions do the same, but only the one set last may be called.
pub fn cond<const K: u8>(info: &CollectInfo) -> bool {
    if WHICH.with(Cell::get) != K {
        rep::violation("policy", "a condition was consulted which had been replaced");
    }

    let n = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if EXPLICIT.with(Cell::get) {
        rep::violation("policy", "the condition was consulted while a collection was running on this thread");
    }
    if BUSY_COND.try_with(Cell::get).unwrap_or(false) {
        cond_acts::<K>();
    }
    let r = match POLICY.with(Cell::get) {
        Policy::Never => false,
        Policy::Always => true,
        Policy::Every(k) => n % u64::from(k) == 0,
        Policy::Default => default_collect_condition(info),
    };
    LAST.with(|l| l.set((info.n_gcs_dropped_since_last_collect(), info.n_gcs_existing(), r)));
    if r {
        TRUES.with(|t| t.set(t.get() + 1));
    }
    r
}

/// What a condition does with handles of its own, and with the collector.
fn cond_acts<const K: u8>() {
    struct Inside;
    impl Drop for Inside {
        fn drop(&mut self) {
            INSIDE_COND.with(|i| i.set(false));
        }
    }
    if COND_FUSE.with(|f| f.get() == 1 && f.replace(0) == 1 || { f.set(f.get().saturating_sub(1)); false }) && !std::thread::panicking() {
        FIRED.with(|f| f.set(true));
        rep::count("condition_panics", 1);
        std::panic::panic_any("condition panics on purpose");
    }
    if INSIDE_COND.with(|i| i.replace(true)) {
        return;
    }
    let _inside = Inside;
    let mut rng = DRNG.with(|r| Rng::new(r.borrow_mut().next()));
    for _ in 0..[0, 0, 0, 1, 2][rng.below(5)] {
        rep::count("acts_of_conditions", 1);
        match rng.below(11) {
            0 | 1 => {
                rep::count("collections_inside_conditions", 1);
                TRUES.with(|t| t.set(t.get() + 1));
                collect();
            }
            2 => drop(Any::make(5, 0).0),
            9 => other_kind(),
            3 | 4 => {
                // a pair of values which refer to each other
                let (k, l) = (some_kind(&mut rng), some_kind(&mut rng));
                let ((a, i), (b, j)) = (Any::make(k, rng.below(2)), Any::make(l, rng.below(2)));
                PRIVATE_IDS.with(|v| v.borrow_mut().extend([i, j]));
                let (a2, b2) = (a.dup(), b.dup());
                a.slots().unwrap().with(|v| v.push(b2));
                b.slots().unwrap().with(|v| v.push(a2));
                if rng.chance(1, 2) {
                    PRIVATE.with(|p| p.borrow_mut().push((a, i)));
                }
            }
            5 => set_collect_condition(cond::<K>),
            6 | 7 => {
                let h = PRIVATE.with(|p| {
                    let mut p = p.borrow_mut();
                    (!p.is_empty()).then(|| {
                        let i = rng.below(p.len());
                        p.swap_remove(i)
                    })
                });
                if let Some((h, t)) = h {
                    let (id, can) = h.id_can();
                    obs::check_read(id, t, can);
                    drop(h);
                }
            }
            8 => PRIVATE.with(|p| {
                let mut p = p.borrow_mut();
                if !p.is_empty() {
                    let i = rng.below(p.len());
                    let c = (p[i].0.dup(), p[i].1);
                    p.push(c);
                }
            }),
            _ => PRIVATE.with(|p| {
                for (h, t) in p.borrow().iter() {
                    let (id, can) = h.id_can();
                    obs::check_read(id, *t, can);
                }
            }),
        }
    }
}

/// Something a destructor did with handles, for the model.
#[derive(Debug)]
enum Act {
    /// Destructor of .0 found its handle number .1 dead.
    SawDead(u32, usize),
    /// It moved its handle to .1 (None: dead) to the stash; .0 is its own id.
    Moved(u32, Option<u32>),
    /// It put a clone of its handle to .0 in the stash.
    Cloned(u32),
    /// It created a value: id, kind, handles.
    New(u32, bool, Vec<u32>, usize),
    /// It moved its handle to .1 into the value .0.
    Stored(u32, u32),
    /// It put its dead handle into the value .0.
    StoredDead(u32),
    Collect,
    Temp,
}

fn dtor(id: u32, slots: &mut Vec<Any>) {
    let act = |a: Act| ACTS.with(|v| v.borrow_mut().push(a));
    let mut live = Vec::new();
    let mut dead = Vec::new();
    for (i, h) in slots.iter().enumerate() {
        match h.try_id_can() {
            Some((t, can)) => {
                if can != obs::canary(t) || obs::is_dropped(t) {
                    rep::violation("dead", &format!("a handle inside value {id}, being destroyed, is live but its target is destroyed"));
                }
                if h.ptr() == 0 || h.try_dup().is_none() {
                    rep::violation("dead", "accessors disagree on whether a handle is dead");
                }
                live.push(i);
            }
            None => {
                if h.try_dup().is_some() {
                    rep::violation("dead", "accessors disagree on whether a handle is dead");
                }
                if let Some(w) = h.dead_accessors_panic() {
                    rep::violation("dead", &format!("{w} a dead handle did not panic"));
                }
                dead.push(i);
                act(Act::SawDead(id, i));
            }
        }
    }
    rep::count("destructor_runs_inspected", 1);
    rep::count("dead_handles_seen", dead.len() as u64);
    rep::count("live_handles_seen_in_destructors", live.len() as u64);
    if BUSY.with(Cell::get) {
        return; // nested destructor: only look
    }
    let mut rng = DRNG.with(|r| {
        let mut r = r.borrow_mut();
        Rng::new(r.next())
    });
    BUSY.with(|b| b.set(true));
    for _ in 0..rng.below(3) {
        match rng.below(9) {
            0 if !live.is_empty() => {
                // move a live handle out; the slot keeps nothing
                let k = rng.below(live.len());
                let i = live.swap_remove(k);
                let h = slots.swap_remove(i);
                let t = h.id_can().0;
                live.clear(); // indices are stale
                dead.clear();
                act(Act::Moved(id, Some(t)));
                STASH.with(|s| s.borrow_mut().push(h));
            }
            1 if !live.is_empty() => {
                let h = slots[live[rng.below(live.len())]].dup();
                act(Act::Cloned(h.id_can().0));
                STASH.with(|s| s.borrow_mut().push(h));
            }
            2 if !dead.is_empty() => {
                let i = dead[rng.below(dead.len())];
                let h = slots.swap_remove(i);
                live.clear();
                dead.clear();
                act(Act::Moved(id, None));
                STASH.with(|s| s.borrow_mut().push(h));
            }
            3 => {
                // new garbage: a self loop
                let (h, t) = Any::make(some_kind(&mut rng), rng.below(2));
                let p = h.ptr();
                h.slots().unwrap().with(|v| v.push(h.dup()));
                act(Act::New(t, false, vec![t], p));
                drop(h);
            }
            4 => {
                act(Act::Collect);
                collect();
            }
            5 => {
                let (h, t) = Any::make(5, 0);
                let p = h.ptr();
                act(Act::New(t, true, vec![], p));
                drop(h);
                act(Act::Temp);
            }
            6 if live.len() >= 2 => {
                // store a live handle in another live target
                let (a, b) = (live[rng.below(live.len())], live[rng.below(live.len())]);
                if a != b && slots[a].slots().is_some_and(Slots::free) {
                    let into = slots[a].id_can().0;
                    let t = slots[b].id_can().0;
                    let h = slots[b].dup();
                    act(Act::Stored(into, t));
                    slots[a].slots().unwrap().with(|v| v.push(h));
                }
            }
            7 if !live.is_empty() && !dead.is_empty() => {
                let a = live[rng.below(live.len())];
                let b = dead[rng.below(dead.len())];
                if slots[a].slots().is_some_and(Slots::free) {
                    let t = slots[a].dup();
                    let h = slots.swap_remove(b);
                    live.clear();
                    dead.clear();
                    act(Act::StoredDead(t.id_can().0));
                    t.slots().unwrap().with(|v| v.push(h));
                    drop(t);
                }
            }
            8 if !live.is_empty() => {
                // clone and drop again
                let h = slots[live[rng.below(live.len())]].dup();
                let h2 = h.try_dup();
                drop(h);
                drop(h2);
                act(Act::Temp);
            }
            _ => {}
        }
    }
    BUSY.with(|b| b.set(false));
    if ARMED.with(Cell::get) && rng.chance(1, 3) {
        ARMED.with(|a| a.set(false));
        std::panic::panic_any("destructor panics on purpose");
    }
}

struct MObj {
    leaf: bool,
    out: Vec<Option<u32>>,
    dead: bool,
    ptr: usize,
    /// its contents can never be looked into again (leaked guard)
    stuck: bool,
    /// given up on, after a destructor or a traversal panicked
    lost: bool,
}

struct Root {
    h: Any,
    t: Option<u32>,
}

#[derive(Clone, Default)]
pub struct Cfg {
    pub borrow: bool,
    pub dtor: bool,
    pub panics: bool,
    /// traversals panic
    pub visits: bool,
    /// conditions use handles
    pub cond: bool,
    /// conditions panic
    pub cond_panics: bool,
    pub probe: bool,
    pub policy: Option<u8>,
    pub big: bool,
}

pub struct World {
    objs: HashMap<u32, MObj>,
    roots: Vec<Root>,
    held: Vec<(Held, Root)>,
    rng: Rng,
    cfg: Cfg,
    policy: Policy,
    /// a destructor or a traversal has panicked in this execution
    panicked: bool,
    drops_lo: u64,
    drops_hi: u64,
    drops_known: bool,
    hash: u64,
    max_objs: usize,
    /// garbage seen so far that needed a collection
    pub cyclic_collected: u64,
    n_reach: u64,
    base_existing: usize,
}

impl World {
    pub fn new(rng: Rng, cfg: Cfg) -> World {
        let mut w = World {
            objs: HashMap::new(),
            roots: vec![],
            held: vec![],
            rng,
            cfg,
            policy: Policy::Never,
            panicked: false,
            drops_lo: 0,
            drops_hi: 0,
            drops_known: false,
            hash: 0,
            max_objs: 0,
            cyclic_collected: 0,
            n_reach: 0,
            base_existing: 0,
        };
        DTOR.with(|d| d.set(w.cfg.dtor));
        DRNG.with(|r| *r.borrow_mut() = Rng::new(w.rng.next()));
        ACTS.with(|a| a.borrow_mut().clear());
        WHICH.with(|w| w.set(0));
        set_collect_condition(cond::<0>);
        w.max_objs = if w.cfg.big { 60 } else { [6, 12, 24][w.rng.below(3)] };
        POLICY.with(|p| p.set(Policy::Never));
        drop(Gc::new(0u8));
        w.base_existing = LAST.with(Cell::get).1;
        w.pick_policy();
        BUSY_COND.with(|b| b.set(w.cfg.cond));
        w
    }

    fn pick_policy(&mut self) {
        let k = match self.cfg.policy {
            Some(p) => p as usize,
            None => self.rng.below(6),
        };
        self.policy = match k {
            0 | 1 => Policy::Never,
            2 => Policy::Always,
            3 => Policy::Every(self.rng.range(2, 6) as u32),
            _ => Policy::Default,
        };
        POLICY.with(|p| p.set(self.policy));
        let k = WHICH.with(Cell::get) ^ u8::from(self.rng.chance(2, 3));
        WHICH.with(|w| w.set(k));
        set_collect_condition(if k == 0 { cond::<0> } else { cond::<1> });
        rep::trace(|| format!("policy {:?}", self.policy));
    }

    fn reach(&self, from_lost: bool) -> HashSet<u32> {
        let mut seen: HashSet<u32> = HashSet::new();
        let mut todo: Vec<u32> = self.roots.iter().chain(self.held.iter().map(|h| &h.1)).filter_map(|r| r.t).collect();
        if from_lost {
            todo.extend(self.objs.iter().filter(|(_, o)| !o.dead && (o.lost || o.stuck)).map(|(i, _)| *i));
        }
        while let Some(x) = todo.pop() {
            if seen.insert(x) {
                if let Some(o) = self.objs.get(&x) {
                    todo.extend(o.out.iter().flatten());
                }
            }
        }
        seen
    }

    fn mix(&mut self, x: u64) {
        self.hash = (self.hash.rotate_left(7) ^ x).wrapping_mul(0x100_0000_01B3);
    }

    /// Values that reference counting alone destroys in the present model state.
    fn rc_dead(&self) -> HashSet<u32> {
        let mut rc: HashMap<u32, i64> = HashMap::new();
        for (i, o) in &self.objs {
            if !o.dead {
                rc.entry(*i).or_default();
                for t in o.out.iter().flatten() {
                    *rc.entry(*t).or_default() += 1;
                }
            }
        }
        for r in self.roots.iter().chain(self.held.iter().map(|h| &h.1)) {
            if let Some(t) = r.t {
                *rc.entry(t).or_default() += 1;
            }
        }
        let mut out = HashSet::new();
        let mut todo: Vec<u32> = rc.iter().filter(|(i, c)| **c == 0 && self.objs.get(i).is_some_and(|o| !o.dead && !o.lost)).map(|(i, _)| *i).collect();
        while let Some(x) = todo.pop() {
            if out.insert(x) {
                for t in self.objs[&x].out.iter().flatten() {
                    let c = rc.get_mut(t).unwrap();
                    *c -= 1;
                    if *c == 0 && !self.objs[t].dead && !self.objs[t].lost {
                        todo.push(*t);
                    }
                }
            }
        }
        out
    }

    fn apply_acts(&mut self) -> Vec<(u32, usize, Option<u32>)> {
        let acts = ACTS.with(|a| std::mem::take(&mut *a.borrow_mut()));
        let mut stash: std::collections::VecDeque<Any> = STASH.with(|s| std::mem::take(&mut *s.borrow_mut())).into();
        let mut saw = Vec::new();
        for a in acts {
            rep::trace(|| format!("  {a:?}"));
            match a {
                Act::SawDead(id, i) => {
                    let t = self.objs[&id].out.get(i).copied().flatten();
                    saw.push((id, i, t));
                }
                Act::Moved(_, t) => {
                    let h = stash.pop_front().unwrap();
                    self.roots.push(Root { h, t });
                    rep::count("handles_moved_out_by_destructors", 1);
                }
                Act::Cloned(t) => {
                    let h = stash.pop_front().unwrap();
                    self.roots.push(Root { h, t: Some(t) });
                    rep::count("handles_cloned_out_by_destructors", 1);
                }
                Act::New(id, leaf, out, ptr) => {
                    self.objs.insert(id, MObj { leaf, out: out.into_iter().map(Some).collect(), dead: false, ptr, stuck: false, lost: false });
                    rep::count("values_created_by_destructors", 1);
                    self.drops_known = false;
                }
                Act::Stored(into, t) => {
                    self.objs.get_mut(&into).unwrap().out.push(Some(t));
                    rep::count("handles_stored_by_destructors", 1);
                }
                Act::StoredDead(into) => {
                    self.objs.get_mut(&into).unwrap().out.push(None);
                    rep::count("dead_handles_stored_in_live_values", 1);
                }
                Act::Collect => {
                    rep::count("collections_requested_by_destructors", 1);
                    self.drops_known = false;
                }
                Act::Temp => {
                    self.drops_known = false;
                }
            }
        }
        saw
    }

    /// Compare what happened with the model.
    /// `must`: values which had to be destroyed by a collection in this step.
    fn audit(&mut self, must: Option<HashSet<u32>>, panicked: bool, what: &str) {
        let saw_dead = self.apply_acts();
        let fresh: Vec<u32> = self.objs.iter().filter(|(i, o)| !o.dead && obs::is_dropped(**i)).map(|(i, _)| *i).collect();
        let reach = self.reach(false);
        for i in &fresh {
            if reach.contains(i) {
                rep::violation("safety", &format!("value {i} was destroyed by '{what}' while still reachable"));
            }
        }
        let rc_set = if fresh.is_empty() { HashSet::new() } else { self.rc_dead() };
        for i in &fresh {
            if !rc_set.contains(i) {
                self.cyclic_collected += 1;
            }
            let o = self.objs.get_mut(i).unwrap();
            o.dead = true;
        }
        rep::count("destructions", fresh.len() as u64);
        for (id, i, t) in saw_dead {
            if let Some(t) = t {
                if !self.objs[&t].dead && !panicked {
                    rep::violation("dead", &format!("handle {i} of destroyed value {id} was dead although its target {t} survives"));
                }
            }
        }
        if let Some(must) = must {
            for i in &must {
                let o = self.objs.get_mut(i).unwrap();
                if !o.dead {
                    if panicked {
                        o.lost = true;
                    } else {
                        rep::violation("complete", &format!("value {i} is unreachable but survived '{what}'"));
                    }
                }
            }
        }
        if panicked {
            rep::trace(|| format!("  something panicked; destroyed: {fresh:?}"));
            self.panicked = true;
            self.drops_known = false;
            // whatever is unreachable now may have been given up on
            let reach = self.reach(false);
            for (i, o) in &mut self.objs {
                if !o.dead && !reach.contains(i) {
                    o.lost = true;
                }
            }
        }
        // reference counting
        for i in self.rc_dead() {
            let o = &self.objs[&i];
            if o.lost || (SYNC && !o.leaf) {
                continue;
            }
            rep::violation("prompt", &format!("value {i} has no handle left but was not destroyed by '{what}'"));
        }
        // reading through every root
        for r in &self.roots {
            match (r.t, r.h.try_id_can()) {
                (Some(t), Some((id, can))) => obs::check_read(id, t, can),
                (Some(t), None) => {
                    rep::violation("uaf", &format!("a held handle to value {t} became dead"));
                    rep::violation("dead", &format!("a held handle to value {t} became dead"));
                }
                (None, Some(_)) => rep::violation("dead", "a dead handle came back to life"),
                (None, None) => {}
            }
        }
        if !SYNC && !self.panicked && mem::mode() != mem::Mode::Off && mem::UNTRACKED.load(Relaxed) == 0 {
            let n = self.objs.values().filter(|o| !o.dead).count() + PRIVATE_IDS.with(|v| v.borrow().iter().filter(|i| !obs::is_dropped(**i)).count());
            let m = mem::LIVE.load(Relaxed);
            if n != m {
                rep::violation("once", &format!("{m} blocks of value memory are allocated but {n} values exist after '{what}'"));
            }
        }
        self.n_reach = reach.len() as u64;
        self.mix(fresh.len() as u64 * 1000 + reach.len() as u64);
        // forget what is gone, to keep the model small
        if self.objs.len() > 400 {
            let used: HashSet<u32> = self.objs.values().filter(|o| !o.dead).flat_map(|o| o.out.iter().flatten().copied()).collect();
            self.objs.retain(|i, o| !o.dead || used.contains(i));
        }
    }

    /// Unreachable values which a collection has to destroy.
    fn garbage(&self) -> HashSet<u32> {
        let keep = self.reach(true);
        self.objs.iter().filter(|(i, o)| !o.dead && !keep.contains(i)).map(|(i, _)| *i).collect()
    }

    fn live_roots(&self) -> Vec<usize> {
        (0..self.roots.len()).filter(|i| self.roots[*i].t.is_some()).collect()
    }

    fn pick(&mut self) -> Option<usize> {
        let l = self.live_roots();
        if l.is_empty() {
            return None;
        }
        Some(l[self.rng.below(l.len())])
    }

    /// A live root whose slots can be written.
    fn pick_open(&mut self) -> Option<usize> {
        for _ in 0..4 {
            let i = self.pick()?;
            if self.roots[i].h.slots().is_some_and(Slots::free) {
                return Some(i);
            }
        }
        None
    }

    /// Maybe let one of the next traversals panic.
    fn light(&mut self) -> bool {
        let light = self.cfg.visits && self.rng.chance(1, 5);
        if light {
            let most = [2, 6, 20][self.rng.below(3)];
            let n = self.rng.range(1, most);
            FUSE.with(|f| f.set(n as u32));
        }
        let strike = self.cfg.cond_panics && self.rng.chance(1, 5);
        if strike {
            let n = self.rng.range(1, 4);
            COND_FUSE.with(|f| f.set(n as u32));
        }
        light || strike
    }

    /// Did it panic, and was that intended?
    fn outcome(&mut self, r: &Result<(), String>, what: &str) -> bool {
        FUSE.with(|f| f.set(0));
        COND_FUSE.with(|f| f.set(0));
        let fired = FIRED.with(|f| f.replace(false));
        let Err(m) = r else {
            if fired {
                rep::violation("panic", &format!("a traversal during '{what}' panicked, but '{what}' ended normally"));
            }
            return false;
        };
        if !m.contains("on purpose") {
            rep::violation("panic", &format!("'{what}' panicked: {m}"));
        }
        let visit = m.contains("traversal");
        if !m.contains("condition") {
            rep::count(if visit { "traversal_panics" } else { "destructor_panics" }, 1);
        }
        PRIVATE_IDS.with(|v| v.borrow_mut().clear());
        if visit && SYNC {
            // whatever that collection had seen may be held back for good
            self.objs.values_mut().for_each(|o| o.lost = true);
        }
        true
    }

    /// Run an operation that drops handles; returns whether a destructor panicked.
    fn dropping(&mut self, n_handles: u64, what: &str, f: impl FnOnce()) {
        let (calls, trues) = (CALLS.with(Cell::get), TRUES.with(Cell::get));
        let rc = self.rc_dead();
        let arm = self.cfg.panics && self.rng.chance(1, 4);
        let light = self.light();
        let panicked = if arm || light {
            ARMED.with(|a| a.set(arm));
            let r = rep::expecting(f);
            ARMED.with(|a| a.set(false));
            self.outcome(&r, what)
        } else {
            f();
            false
        };
        BUSY.with(|b| b.set(false));
        if n_handles > 0 && !panicked {
            let c = CALLS.with(Cell::get) - calls;
            if c == 0 {
                rep::violation("policy", &format!("'{what}' dropped {n_handles} handles without consulting the condition"));
            }
            if TRUES.with(Cell::get) == trues {
                let inner: usize = rc.iter().map(|i| self.objs[i].out.iter().flatten().count()).sum();
                if !self.cfg.dtor && c != n_handles + inner as u64 {
                    rep::violation("policy", &format!("'{what}' dropped {} handles but consulted the condition {c} times", n_handles + inner as u64));
                }
                // no collection may have happened: only reference counting
                for (i, o) in &self.objs {
                    if !o.dead && obs::is_dropped(*i) && !rc.contains(i) && !self.cfg.dtor {
                        rep::violation("policy", &format!("'{what}' destroyed the cyclic value {i} although no collection was due"));
                    }
                }
            }
            rep::count("condition_calls", c);
            rep::count("condition_true", TRUES.with(Cell::get) - trues);
        }
        let due = n_handles > 0 && !SYNC && LAST.with(Cell::get).2 && !self.cfg.dtor && !panicked;
        let must = due.then(|| self.garbage());
        if due {
            let m = must.as_ref().unwrap();
            let open: Vec<u32> = m.iter().copied().filter(|i| !obs::is_dropped(*i)).collect();
            if let Some(i) = open.first() {
                rep::violation("policy", &format!("the condition asked for a collection during '{what}' but the garbage value {i} is still there"));
            }
            rep::count("collections_by_condition", 1);
        }
        if CALLS.with(Cell::get) != calls {
            if TRUES.with(Cell::get) != trues {
                self.drops_known = false;
            } else {
                self.drops_lo += CALLS.with(Cell::get) - calls;
                self.drops_hi += CALLS.with(Cell::get) - calls;
            }
        }
        self.audit(None, panicked, what);
        let _ = must;
    }

    pub fn explicit_collect(&mut self) {
        let must = self.garbage();
        let cyc = must.len() as u64;
        let arm = self.cfg.panics && self.rng.chance(1, 3);
        // handles from garbage to survivors are dropped by the collection itself
        let cross: u64 = must.iter().map(|i| self.objs[i].out.iter().flatten().filter(|t| !must.contains(t)).count() as u64).sum();
        let arm = self.light() || arm;
        EXPLICIT.with(|e| e.set(true));
        ARMED.with(|a| a.set(arm && self.cfg.panics));
        let collect = || {
            collect();
            if SYNC && must.iter().any(|i| !obs::is_dropped(*i)) {
                collect();
            }
        };
        let panicked = if arm {
            let r = rep::expecting(collect);
            self.outcome(&r, "collect")
        } else {
            collect();
            false
        };
        ARMED.with(|a| a.set(false));
        EXPLICIT.with(|e| e.set(false));
        BUSY.with(|b| b.set(false));
        // destructors may drop more
        self.drops_known = !panicked && (!self.cfg.dtor || cross == 0)
            && !self.objs.values().any(|o| o.stuck && !o.dead);
        self.drops_lo = 0;
        self.drops_hi = cross;
        rep::count("explicit_collections", 1);
        rep::count("garbage_at_collections", cyc);
        if cyc > 0 {
            rep::count("collections_with_garbage", 1);
        }
        self.audit(Some(must), panicked, "collect");
    }

    /// Check the counters by dropping a probe.
    fn probe(&mut self) {
        if self.panicked {
            return;
        }
        POLICY.with(|p| p.set(Policy::Never));
        let dtor = DTOR.with(|d| d.replace(false));
        let (h, id) = Any::make(5, 0);
        drop(h);
        DTOR.with(|d| d.set(dtor));
        POLICY.with(|p| p.set(self.policy));
        let (dropped, existing, _) = LAST.with(Cell::get);
        let expect = self.objs.values().filter(|o| !o.dead).map(|o| o.out.iter().flatten().count()).sum::<usize>()
            + self.roots.iter().filter(|r| r.t.is_some()).count()
            + self.held.len()
            + self.base_existing;
        if existing != expect {
            rep::violation("count", &format!("the condition was told that {existing} handles exist, but there are {expect}"));
        }
        self.drops_lo += 1;
        self.drops_hi += 1;
        if self.drops_known && !((self.drops_lo as usize)..=(self.drops_hi as usize)).contains(&dropped) {
            rep::violation("count", &format!("the condition was told that {dropped} handles were dropped since the last collection, but it is {}..={}", self.drops_lo, self.drops_hi));
        }
        if !obs::is_dropped(id) {
            rep::violation("prompt", "a value without handles survived its last handle");
        }
        rep::count("counter_probes", 1);
        if self.drops_known {
            rep::count("drop_counter_probes", 1);
        }
    }

    fn inspect(&mut self) {
        let Some(i) = self.pick() else { return };
        let r = &self.roots[i];
        let t = r.t.unwrap();
        let o = &self.objs[&t];
        for (k, a) in r.h.addrs().iter().enumerate() {
            if *a != o.ptr {
                rep::violation("ident", &format!("accessor {k} of a handle to value {t} gives an address other than the value's"));
            }
        }
        let (id, can) = r.h.id_can();
        obs::check_read(id, t, can);
        if let Some(s) = r.h.slots() {
            if s.free() {
                let got: Vec<Option<u32>> = s.with(|v| v.iter().map(|h| h.try_id_can().map(|x| x.0)).collect());
                if got != o.out {
                    rep::violation("ident", &format!("contents of value {t} changed by themselves: {got:?} instead of {:?}", o.out));
                }
            }
        }
        let j = {
            let l = self.live_roots();
            l[self.rng.below(l.len())]
        };
        let q = &self.roots[j];
        let same = q.t == r.t;
        if r.h.ptr_eq(&q.h) != same {
            rep::violation("ident", &format!("pointer equality of handles to values {t} and {} is {}", q.t.unwrap(), !same));
        }
        if r.h.same_kind(&q.h) {
            let want = value_eq(t, q.t.unwrap());
            if r.h.val_eq(&q.h) != want {
                rep::violation("ident", "equality of handles is not equality of values");
            }
        }
        rep::count("identity_checks", 1);
    }

    fn push_obj(&mut self, h: Any, id: u32, leaf: bool) {
        let ptr = h.ptr();
        self.objs.insert(id, MObj { leaf, out: vec![], dead: false, ptr, stuck: false, lost: false });
        self.roots.push(Root { h, t: Some(id) });
    }

    pub fn step(&mut self) {
        let n_live = self.objs.values().filter(|o| !o.dead).count();
        let op = self.rng.below(100);
        self.mix(op as u64);
        match op {
            0..=15 if n_live < self.max_objs => {
                let kind = if self.rng.chance(1, 6) { 5 } else { some_kind(&mut self.rng) };
                let (h, id) = Any::make(kind, self.rng.below(2));
                rep::trace(|| format!("new {id} kind {kind}"));
                self.push_obj(h, id, kind == 5);
                self.audit(None, false, "new");
            }
            16..=21 if self.roots.len() < 2 * self.max_objs => {
                if let Some(i) = self.pick() {
                    let t = self.roots[i].t;
                    let h = self.roots[i].h.dup();
                    if !h.ptr_eq(&self.roots[i].h) {
                        rep::violation("ident", "a clone does not alias its original");
                    }
                    rep::trace(|| format!("clone root of {}", t.unwrap()));
                    self.roots.push(Root { h, t });
                    self.audit(None, false, "clone");
                }
            }
            22..=45 => {
                // store a handle (cloned or moved) in a value
                let (Some(a), Some(b)) = (self.pick_open(), self.pick()) else { return };
                let (ta, tb) = (self.roots[a].t.unwrap(), self.roots[b].t.unwrap());
                let mv = a != b && self.rng.chance(1, 3);
                let h = if mv { None } else { Some(self.roots[b].h.dup()) };
                rep::trace(|| format!("store {ta} -> {tb}{}", if mv { " (moved)" } else { "" }));
                if mv {
                    let r = self.roots.swap_remove(b);
                    let a = self.roots.iter().position(|x| x.t == Some(ta)).unwrap();
                    self.roots[a].h.slots().unwrap().with(|v| v.push(r.h));
                } else {
                    self.roots[a].h.slots().unwrap().with(|v| v.push(h.unwrap()));
                    if self.rng.chance(1, 60) {
                        // very many handles to one value
                        let n = [3, 10, 40, 100, 300][self.rng.below(if self.cfg.big { 5 } else { 4 })];
                        rep::trace(|| format!("store {ta} -> {tb} {n} times"));
                        for _ in 0..n {
                            let h = self.roots[b].h.dup();
                            self.roots[a].h.slots().unwrap().with(|v| v.push(h));
                            self.objs.get_mut(&ta).unwrap().out.push(Some(tb));
                        }
                        rep::maxi("handles_to_one_value", n as u64);
                    }
                }
                self.objs.get_mut(&ta).unwrap().out.push(Some(tb));
                self.audit(None, false, "store");
            }
            46..=65 => {
                // drop a root
                if self.roots.is_empty() {
                    return;
                }
                let i = self.rng.below(self.roots.len());
                let r = self.roots.swap_remove(i);
                rep::trace(|| format!("drop root of {:?}", r.t));
                let n = u64::from(r.t.is_some());
                self.dropping(n, "drop of a handle", move || drop(r));
            }
            66..=73 => {
                // drop a stored handle, in place or after taking it out
                let Some(a) = self.pick_open() else { return };
                let ta = self.roots[a].t.unwrap();
                let n = self.objs[&ta].out.len();
                if n == 0 {
                    return;
                }
                let k = self.rng.below(n);
                let t = self.objs.get_mut(&ta).unwrap().out.swap_remove(k);
                let inside = self.rng.chance(1, 2);
                rep::trace(|| format!("remove {ta} -> {t:?}{}", if inside { " (while borrowed)" } else { "" }));
                let h = self.roots[a].h.dup();
                self.dropping(u64::from(t.is_some()) + 1, "removal of a stored handle", move || {
                    if inside {
                        h.slots().unwrap().with(|v| drop(v.swap_remove(k)));
                    } else {
                        let x = h.slots().unwrap().with(|v| v.swap_remove(k));
                        drop(x);
                    }
                    drop(h);
                });
            }
            74..=78 => {
                // take a stored handle out as a root
                let Some(a) = self.pick_open() else { return };
                let ta = self.roots[a].t.unwrap();
                let n = self.objs[&ta].out.len();
                if n == 0 {
                    return;
                }
                let k = self.rng.below(n);
                let t = self.objs.get_mut(&ta).unwrap().out.swap_remove(k);
                let h = self.roots[a].h.slots().unwrap().with(|v| v.swap_remove(k));
                rep::trace(|| format!("take {ta} -> {t:?}"));
                self.roots.push(Root { h, t });
                self.audit(None, false, "take");
            }
            79..=81 => {
                // clear or replace the contents
                let Some(a) = self.pick_open() else { return };
                let ta = self.roots[a].t.unwrap();
                let out = std::mem::take(&mut self.objs.get_mut(&ta).unwrap().out);
                let n = out.iter().flatten().count() as u64;
                let inside = self.rng.chance(1, 2);
                rep::trace(|| format!("clear {ta} ({out:?})"));
                let h = self.roots[a].h.dup();
                self.dropping(n + 1, "clearing a value's contents", move || {
                    if inside {
                        h.slots().unwrap().with(|v| v.clear());
                    } else {
                        let v = h.slots().unwrap().with(std::mem::take);
                        drop(v);
                    }
                    drop(h);
                });
            }
            82..=83 => {
                // swap the contents of two values
                let (Some(a), Some(b)) = (self.pick_open(), self.pick_open()) else { return };
                let (ta, tb) = (self.roots[a].t.unwrap(), self.roots[b].t.unwrap());
                if ta == tb {
                    return;
                }
                rep::trace(|| format!("swap contents of {ta} and {tb}"));
                let v = self.roots[a].h.slots().unwrap().with(std::mem::take);
                let w = self.roots[b].h.slots().unwrap().with(|x| std::mem::replace(x, v));
                self.roots[a].h.slots().unwrap().with(|x| *x = w);
                let va = std::mem::take(&mut self.objs.get_mut(&ta).unwrap().out);
                let vb = std::mem::replace(&mut self.objs.get_mut(&tb).unwrap().out, va);
                self.objs.get_mut(&ta).unwrap().out = vb;
                self.audit(None, false, "swap");
            }
            84..=88 => {
                rep::trace(|| "collect".into());
                self.explicit_collect();
            }
            89..=91 => self.inspect(),
            92..=93 if self.cfg.probe => self.probe(),
            94 if self.rng.chance(1, 6) && n_live < self.max_objs => self.shape(),
            94 if self.rng.chance(1, 5) => self.crowd(),
            94 => self.pick_policy(),
            95..=97 if self.cfg.borrow => self.borrow_op(),
            _ => {
                // drop several roots at once
                let n = self.rng.below(self.roots.len().min(4) + 1);
                let mut v = Vec::new();
                for _ in 0..n {
                    let i = self.rng.below(self.roots.len());
                    v.push(self.roots.swap_remove(i));
                }
                let k = v.iter().filter(|r| r.t.is_some()).count() as u64;
                rep::trace(|| format!("drop roots of {:?}", v.iter().map(|r| r.t).collect::<Vec<_>>()));
                self.dropping(k, "drop of several handles", move || drop(v));
            }
        }
    }

    /// As many handles to one value as an integer of some size can count, give or take one.
    fn crowd(&mut self) {
        let Some(a) = self.pick_open() else { return };
        let t = self.roots[a].t.unwrap();
        let n_out = self.objs[&t].out.len();
        if n_out == 0 {
            let h = self.roots[a].h.dup();
            self.roots[a].h.slots().unwrap().with(|v| v.push(h));
            self.objs.get_mut(&t).unwrap().out.push(Some(t));
        }
        let bits = if n_out < 8 && self.rng.chance(1, 40) { 16 } else { 8 };
        let outside = self.roots.iter().filter(|r| r.t == Some(t)).count() + self.held.iter().filter(|r| r.1.t == Some(t)).count();
        let n = ((1usize << bits) + [0, 0, 1, 2][self.rng.below(4)]).saturating_sub(outside + self.rng.below(2));
        rep::trace(|| format!("{n} more handles to {t}"));
        let mut crowd: Vec<Any> = (0..n).map(|_| self.roots[a].h.dup()).collect();
        POLICY.with(|p| p.set(Policy::Never));
        let one = crowd.pop();
        self.dropping(1, "drop of one of many handles", move || drop(one));
        self.explicit_collect();
        self.dropping(crowd.len() as u64, "drop of many handles", move || drop(crowd));
        POLICY.with(|p| p.set(self.policy));
        rep::maxi("handles_to_one_value", n as u64);
        rep::count("crowds", 1);
    }

    /// Many new values in a regular structure, of which only some stay directly held.
    fn shape(&mut self) {
        let k = if self.cfg.big { [20, 60, 150, 400][self.rng.below(4)] } else { [8, 20, 40, 70][self.rng.below(4)] };
        let form = self.rng.below(6);
        rep::trace(|| format!("structure of {k} values, form {form}"));
        let first = self.roots.len();
        for i in 0..k {
            let kind = if form == 5 && i % 3 == 2 { 5 } else { some_kind(&mut self.rng) };
            let (h, id) = Any::make(kind, self.rng.below(2));
            self.push_obj(h, id, kind == 5);
        }
        let link = |w: &mut World, i: usize, j: usize| {
            let (a, b) = (first + i % k, first + j % k);
            if w.roots[a].h.slots().is_none() {
                return;
            }
            let h = w.roots[b].h.dup();
            let (ta, tb) = (w.roots[a].t.unwrap(), w.roots[b].t.unwrap());
            w.roots[a].h.slots().unwrap().with(|v| v.push(h));
            w.objs.get_mut(&ta).unwrap().out.push(Some(tb));
        };
        for i in 0..k {
            match form {
                0 => link(self, i, i + 1),                               // ring
                1 if i + 1 < k => link(self, i, i + 1),                  // chain
                2 if i > 0 => link(self, (i - 1) / 2, i),                // tree
                3 => (link(self, i, i + 1), link(self, i + 1, i)).1,     // doubly linked
                4 => (link(self, i, i), link(self, 0, i)).1,             // star of self-loops
                5 => (0..3).for_each(|_| {
                    let j = self.rng.below(k);
                    link(self, i, j)
                }),
                _ => (),
            }
        }
        rep::maxi("values_in_one_structure", k as u64);
        self.audit(None, false, "construction");
        let keep = self.rng.below(3);
        let mut gone = self.roots.split_off(first);
        for _ in 0..keep {
            let i = self.rng.below(gone.len());
            self.roots.push(gone.swap_remove(i));
        }
        self.dropping(gone.len() as u64, "drop of handles to a structure", move || drop(gone));
    }

    fn borrow_op(&mut self) {
        if !self.held.is_empty() && self.rng.chance(1, 2) {
            let i = self.rng.below(self.held.len());
            let (g, r) = self.held.swap_remove(i);
            if self.rng.chance(1, 10) && g.exclusive() {
                rep::trace(|| format!("leak guard of {:?}", r.t));
                g.leak();
                self.objs.get_mut(&r.t.unwrap()).unwrap().stuck = true;
                rep::count("leaked_guards", 1);
            } else {
                rep::trace(|| format!("release guard of {:?}", r.t));
                drop(g);
            }
            self.roots.push(r);
            self.audit(None, false, "release of a guard");
            return;
        }
        if self.held.len() >= 3 {
            return;
        }
        let Some(a) = self.pick_open() else { return };
        let t = self.roots[a].t;
        let h = self.roots[a].h.dup();
        if self.rng.chance(1, 5) && h.slots().unwrap().poison() {
            rep::trace(|| format!("poison {t:?}"));
            rep::count("poisoned_locks", 1);
            self.dropping(1, "drop of a handle to a poisoned value", move || drop(h));
            return;
        }
        if self.rng.chance(1, 4) {
            // the handle goes away during the borrow; nothing is collected meanwhile
            let (excl, real) = (self.rng.chance(2, 3), self.rng.chance(1, 2));
            self.dropping(1, "drop of a copied handle", move || drop(h));
            let Some(a) = self.roots.iter().position(|r| r.t == t) else { return };
            let r2 = self.roots.swap_remove(a);
            if r2.h.slots().is_some_and(Slots::free) && !self.objs[&t.unwrap()].lost && !self.rc_dead().contains(&t.unwrap()) {
                rep::trace(|| format!("drop a root of {t:?} while it is inaccessible"));
                rep::count("handles_dropped_during_borrows", 1);
                POLICY.with(|p| p.set(Policy::Never));
                let g = if real { r2.h.slots().unwrap().hold(excl) } else { Held::Gate(Gate::new(t.unwrap())) };
                let panics = std::mem::take(&mut self.cfg.panics);
                let visits = std::mem::take(&mut self.cfg.visits);
                let cond = BUSY_COND.with(|b| b.replace(false));
                self.dropping(1, "drop of a handle to an inaccessible value", move || drop(r2));
                BUSY_COND.with(|b| b.set(cond));
                (self.cfg.panics, self.cfg.visits) = (panics, visits);
                drop(g);
                POLICY.with(|p| p.set(self.policy));
                return;
            }
            self.dropping(1, "drop of a handle", move || drop(r2));
            return;
        }
        if self.rng.chance(1, 3) {
            rep::trace(|| format!("let another thread use {t:?}"));
            self.held.push((Held::Gate(Gate::new(t.unwrap())), Root { h, t }));
            self.audit(None, false, "sharing a value");
            return;
        }
        let g = h.slots().unwrap().hold(self.rng.chance(2, 3));
        rep::trace(|| format!("hold guard of {t:?}"));
        rep::count("guards_held", 1);
        self.held.push((g, Root { h, t }));
        self.audit(None, false, "taking a guard");
    }

    /// Drop everything, collect and compare; afterwards nothing may be left.
    /// Returns the number of values which legitimately still exist, if known.
    pub fn finish(mut self) -> Option<usize> {
        while let Some((g, r)) = self.held.pop() {
            drop(g);
            self.roots.push(r);
        }
        if self.rng.chance(1, 2) {
            // one at a time
            while !self.roots.is_empty() {
                let i = self.rng.below(self.roots.len());
                let r = self.roots.swap_remove(i);
                let n = u64::from(r.t.is_some());
                self.dropping(n, "final drop of a handle", move || drop(r));
            }
        } else {
            let v = std::mem::take(&mut self.roots);
            let n = v.iter().filter(|r| r.t.is_some()).count() as u64;
            self.dropping(n, "final drop of all handles", move || drop(v));
        }
        // destructors may have kept handles or made new garbage
        self.cfg.panics = false;
        self.cfg.visits = false;
        self.cfg.cond_panics = false;
        BUSY_COND.with(|b| b.set(false));
        let private = PRIVATE.take();
        self.dropping(0, "drop of handles made by conditions", move || drop(private));
        for _ in 0..40 {
            self.explicit_collect();
            if self.roots.is_empty() && self.garbage().is_empty() {
                break;
            }
            if self.rng.chance(1, 2) {
                DTOR.with(|d| d.set(false));
            }
            let v = std::mem::take(&mut self.roots);
            let n = v.iter().filter(|r| r.t.is_some()).count() as u64;
            self.dropping(n, "final drop of handles kept by destructors", move || drop(v));
        }
        DTOR.with(|d| d.set(false));
        self.explicit_collect();
        for i in PRIVATE_IDS.take() {
            rep::count("values_made_by_conditions", 1);
            if !obs::is_dropped(i) {
                rep::violation("complete", &format!("value {i}, made by a condition, is left after everything was dropped and collected"));
            }
        }
        if !self.panicked {
            let left = self.objs.values().filter(|o| !o.dead && !o.stuck).count();
            let held_back = self.garbage().len();
            if held_back > 0 {
                rep::violation("complete", &format!("{left} values are left after everything was dropped and collected"));
            }
        }
        let intended = self.objs.values().filter(|o| !o.dead).count();
        rep::count("cyclic_garbage_collected", self.cyclic_collected);
        if self.cyclic_collected > 0 {
            rep::distinct(self.hash);
            rep::sample(rep::trace_text);
        }
        set_collect_condition(default_collect_condition);
        (!self.panicked).then_some(intended)
    }
}

/// One execution, on a thread of its own.
pub fn run(seed: u64, cfg: &Cfg) {
    let cfg = cfg.clone();
    let left = crate::sched::alone(move || {
        let mut rng = Rng::new(seed);
        // make sure the collector's own state exists before values are tracked
        drop(Gc::new(0u8));
        let mut w = World::new(Rng::new(rng.next()), cfg.clone());
        let n = if cfg.big { 400 } else { rng.range(20, 160) };
        for _ in 0..n {
            w.step();
        }
        rep::count("operations", n as u64);
        w.finish()
    });
    let Ok(left) = left else { rep::harness_error("a panic escaped") };
    let leaked = mem::reset();
    let untracked = mem::UNTRACKED.swap(0, Relaxed);
    rep::count("untracked_values", untracked);
    if let (Some(n), true) = (left, mem::mode() != mem::Mode::Off && untracked == 0) {
        if leaked != n {
            rep::violation("once", &format!("{leaked} blocks of value memory are left at the end, but {n} values"));
        }
    }
}
