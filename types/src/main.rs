//! Which handles a visitor is shown, for values of many types. `gen.rs` is written by
//! ../../tools/gentypes.py; the types in it change with the seed.

use dumpster::{sync, unsync, Collectable, Visitor};
use std::borrow::Cow;
use std::cell::{Cell, OnceCell, RefCell};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};
use std::marker::PhantomData;
use std::sync::{Mutex, MutexGuard, RwLock, RwLockReadGuard};

mod gen;

pub type HU = unsync::Gc<u64>;
pub type HS = sync::Gc<u64>;
/// a handle to a value which has handles itself
pub type HV = unsync::Gc<Vec<HU>>;

/// Which collector a handle belongs to, and what it refers to.
type Target = (bool, usize);

pub struct Ctx {
    x: u64,
    budget: i64,
    /// copies of handles made so far
    hu: Vec<HU>,
    hs: Vec<HS>,
    locks: bool,
    pub accessible: Vec<Target>,
    pub hidden: Vec<Target>,
    pub blocked: u64,
    pub cells: u64,
    pub poisoned: u64,
}

impl Ctx {
    pub fn next(&mut self) -> u64 {
        self.x = self.x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() >> 33) as usize % n.max(1)
    }
    /// A number of elements.
    fn len(&mut self) -> usize {
        self.budget -= 1;
        if self.budget < 0 {
            return self.below(2);
        }
        [0, 1, 2, 3, 5, 9][self.below(6)]
    }
    /// Should a recursive type go on?
    fn again(&mut self) -> bool {
        self.budget -= 1;
        self.budget > 0 && self.below(2) == 0
    }
    fn found(&mut self, hidden: bool, t: Target) {
        if hidden {
            self.hidden.push(t);
        } else {
            self.accessible.push(t);
        }
    }
    /// Should this cell be made inaccessible?
    fn lock(&mut self, hidden: bool) -> bool {
        self.cells += 1;
        let b = self.locks && self.below(4) == 0;
        if b && !hidden {
            self.blocked += 1;
        }
        b
    }
}

/// Types of which values can be made, and whose handles are known.
pub trait Case: Sized {
    fn make(c: &mut Ctx) -> Self;
    /// Note the handles this value owns, and perhaps make some cells inaccessible.
    fn plan(&self, c: &mut Ctx, hidden: bool);
}

impl Case for HU {
    fn make(c: &mut Ctx) -> Self {
        if !c.hu.is_empty() && c.below(6) == 0 {
            let i = c.below(c.hu.len());
            return c.hu[i].clone();
        }
        let h = HU::new(1);
        c.hu.push(h.clone());
        h
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        c.found(hidden, (false, HU::as_ptr(self) as *const u8 as usize));
    }
}
impl Case for HS {
    fn make(c: &mut Ctx) -> Self {
        if !c.hs.is_empty() && c.below(6) == 0 {
            let i = c.below(c.hs.len());
            return c.hs[i].clone();
        }
        let h = HS::new(1);
        c.hs.push(h.clone());
        h
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        c.found(hidden, (true, HS::as_ptr(self) as *const u8 as usize));
    }
}
impl Case for HV {
    fn make(c: &mut Ctx) -> Self {
        HV::new(vec![HU::make(c), HU::make(c)])
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        c.found(hidden, (false, HV::as_ptr(self) as *const u8 as usize));
    }
}

macro_rules! plain {
    ($($t: ty = $e: expr;)*) => {
        $(impl Case for $t {
            fn make(_: &mut Ctx) -> Self { $e }
            fn plan(&self, _: &mut Ctx, _: bool) {}
        })*
        fn plain(r: &mut Run) {
            $(r.check::<$t>(stringify!($t));)*
        }
    };
}
extern "C" fn cfun(a: u8) -> u8 {
    a
}
plain! {
    () = (); u8 = 1; u16 = 1; u32 = 1; u64 = 1; u128 = 1; usize = 1; i8 = 1; i16 = 1; i32 = 1; i64 = 1; i128 = 1; isize = 1;
    bool = true; char = 'x'; f32 = 1.0; f64 = 1.0; String = "x".into(); std::rc::Rc<str> = "x".into();
    std::path::PathBuf = "x".into(); std::ffi::OsString = "x".into();
    std::sync::atomic::AtomicU8 = Default::default(); std::sync::atomic::AtomicU16 = Default::default();
    std::sync::atomic::AtomicU32 = Default::default(); std::sync::atomic::AtomicU64 = Default::default();
    std::sync::atomic::AtomicUsize = Default::default(); std::sync::atomic::AtomicI8 = Default::default();
    std::sync::atomic::AtomicI16 = Default::default(); std::sync::atomic::AtomicI32 = Default::default();
    std::sync::atomic::AtomicI64 = Default::default(); std::sync::atomic::AtomicIsize = Default::default();
    std::num::NonZeroU8 = 1.try_into().unwrap(); std::num::NonZeroU16 = 1.try_into().unwrap();
    std::num::NonZeroU32 = 1.try_into().unwrap(); std::num::NonZeroU64 = 1.try_into().unwrap();
    std::num::NonZeroU128 = 1.try_into().unwrap(); std::num::NonZeroUsize = 1.try_into().unwrap();
    std::num::NonZeroI8 = 1.try_into().unwrap(); std::num::NonZeroI16 = 1.try_into().unwrap();
    std::num::NonZeroI32 = 1.try_into().unwrap(); std::num::NonZeroI64 = 1.try_into().unwrap();
    std::num::NonZeroI128 = 1.try_into().unwrap(); std::num::NonZeroIsize = 1.try_into().unwrap();
    std::any::TypeId = std::any::TypeId::of::<u8>();
    std::collections::hash_map::DefaultHasher = Default::default(); std::collections::hash_map::RandomState = Default::default();
    &'static str = "x"; &'static [u8] = &[1]; Box<str> = "x".into(); Box<std::path::Path> = std::path::Path::new("x").into();
    Box<std::ffi::OsStr> = std::ffi::OsStr::new("x").into();
    Cell<u32> = Cell::new(1); Cell<Option<bool>> = Cell::new(None);
    BuildHasherDefault<std::collections::hash_map::DefaultHasher> = Default::default();
    fn() -> HU = || HU::new(1); fn(HU) -> u8 = |_| 1; fn(HU, HU) -> HS = |_, _| HS::new(1); extern "C" fn(u8) -> u8 = cfun;
    unsafe extern "C" fn(u8) -> u8 = cfun; unsafe fn(u8, u8, u8) -> u8 = |_, _, _| 1;
    fn(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8) -> u8 = |_, _, _, _, _, _, _, _, _, _| 1;
}

/// Refers to something it does not own.
impl<T: Case + 'static> Case for &'static T {
    fn make(c: &mut Ctx) -> Self {
        Box::leak(Box::new(T::make(c)))
    }
    fn plan(&self, _: &mut Ctx, _: bool) {}
}
impl<T: Case + 'static> Case for MutexGuard<'static, T> {
    fn make(c: &mut Ctx) -> Self {
        let m: &Mutex<T> = Box::leak(Box::new(Mutex::new(T::make(c))));
        m.lock().unwrap()
    }
    fn plan(&self, _: &mut Ctx, _: bool) {}
}
impl<T: Case + 'static> Case for RwLockReadGuard<'static, T> {
    fn make(c: &mut Ctx) -> Self {
        let m: &RwLock<T> = Box::leak(Box::new(RwLock::new(T::make(c))));
        m.read().unwrap()
    }
    fn plan(&self, _: &mut Ctx, _: bool) {}
}
impl<T> Case for PhantomData<T> {
    fn make(_: &mut Ctx) -> Self {
        PhantomData
    }
    fn plan(&self, _: &mut Ctx, _: bool) {}
}

impl<T: Case> Case for Box<T> {
    fn make(c: &mut Ctx) -> Self {
        Box::new(T::make(c))
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        let x: &T = self;
        x.plan(c, hidden);
    }
}
impl<T: Case> Case for Box<[T]> {
    fn make(c: &mut Ctx) -> Self {
        Vec::make(c).into_boxed_slice()
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        (0..self.len()).for_each(|i| self[i].plan(c, hidden));
    }
}
impl<T: Case> Case for Vec<T> {
    fn make(c: &mut Ctx) -> Self {
        (0..c.len()).map(|_| T::make(c)).collect()
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        (0..self.len()).for_each(|i| self[i].plan(c, hidden));
    }
}
impl<T: Case> Case for VecDeque<T> {
    fn make(c: &mut Ctx) -> Self {
        // wrapped around often
        let mut v = VecDeque::new();
        for _ in 0..c.len() {
            let x = T::make(c);
            match c.below(3) {
                0 => v.push_front(x),
                _ => v.push_back(x),
            }
            if c.below(4) == 0 {
                let x = v.pop_front().unwrap();
                v.push_back(x);
            }
        }
        v
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        (0..self.len()).for_each(|i| self[i].plan(c, hidden));
    }
}
impl<T: Case> Case for LinkedList<T> {
    fn make(c: &mut Ctx) -> Self {
        (0..c.len()).map(|_| T::make(c)).collect()
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        self.iter().rev().for_each(|x| x.plan(c, hidden));
    }
}
impl<T: Case, const N: usize> Case for [T; N] {
    fn make(c: &mut Ctx) -> Self {
        std::array::from_fn(|_| T::make(c))
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        (0..N).for_each(|i| self[i].plan(c, hidden));
    }
}
impl<T: Case> Case for Option<T> {
    fn make(c: &mut Ctx) -> Self {
        (c.below(4) > 0).then(|| T::make(c))
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        if let Some(x) = self {
            x.plan(c, hidden);
        }
    }
}
impl<T: Case, E: Case> Case for Result<T, E> {
    fn make(c: &mut Ctx) -> Self {
        if c.below(2) == 0 {
            Ok(T::make(c))
        } else {
            Err(E::make(c))
        }
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        match self {
            Ok(x) => x.plan(c, hidden),
            Err(x) => x.plan(c, hidden),
        }
    }
}
impl<T: Case> Case for OnceCell<T> {
    fn make(c: &mut Ctx) -> Self {
        let o = OnceCell::new();
        if c.below(4) > 0 {
            let _ = o.set(T::make(c));
        }
        o
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        if let Some(x) = self.get() {
            x.plan(c, hidden);
        }
    }
}
impl<T: Case> Case for RefCell<T> {
    fn make(c: &mut Ctx) -> Self {
        RefCell::new(T::make(c))
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        let lock = c.lock(hidden);
        self.borrow().plan(c, hidden || lock);
        if lock {
            std::mem::forget(self.borrow_mut());
        } else if c.locks && c.below(3) == 0 {
            // borrowed, but not exclusively
            std::mem::forget(self.borrow());
        }
    }
}
fn poison(f: impl FnOnce()) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    assert!(r.is_err());
}
impl<T: Case> Case for Mutex<T> {
    fn make(c: &mut Ctx) -> Self {
        Mutex::new(T::make(c))
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        let lock = c.lock(hidden);
        T::plan(&self.lock().unwrap(), c, hidden || lock);
        if c.below(5) == 0 {
            c.poisoned += 1;
            poison(|| {
                let _g = self.lock().unwrap();
                std::panic::panic_any("expected");
            });
        }
        if lock {
            std::mem::forget(self.lock());
        }
    }
}
impl<T: Case> Case for RwLock<T> {
    fn make(c: &mut Ctx) -> Self {
        RwLock::new(T::make(c))
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        let lock = c.lock(hidden);
        T::plan(&self.read().unwrap(), c, hidden || lock);
        if c.below(5) == 0 {
            c.poisoned += 1;
            poison(|| {
                let _g = self.write().unwrap();
                std::panic::panic_any("expected");
            });
        }
        if lock {
            std::mem::forget(self.write());
        } else if c.locks && c.below(3) == 0 {
            std::mem::forget(self.read());
        }
    }
}
impl<T: Case + Clone + 'static> Case for Cow<'static, T> {
    fn make(c: &mut Ctx) -> Self {
        if c.below(3) == 0 {
            Cow::Borrowed(Box::leak(Box::new(T::make(c))))
        } else {
            Cow::Owned(T::make(c))
        }
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        if let Cow::Owned(x) = self {
            x.plan(c, hidden);
        }
    }
}

/// An element of sets and maps.
#[derive(Clone)]
pub struct Key<T>(u64, T);
unsafe impl<T: Collectable> Collectable for Key<T> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.1.accept(v)
    }
}
impl<T> PartialEq for Key<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T> Eq for Key<T> {}
impl<T> PartialOrd for Key<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<T> Ord for Key<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl<T> Hash for Key<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        // with collisions
        (self.0 % 8).hash(h);
    }
}
impl<T: Case> Case for Key<T> {
    fn make(c: &mut Ctx) -> Self {
        Key(c.next(), T::make(c))
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        self.1.plan(c, hidden);
    }
}
/// A hasher with a handle.
#[derive(Clone)]
pub struct Hs(HU);
unsafe impl Collectable for Hs {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.0.accept(v)
    }
}
impl BuildHasher for Hs {
    type Hasher = std::collections::hash_map::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        Default::default()
    }
}
pub trait Hashing: BuildHasher {
    fn make(c: &mut Ctx) -> Self;
    fn plan(&self, c: &mut Ctx, hidden: bool);
}
impl Hashing for Hs {
    fn make(c: &mut Ctx) -> Self {
        Hs(HU::make(c))
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        self.0.plan(c, hidden);
    }
}
impl Hashing for std::collections::hash_map::RandomState {
    fn make(_: &mut Ctx) -> Self {
        Self::new()
    }
    fn plan(&self, _: &mut Ctx, _: bool) {}
}
impl<K: Case + Eq + Hash, T: Case, S: Hashing> Case for HashMap<K, T, S> {
    fn make(c: &mut Ctx) -> Self {
        let mut m = HashMap::with_hasher(S::make(c));
        for _ in 0..c.len() {
            m.insert(K::make(c), T::make(c));
        }
        m
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        self.hasher().plan(c, hidden);
        self.keys().for_each(|k| k.plan(c, hidden));
        self.values().for_each(|k| k.plan(c, hidden));
    }
}
impl<K: Case + Ord, T: Case> Case for BTreeMap<K, T> {
    fn make(c: &mut Ctx) -> Self {
        (0..c.len()).map(|_| (K::make(c), T::make(c))).collect()
    }
    fn plan(&self, c: &mut Ctx, hidden: bool) {
        self.keys().for_each(|k| k.plan(c, hidden));
        self.values().for_each(|k| k.plan(c, hidden));
    }
}
macro_rules! sets {
    ($($t: ident: $($b: ident)*;)*) => {$(
        impl<T: Case + $($b +)*> Case for $t<T> {
            fn make(c: &mut Ctx) -> Self {
                (0..c.len()).map(|_| T::make(c)).collect()
            }
            fn plan(&self, c: &mut Ctx, hidden: bool) {
                self.iter().for_each(|k| k.plan(c, hidden));
            }
        }
    )*};
}
sets! { HashSet: Eq Hash; BTreeSet: Ord; BinaryHeap: Ord; }

macro_rules! tuples {
    ($(($($a: ident)*))*) => {$(
        impl<$($a: Case),*> Case for ($($a,)*) {
            fn make(c: &mut Ctx) -> Self {
                ($($a::make(c),)*)
            }
            #[allow(non_snake_case)]
            fn plan(&self, c: &mut Ctx, hidden: bool) {
                let ($($a,)*) = self;
                $($a.plan(c, hidden);)*
            }
        }
    )*};
}
tuples! { (A) (A B) (A B C) (A B C D) (A B C D E) (A B C D E F) (A B C D E F G) (A B C D E F G H) (A B C D E F G H I) (A B C D E F G H I J) }

/// Notes what it is shown.
#[derive(Default)]
struct Record(Vec<Target>);
impl Visitor for Record {
    fn visit_sync<T: Collectable + Send + Sync + ?Sized>(&mut self, gc: &sync::Gc<T>) {
        self.0.push((true, sync::Gc::as_ptr(gc) as *const u8 as usize));
    }
    fn visit_unsync<T: Collectable + ?Sized>(&mut self, gc: &unsync::Gc<T>) {
        self.0.push((false, unsync::Gc::as_ptr(gc) as *const u8 as usize));
    }
}

pub struct Run {
    seed: u64,
    n: u64,
    only: Option<String>,
    types: u64,
    values: u64,
    handles: u64,
    refused: u64,
    cells: u64,
    poisoned: u64,
    with_handles: u64,
    sample: String,
}

fn fail(name: &str, seed: u64, msg: &str) -> ! {
    let q = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ");
    println!("VIOL {{\"class\":\"visit\",\"msg\":\"{}: {} (value seed {seed})\"}}", q(name), q(msg));
    std::process::exit(41);
}

#[cfg(vp_control)]
pub trait Visit {}
#[cfg(vp_control)]
impl<T> Visit for T {}
#[cfg(not(vp_control))]
pub use dumpster::Collectable as Visit;

impl Run {
    pub fn check<T: Case + Visit>(&mut self, name: &str) {
        if self.only.as_ref().is_some_and(|o| o != name) {
            return;
        }
        self.types += 1;
        let mut nontrivial = false;
        for i in 0..self.n {
            let x = self.seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ (self.types << 32) ^ i;
            let mut c = Ctx {
                x,
                budget: 12,
                hu: vec![],
                hs: vec![],
                locks: i % 3 == 2,
                accessible: vec![],
                hidden: vec![],
                blocked: 0,
                cells: 0,
                poisoned: 0,
            };
            let v = Box::new(T::make(&mut c));
            v.plan(&mut c, false);
            c.accessible.sort_unstable();
            #[cfg(not(vp_control))]
            for round in 0..2 {
                let mut r = Record::default();
                let res = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.accept(&mut r))) {
                    Ok(res) => res,
                    Err(_) => fail(name, x, "the visit panicked"),
                };
                r.0.sort_unstable();
                match res {
                    Ok(()) if c.blocked > 0 => fail(name, x, "success although a part of the value is inaccessible"),
                    Err(()) if c.blocked == 0 => fail(name, x, &format!("failure although every part is accessible (visit {})", round + 1)),
                    Ok(()) => {
                        if r.0 != c.accessible {
                            fail(name, x, &format!("{} handles are owned, {} were visited, or not the same ones", c.accessible.len(), r.0.len()));
                        }
                    }
                    Err(()) => {
                        // none twice, and none which is not there
                        let mut left = c.accessible.clone();
                        for t in &r.0 {
                            match left.iter().position(|l| l == t) {
                                Some(p) => drop(left.swap_remove(p)),
                                None => fail(name, x, "a handle was visited twice, or one which is inaccessible or not there"),
                            }
                        }
                        self.refused += 1;
                    }
                }
            }
            self.values += 1;
            self.handles += c.accessible.len() as u64;
            self.cells += c.cells;
            self.poisoned += c.poisoned;
            nontrivial |= !c.accessible.is_empty();
            if c.accessible.len() > 5 && (self.types + self.seed) % 11 == 0 && self.sample.is_empty() {
                self.sample = format!("{name}: {} handles, {} cells", c.accessible.len(), c.cells);
            }
        }
        if nontrivial {
            self.with_handles += 1;
        }
    }
}

fn main() {
    let arg = |k: &str| std::env::args().find_map(|a| a.strip_prefix(&format!("{k}=")).map(str::to_owned));
    let num = |k: &str, d: u64| arg(k).map_or(d, |v| v.parse().unwrap());
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<&str>() != Some(&"expected") {
            eprintln!("{i}");
        }
    }));
    let mut r = Run {
        seed: num("seed", 1),
        n: num("n", 100),
        only: arg("only"),
        types: 0,
        values: 0,
        handles: 0,
        refused: 0,
        cells: 0,
        poisoned: 0,
        with_handles: 0,
        sample: String::new(),
    };
    plain(&mut r);
    gen::run(&mut r);
    println!(
        "RESULT {{\"counts\":{{\"executions\":{},\"handles_owned\":{},\"visits_refused\":{},\"cells\":{},\"poisoned_locks\":{}}},\"maxes\":{{\"types_compiled\":{}}},\"distinct\":{},\"samples\":[\"{}\"]}}",
        r.values, r.handles, r.refused, r.cells, r.poisoned, r.types, r.with_handles,
        r.sample.replace('"', "'")
    );
}
