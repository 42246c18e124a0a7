//! Values of unusual sizes and alignments, alone and in cycles.

use crate::mem;
use crate::rep;
use crate::rng::Rng;
use dumpster::{Collectable, Visitor};
use std::sync::atomic::{AtomicU64, Ordering::*};

pub trait Pad: Send + Sync + 'static {
    const NAME: &'static str;
    fn fill(seed: u64) -> Self;
    fn intact(&self, seed: u64) -> bool;
}

macro_rules! pads {
    ($($name: ident $align: literal $size: literal),* $(,)?) => {
        $(
            #[repr(align($align))]
            pub struct $name([u8; $size]);
            impl Pad for $name {
                const NAME: &'static str = concat!($size, " bytes aligned to ", $align);
                fn fill(seed: u64) -> Self {
                    let mut v = [0; $size];
                    for (i, b) in v.iter_mut().enumerate() {
                        *b = (seed >> (i % 7)) as u8 ^ i as u8;
                    }
                    Self(v)
                }
                fn intact(&self, seed: u64) -> bool {
                    self.0.iter().enumerate().all(|(i, b)| *b == (seed >> (i % 7)) as u8 ^ i as u8)
                }
            }
        )*
        fn each(mut f: impl FnMut(u32, bool, u64), seed: u64) {
            let mut rng = Rng::new(seed);
            let mut k = 0;
            $( let _ = stringify!($name); f(k, rng.chance(1, 2), rng.next()); k += 1; )*
            let _ = k;
        }
        macro_rules! dispatch {
            ($m: ident, $k: expr, $seed: expr) => {{
                let all: &[fn(u64)] = &[$($m::one::<$name>),*];
                all[$k as usize]($seed)
            }};
        }
    };
}

pads! {
    Z1 1 0, Z8 8 0, Z64 64 0, Z4096 4096 0, B1 1 1, B3 1 3, B5 2 5, B7 4 7, B8 8 8, B9 8 9, B16 16 16, B17 16 17, B33 32 33,
    B100 128 100, B1000 256 1000, B513 512 513, B4096 4096 4096, B4097 1 4097, P5000 4096 5000, L70001 1 70001, L65536 1024 65536,
}

/// Every part of it must be dropped once.
struct Token;
static MADE: AtomicU64 = AtomicU64::new(0);
static GONE: AtomicU64 = AtomicU64::new(0);
impl Drop for Token {
    fn drop(&mut self) {
        GONE.fetch_add(1, SeqCst);
    }
}
fn token() -> Token {
    MADE.fetch_add(1, SeqCst);
    Token
}

struct Plain<P>(P, #[allow(dead_code)] Token);
unsafe impl<P> Collectable for Plain<P> {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> {
        Ok(())
    }
}

macro_rules! zoo {
    ($name: ident, $m: ident, $lock: ty, $get: ident) => {
        mod $name {
            use super::*;
            use dumpster::$m::{collect, Gc};

            struct Node<P: Pad> {
                pad: P,
                slots: $lock,
                _t: Token,
            }
            impl<P: Pad> Node<P> {
                fn new(seed: u64) -> Self {
                    Node { pad: P::fill(seed), slots: Default::default(), _t: token() }
                }
            }
            unsafe impl<P: Pad> Collectable for Node<P> {
                fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
                    self.slots.accept(v)
                }
            }
            /// So that values of different types can refer to each other.
            #[allow(dead_code)]
            pub enum Handle {
                A(Gc<Node<B8>>),
                Z(Gc<Node<Z64>>),
                P(Gc<Node<P5000>>),
                L(Gc<Node<L70001>>),
                W(Gc<Plain<Z1>>),
            }
            unsafe impl Collectable for Handle {
                fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
                    match self {
                        Handle::A(g) => g.accept(v),
                        Handle::Z(g) => g.accept(v),
                        Handle::P(g) => g.accept(v),
                        Handle::L(g) => g.accept(v),
                        Handle::W(g) => g.accept(v),
                    }
                }
            }

            struct Ring<P: Pad> {
                pad: P,
                next: Next<P>,
                _t: Token,
            }
            type Next<P> = super::$get<Option<Gc<Ring<P>>>>;
            unsafe impl<P: Pad> Collectable for Ring<P> {
                fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
                    self.next.accept(v)
                }
            }

            fn make<T: Collectable + Send + Sync + 'static>(v: T) -> Gc<T> {
                let zero = usize::from(std::mem::size_of::<T>() == 0);
                let g = mem::track::<T, _>(move || Gc::new(v), |g| Gc::as_ptr(g) as usize - zero);
                if Gc::as_ptr(&g) as usize % std::mem::align_of::<T>() != 0 {
                    rep::violation("once", "a value is not aligned");
                }
                g
            }

            fn settle(what: &str, expect: u64) {
                let (m, g) = (MADE.load(SeqCst), GONE.load(SeqCst));
                if m - g != expect {
                    rep::violation("once", &format!("{what}: {} values have not been dropped, {expect} are in use", m as i64 - g as i64));
                }
            }

            pub fn one<P: Pad>(seed: u64) {
                let mut rng = Rng::new(seed);
                rep::trace(|| P::NAME.to_owned());
                // a value without handles
                let base = MADE.load(SeqCst) - GONE.load(SeqCst);
                let a = make(Plain(P::fill(seed), token()));
                let more: Vec<_> = (0..rng.below(4)).map(|_| a.clone()).collect();
                if rng.chance(1, 2) {
                    collect();
                }
                if !a.0.intact(seed) || more.iter().any(|m| !Gc::ptr_eq(m, &a)) {
                    rep::violation("once", "the contents of a living value have changed");
                }
                settle(P::NAME, base + 1);
                drop(a);
                drop(more);
                settle(P::NAME, base);
                // a ring
                let n = rng.range(1, 4);
                let ring: Vec<_> = (0..n).map(|i| make(Ring { pad: P::fill(seed ^ i as u64), next: Next::new(None), _t: token() })).collect();
                for i in 0..n {
                    ring[i].next.put(Some(ring[(i + 1) % n].clone()));
                }
                let keep = ring[rng.below(n)].clone();
                let at = ring.iter().position(|r| Gc::ptr_eq(r, &keep)).unwrap();
                drop(ring);
                collect();
                if !keep.pad.intact(seed ^ at as u64) {
                    rep::violation("once", "the contents of a living value have changed");
                }
                settle(P::NAME, base + n as u64);
                if rng.chance(1, 3) {
                    // opened: goes by itself
                    keep.next.put(None);
                    drop(keep);
                    settle(P::NAME, base);
                } else {
                    drop(keep);
                    collect();
                    settle(P::NAME, base);
                }
                // a cycle through values of different types
                let x = make(Node::<P>::new(seed));
                let z = make(Node::<Z64>::new(seed));
                let p = make(Node::<P5000>::new(seed));
                let l = make(Node::<L70001>::new(seed));
                let w = make(Plain(Z1::fill(0), token()));
                let add = |s: &$lock, h: Handle| s.with(|v| v.push(h));
                add(&z.slots, Handle::P(p.clone()));
                add(&p.slots, Handle::L(l.clone()));
                add(&l.slots, Handle::Z(z.clone()));
                add(&l.slots, Handle::W(w.clone()));
                add(&x.slots, Handle::Z(z.clone()));
                if rng.chance(1, 2) {
                    add(&p.slots, Handle::P(p.clone()));
                }
                drop((z, p, l, w));
                collect();
                settle(P::NAME, base + 5);
                if !x.pad.intact(seed) {
                    rep::violation("once", "the contents of a living value have changed");
                }
                drop(x);
                settle(P::NAME, base + 4);
                collect();
                settle(P::NAME, base);
                rep::count("unusual_values", 6 + n as u64);
            }
        }
    };
}

pub struct Single<T>(std::cell::RefCell<T>);
impl<T> Single<T> {
    fn new(t: T) -> Self {
        Single(std::cell::RefCell::new(t))
    }
    fn put(&self, t: T) {
        let old = std::mem::replace(&mut *self.0.borrow_mut(), t);
        drop(old);
    }
    fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        f(&mut self.0.borrow_mut())
    }
}
impl<T: Default> Default for Single<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
unsafe impl<T: Collectable> Collectable for Single<T> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.0.accept(v)
    }
}
// only used on one thread
unsafe impl<T> Send for Single<T> {}
unsafe impl<T> Sync for Single<T> {}

pub struct Many<T>(std::sync::Mutex<T>);
impl<T> Many<T> {
    fn new(t: T) -> Self {
        Many(std::sync::Mutex::new(t))
    }
    fn put(&self, t: T) {
        let old = std::mem::replace(&mut *self.0.lock().unwrap(), t);
        drop(old);
    }
    fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        f(&mut self.0.lock().unwrap())
    }
}
impl<T: Default> Default for Many<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
unsafe impl<T: Collectable> Collectable for Many<T> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.0.accept(v)
    }
}

zoo!(u, unsync, super::Single<Vec<Handle>>, Single);
zoo!(s, sync, super::Many<Vec<Handle>>, Many);

fn never_u(_: &dumpster::unsync::CollectInfo) -> bool {
    false
}
fn never_s(_: &dumpster::sync::CollectInfo) -> bool {
    false
}

pub fn run(seed: u64) {
    dumpster::unsync::set_collect_condition(never_u);
    dumpster::sync::set_collect_condition(never_s);
    each(
        |k, sync, s| {
            if sync {
                dispatch!(s, k, s)
            } else {
                dispatch!(u, k, s)
            }
        },
        seed,
    );
    let left = mem::reset();
    if left > 0 {
        rep::violation("once", &format!("the memory of {left} values was not released"));
    }
}
