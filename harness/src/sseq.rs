//! Sequential histories of the shared collector, on one thread.

pub use dumpster::sync::{collect, default_collect_condition, set_collect_condition, CollectInfo, Gc};
use std::sync::{Mutex, MutexGuard, RwLock as Lock1, RwLockReadGuard as Ref, RwLockWriteGuard as RefMut};

pub const SYNC: bool = true;

/// The contents of a value.
pub enum Slots {
    Cell(Lock1<Vec<Any>>),
    Mutex(Mutex<Vec<Any>>),
}

pub enum Held {
    #[allow(dead_code)]
    Shared(Ref<'static, Vec<Any>>),
    Excl(RefMut<'static, Vec<Any>>),
    Lock(MutexGuard<'static, Vec<Any>>),
    #[allow(dead_code)]
    Gate(Gate),
}

impl Slots {
    pub fn new(kind: usize) -> Slots {
        match kind {
            0 => Slots::Cell(Lock1::default()),
            _ => Slots::Mutex(Mutex::default()),
        }
    }
    pub fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        match self {
            Slots::Cell(c) => c.accept(v),
            Slots::Mutex(m) => m.accept(v),
        }
    }
    pub fn get_mut(&mut self) -> &mut Vec<Any> {
        match self {
            Slots::Cell(c) => c.get_mut().unwrap_or_else(|e| e.into_inner()),
            Slots::Mutex(m) => m.get_mut().unwrap_or_else(|e| e.into_inner()),
        }
    }
    pub fn free(&self) -> bool {
        match self {
            Slots::Cell(c) => !matches!(c.try_write(), Err(std::sync::TryLockError::WouldBlock)),
            Slots::Mutex(m) => !matches!(m.try_lock(), Err(std::sync::TryLockError::WouldBlock)),
        }
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut Vec<Any>) -> R) -> R {
        crate::sched::point(23);
        match self {
            Slots::Cell(c) => f(&mut *wait(|| c.try_write())),
            Slots::Mutex(m) => f(&mut *wait(|| m.try_lock())),
        }
    }
    pub fn poison(&self) -> bool {
        match self {
            Slots::Cell(c) => {
                let _ = rep::expecting(|| {
                    let _g = c.write();
                    std::panic::panic_any("poison");
                });
                true
            }
            Slots::Mutex(m) => {
                let _ = rep::expecting(|| {
                    let _g = m.lock();
                    std::panic::panic_any("poison");
                });
                true
            }
        }
    }
    /// The caller keeps a handle to the value for as long as the result lives.
    pub fn hold(&self, excl: bool) -> Held {
        let s: &'static Slots = unsafe { &*(self as *const Slots) };
        match s {
            Slots::Cell(c) if excl => Held::Excl(c.write().unwrap_or_else(|e| e.into_inner())),
            Slots::Cell(c) => Held::Shared(c.read().unwrap_or_else(|e| e.into_inner())),
            Slots::Mutex(m) => Held::Lock(m.lock().unwrap_or_else(|e| e.into_inner())),
        }
    }
}

impl Held {
    pub fn exclusive(&self) -> bool {
        !matches!(self, Held::Shared(_) | Held::Gate(_))
    }
    pub fn leak(self) {
        std::mem::forget(self);
    }
}

/// Take a lock without ever blocking a scheduled thread.
fn wait<G>(f: impl Fn() -> std::sync::TryLockResult<G>) -> G {
    loop {
        match f() {
            Ok(g) => return g,
            Err(std::sync::TryLockError::Poisoned(e)) => return e.into_inner(),
            Err(std::sync::TryLockError::WouldBlock) => crate::sched::block(),
        }
    }
}

use crate::conc::on_drop;

/// Look through a handle in one of the possible ways.
pub fn look<T: Collectable + Send + Sync + ?Sized>(g: &Gc<T>) -> &T {
    match obs::NOISE.fetch_add(1, Relaxed) / 2 % 4 {
        0 => g,
        1 => Gc::try_deref(g).unwrap_or_else(|| &**g),
        2 => g.as_ref(),
        _ => std::borrow::Borrow::borrow(g),
    }
}

fn new<T: Collectable + Send + Sync + 'static>(v: T) -> Gc<T> {
    Gc::new(v)
}

/// A condition uses the other collector.
pub fn other_kind() {
    use dumpster::unsync as other;
    struct Knot(std::cell::RefCell<Option<other::Gc<Knot>>>);
    thread_local!(static GONE: Cell<u64> = const { Cell::new(0) });
    impl Drop for Knot {
        fn drop(&mut self) {
            GONE.with(|g| g.set(g.get() + 1));
        }
    }
    unsafe impl Collectable for Knot {
        fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
            self.0.accept(v)
        }
    }
    let before = GONE.with(Cell::get);
    let k = other::Gc::new(Knot(Default::default()));
    *k.0.borrow_mut() = Some(k.clone());
    drop(k);
    other::collect();
    if GONE.with(Cell::get) != before + 1 {
        rep::violation("complete", "a condition collects with the other collector, and garbage is left");
    }
    rep::count("conditions_using_the_other_collector", 1);
}

include!("seq_body.rs");
