//! Sequential histories of the thread-local collector.

pub use dumpster::unsync::{collect, default_collect_condition, set_collect_condition, CollectInfo, Gc};
use std::cell::{Ref, RefCell as Lock1, RefMut};
use std::sync::{Mutex, MutexGuard};

pub const SYNC: bool = false;

/// The contents of a value.
pub enum Slots {
    Cell(Lock1<Vec<Any>>),
    Mutex(Mutex<Vec<Any>>),
}

pub enum Held {
    #[allow(dead_code)]
    Shared(Ref<'static, Vec<Any>>),
    Excl(RefMut<'static, Vec<Any>>),
    Lock(MutexGuard<'static, Vec<Any>>),
    #[allow(dead_code)]
    Gate(Gate),
}

impl Slots {
    pub fn new(kind: usize) -> Slots {
        match kind {
            0 => Slots::Cell(Lock1::default()),
            _ => Slots::Mutex(Mutex::default()),
        }
    }
    pub fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        match self {
            Slots::Cell(c) => c.accept(v),
            Slots::Mutex(m) => m.accept(v),
        }
    }
    pub fn get_mut(&mut self) -> &mut Vec<Any> {
        match self {
            Slots::Cell(c) => c.get_mut(),
            Slots::Mutex(m) => m.get_mut().unwrap_or_else(|e| e.into_inner()),
        }
    }
    pub fn free(&self) -> bool {
        match self {
            Slots::Cell(c) => c.try_borrow_mut().is_ok(),
            Slots::Mutex(m) => !matches!(m.try_lock(), Err(std::sync::TryLockError::WouldBlock)),
        }
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut Vec<Any>) -> R) -> R {
        match self {
            Slots::Cell(c) => f(&mut c.borrow_mut()),
            Slots::Mutex(m) => f(&mut m.lock().unwrap_or_else(|e| e.into_inner())),
        }
    }
    pub fn poison(&self) -> bool {
        match self {
            Slots::Cell(_) => false,
            Slots::Mutex(m) => {
                let _ = rep::expecting(|| {
                    let _g = m.lock();
                    std::panic::panic_any("poison");
                });
                true
            }
        }
    }
    /// The caller keeps a handle to the value for as long as the result lives.
    pub fn hold(&self, excl: bool) -> Held {
        let s: &'static Slots = unsafe { &*(self as *const Slots) };
        match s {
            Slots::Cell(c) if excl => Held::Excl(c.borrow_mut()),
            Slots::Cell(c) => Held::Shared(c.borrow()),
            Slots::Mutex(m) => Held::Lock(m.lock().unwrap_or_else(|e| e.into_inner())),
        }
    }
}

impl Held {
    pub fn exclusive(&self) -> bool {
        !matches!(self, Held::Shared(_) | Held::Gate(_))
    }
    pub fn leak(self) {
        std::mem::forget(self);
    }
}

fn on_drop(_: u32, _: &mut Vec<Any>) {}

/// Look through a handle in one of the possible ways.
pub fn look<T: Collectable + ?Sized>(g: &Gc<T>) -> &T {
    match obs::NOISE.fetch_add(1, Relaxed) / 2 % 4 {
        0 => g,
        1 => Gc::try_deref(g).unwrap_or_else(|| &**g),
        2 => g.as_ref(),
        _ => std::borrow::Borrow::borrow(g),
    }
}

thread_local! {
    /// The value which the next default is to be.
    static PENDING: std::cell::Cell<*const u8> = const { std::cell::Cell::new(std::ptr::null()) };
}
impl<P: Send + Sync> Default for Node<P> {
    fn default() -> Self {
        unsafe { pending().cast::<Self>().read() }
    }
}
impl Default for Leaf {
    fn default() -> Self {
        unsafe { pending().cast::<Self>().read() }
    }
}
fn pending() -> *const u8 {
    let p = PENDING.replace(std::ptr::null());
    assert!(!p.is_null(), "a default value was asked for");
    p
}

/// Create a value in one of the possible ways.
fn new<T: Collectable + Default + 'static>(v: T) -> Gc<T> {
    if obs::NOISE.fetch_add(1, Relaxed) % 8 != 0 {
        return Gc::new(v);
    }
    let v = std::mem::ManuallyDrop::new(v);
    PENDING.set((&raw const v).cast());
    let g = Gc::default();
    if !PENDING.replace(std::ptr::null()).is_null() {
        rep::violation("ident", "a default handle does not refer to a value of its own");
    }
    g
}

/// A condition uses the other collector.
pub fn other_kind() {
    use dumpster::sync as other;
    struct Knot(std::sync::Mutex<Option<other::Gc<Knot>>>);
    thread_local!(static GONE: Cell<u64> = const { Cell::new(0) });
    impl Drop for Knot {
        fn drop(&mut self) {
            GONE.with(|g| g.set(g.get() + 1));
        }
    }
    unsafe impl Collectable for Knot {
        fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
            self.0.accept(v)
        }
    }
    let before = GONE.with(Cell::get);
    let k = other::Gc::new(Knot(Default::default()));
    *k.0.lock().unwrap() = Some(k.clone());
    drop(k);
    other::collect();
    if GONE.with(Cell::get) != before + 1 {
        rep::violation("complete", "a condition collects with the other collector, and garbage is left");
    }
    rep::count("conditions_using_the_other_collector", 1);
}

include!("seq_body.rs");
