//! The tracking allocator: memory of garbage-collected values lives in an arena where every
//! release is checked and every use after release is noticed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

use crate::rep;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Mode {
    /// Plain system allocator.
    Off = 0,
    /// One or more pages for each value, made inaccessible on release.
    Guard = 1,
    /// Values next to each other, filled with a pattern on release, never reused.
    Fill = 2,
    /// Released blocks are handed out again at once, most recent first.
    Reuse = 3,
}

const CAP: usize = 1 << 33;
const MAX_SLOTS: usize = 1 << 21;
const FILL: u8 = 0xDB;
const PAGE: usize = 4096;

#[derive(Clone, Copy)]
struct Slot {
    base: usize,
    /// bytes reserved
    span: usize,
    size: usize,
    align: usize,
    live: bool,
    /// known to be the memory of a value
    claimed: bool,
    /// how often this slot has been handed out
    uses: u32,
}

struct Arena {
    base: usize,
    next: usize,
    n: usize,
    slots: *mut Slot,
    free: *mut u32,
    n_free: usize,
}

struct Lock(AtomicBool);
impl Lock {
    fn with<R>(&self, f: impl FnOnce() -> R) -> R {
        while self.0.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        let r = f();
        self.0.store(false, Release);
        r
    }
}

static LOCK: Lock = Lock(AtomicBool::new(false));
static mut ARENA: Arena = Arena { base: 0, next: 0, n: 0, slots: std::ptr::null_mut(), free: std::ptr::null_mut(), n_free: 0 };
static MODE: AtomicU32 = AtomicU32::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static FREES: AtomicU64 = AtomicU64::new(0);
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static CLAIMED: AtomicU64 = AtomicU64::new(0);
pub static UNTRACKED: AtomicU64 = AtomicU64::new(0);

thread_local! {
    /// size and alignment of the value whose memory is about to be allocated
    static TRACK: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}

/// Count the bytes of everything that is allocated.
pub static COUNT: AtomicBool = AtomicBool::new(false);
static HEAP: AtomicI64 = AtomicI64::new(0);

fn counted(n: isize) {
    if COUNT.load(Relaxed) {
        HEAP.fetch_add(n as i64, Relaxed);
    }
}

pub fn heap() -> i64 {
    HEAP.load(SeqCst)
}

pub struct Alloc;

#[global_allocator]
static GLOBAL: Alloc = Alloc;

#[allow(static_mut_refs)]
unsafe fn arena() -> &'static mut Arena {
    let a = &mut ARENA;
    if a.base == 0 {
        let hint = 0x20_0000_0000usize as *mut libc::c_void;
        let p = libc::mmap(
            hint,
            CAP,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            rep::harness_error("mmap of the arena failed");
        }
        a.base = p as usize;
        a.slots = System.alloc_zeroed(Layout::array::<Slot>(MAX_SLOTS).unwrap()).cast();
        a.free = System.alloc_zeroed(Layout::array::<u32>(MAX_SLOTS).unwrap()).cast();
        BASE.store(a.base, SeqCst);
    }
    a
}

pub fn mode() -> Mode {
    match MODE.load(Relaxed) {
        1 => Mode::Guard,
        2 => Mode::Fill,
        3 => Mode::Reuse,
        _ => Mode::Off,
    }
}

/// Only at quiescence (no tracked block live).
pub fn set_mode(m: Mode) {
    MODE.store(m as u32, SeqCst);
}

/// Run `f`, which makes the memory of a garbage-collected value of type `T`, then claim that memory
/// as the one containing the address which `at` extracts.
pub fn track<T, R>(f: impl FnOnce() -> R, at: impl FnOnce(&R) -> usize) -> R {
    if mode() == Mode::Off {
        return f();
    }
    TRACK.with(|t| t.set((std::mem::size_of::<T>(), std::mem::align_of::<T>())));
    let r = f();
    TRACK.with(|t| t.set((0, 0)));
    let addr = at(&r);
    let ok = LOCK.with(|| unsafe {
        let a = arena();
        match find(a, addr) {
            Some(i) if (*a.slots.add(i)).live => {
                (*a.slots.add(i)).claimed = true;
                true
            }
            _ => false,
        }
    });
    if ok {
        LIVE.fetch_add(1, Relaxed);
        CLAIMED.fetch_add(1, Relaxed);
    } else {
        UNTRACKED.fetch_add(1, Relaxed);
    }
    r
}

fn wanted(layout: Layout) -> bool {
    TRACK
        .try_with(|t| {
            let (size, align) = t.get();
            if align == 0 || layout.align() < align || layout.size() < size || layout.size() > size + 4 * align + 128 {
                return false;
            }
            t.set((0, 0));
            true
        })
        .unwrap_or(false)
}

fn up(x: usize, a: usize) -> usize {
    (x + a - 1) & !(a - 1)
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if wanted(layout) {
            return alloc_tracked(layout);
        }
        counted(layout.size() as isize);
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let b = BASE.load(Relaxed);
        if b != 0 && (ptr as usize).wrapping_sub(b) < CAP {
            return free_tracked(ptr as usize, layout);
        }
        counted(-(layout.size() as isize));
        System.dealloc(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        let b = BASE.load(Relaxed);
        if b != 0 && (ptr as usize).wrapping_sub(b) < CAP {
            let n = self.alloc(Layout::from_size_align_unchecked(new, layout.align()));
            std::ptr::copy_nonoverlapping(ptr, n, new.min(layout.size()));
            self.dealloc(ptr, layout);
            return n;
        }
        counted(new as isize - layout.size() as isize);
        System.realloc(ptr, layout, new)
    }
}

unsafe fn alloc_tracked(layout: Layout) -> *mut u8 {
    ALLOCS.fetch_add(1, Relaxed);
    LOCK.with(|| {
        let a = arena();
        let m = mode();
        if m == Mode::Reuse {
            // most recently released block of the same shape
            let mut i = a.n_free;
            let stop = a.n_free.saturating_sub(64);
            while i > stop {
                i -= 1;
                let s = &mut *a.slots.add(*a.free.add(i) as usize);
                if s.size == layout.size() && s.align == layout.align() {
                    s.live = true;
                    s.claimed = false;
                    s.uses += 1;
                    let mut j = i;
                    while j + 1 < a.n_free {
                        *a.free.add(j) = *a.free.add(j + 1);
                        j += 1;
                    }
                    a.n_free -= 1;
                    return s.base as *mut u8;
                }
            }
        }
        let (start, span) = if m == Mode::Guard {
            let s = up(a.base + a.next, layout.align().max(PAGE));
            (s, up(layout.size().max(1), PAGE))
        } else {
            let s = up(a.base + a.next, layout.align().max(16));
            (s, up(layout.size().max(1), 16))
        };
        if start + span > a.base + CAP || a.n >= MAX_SLOTS {
            return System.alloc(layout);
        }
        a.next = start + span - a.base;
        *a.slots.add(a.n) = Slot { base: start, span, size: layout.size(), align: layout.align(), live: true, claimed: false, uses: 1 };
        a.n += 1;
        start as *mut u8
    })
}

unsafe fn find(a: &Arena, addr: usize) -> Option<usize> {
    let (mut lo, mut hi) = (0usize, a.n);
    while lo < hi {
        let mid = (lo + hi) / 2;
        if (*a.slots.add(mid)).base <= addr {
            lo = mid + 1;
        } else {
            hi = mid;
        }
    }
    if lo == 0 {
        return None;
    }
    let s = &*a.slots.add(lo - 1);
    (addr < s.base + s.span).then_some(lo - 1)
}

unsafe fn free_tracked(addr: usize, layout: Layout) {
    FREES.fetch_add(1, Relaxed);
    let mut claimed = false;
    let problem = LOCK.with(|| {
        let a = arena();
        let Some(i) = find(a, addr) else { return Some("release of an address which is not a value's memory") };
        let s = &mut *a.slots.add(i);
        if s.base != addr {
            return Some("release of an address inside a value");
        }
        if !s.live {
            return Some("memory released twice");
        }
        if s.size != layout.size() || s.align != layout.align() {
            return Some("memory released with a layout other than its own");
        }
        s.live = false;
        claimed = s.claimed;
        match mode() {
            Mode::Guard => {
                if libc::mprotect(s.base as *mut _, s.span, libc::PROT_NONE) != 0 {
                    // too many mappings: fall back to the pattern
                    std::ptr::write_bytes(s.base as *mut u8, FILL, s.span);
                }
            }
            _ => std::ptr::write_bytes(s.base as *mut u8, FILL, s.span),
        }
        if a.n_free < MAX_SLOTS {
            *a.free.add(a.n_free) = i as u32;
            a.n_free += 1;
        }
        None
    });
    if claimed {
        LIVE.fetch_sub(1, Relaxed);
    }
    if let Some(p) = problem {
        rep::violation("once", &format!("{p} (size {}, align {})", layout.size(), layout.align()));
    }
}

/// What an address is: (in the arena, inside a released block, offset in block, slot index).
pub fn classify(addr: usize) -> (bool, bool, usize, usize) {
    let b = BASE.load(Relaxed);
    if b == 0 || addr.wrapping_sub(b) >= CAP {
        return (false, false, 0, 0);
    }
    unsafe {
        let a = arena();
        match find(a, addr) {
            Some(i) => {
                let s = &*a.slots.add(i);
                (true, !s.live, addr - s.base, i)
            }
            None => (true, false, 0, 0),
        }
    }
}

/// Is this address inside released value memory?
pub fn released(addr: usize) -> bool {
    let b = BASE.load(Relaxed);
    if b == 0 || addr.wrapping_sub(b) >= CAP {
        return false;
    }
    LOCK.with(|| unsafe {
        let a = arena();
        find(a, addr).is_some_and(|i| !(*a.slots.add(i)).live)
    })
}

/// The block that contains `addr`, if live: (base, size, align).
pub fn block_of(addr: usize) -> Option<(usize, usize, usize)> {
    LOCK.with(|| unsafe {
        let a = arena();
        find(a, addr).and_then(|i| {
            let s = &*a.slots.add(i);
            s.live.then_some((s.base, s.size, s.align))
        })
    })
}

/// End of an execution: verify the patterns and forget everything.
/// Returns the number of blocks never released.
pub fn reset() -> usize {
    if BASE.load(Relaxed) == 0 {
        return 0;
    }
    let mut bad = None;
    let leaked = LOCK.with(|| unsafe {
        let a = arena();
        if mode() == Mode::Guard && a.next > 0 {
            libc::mprotect(a.base as *mut _, up(a.next, PAGE), libc::PROT_READ | libc::PROT_WRITE);
        }
        let (mut leaked, mut others) = (0, 0);
        for i in 0..a.n {
            let s = &*a.slots.add(i);
            if s.live && s.claimed {
                leaked += 1;
            } else if s.live {
                others += 1;
            } else if mode() != Mode::Guard {
                let mem = std::slice::from_raw_parts(s.base as *const u8, s.span);
                if let Some(o) = mem.iter().position(|b| *b != FILL) {
                    bad = Some((o, s.size));
                }
            }
        }
        if others > 0 {
            // memory of something else is in here, so do not recycle
            return leaked;
        }
        if a.next > 64 << 20 {
            libc::madvise(a.base as *mut _, up(a.next, PAGE), libc::MADV_DONTNEED);
        }
        a.next = 0;
        a.n = 0;
        a.n_free = 0;
        leaked
    });
    LIVE.store(0, Relaxed);
    if let Some((o, size)) = bad {
        rep::violation("once", &format!("released memory was written to (offset {o} of a block of size {size})"));
    }
    leaked
}
