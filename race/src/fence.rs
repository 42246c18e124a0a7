//! ThreadSanitizer ignores fences, which would let it report accesses that are ordered by one. The
//! linker redirects the calls of the runtime to here (`--wrap`); a fence then orders what it should,
//! and possibly a bit more: everything before any releasing operation or fence of another thread.

use std::{ffi::c_void, mem::size_of};

extern "C" {
    fn __tsan_acquire(a: *mut c_void);
    fn __tsan_release(a: *mut c_void);
    fn __real___tsan_atomic_thread_fence(order: i32);
}

static mut FENCES: u64 = 0;

fn all() -> *mut c_void {
    (&raw mut FENCES).cast()
}

/// Announce an operation; returns the ordering to use. A release becomes an acquire-release, so that
/// a fence after it has the effect of an acquire.
#[inline]
unsafe fn releasing(order: i32) -> i32 {
    if order >= 3 {
        __tsan_release(all());
    }
    if order == 3 {
        4
    } else {
        order
    }
}

#[no_mangle]
unsafe extern "C" fn __wrap___tsan_atomic_thread_fence(order: i32) {
    if order != 0 {
        __tsan_acquire(all());
        __tsan_release(all());
    }
    __real___tsan_atomic_thread_fence(order);
}

macro_rules! wrapped {
    ($($wrap: ident $real: ident $t: ty, $r: ty;)*) => { $(
        extern "C" {
            fn $real(a: *mut $t, v: $t, order: i32) -> $r;
        }
        #[no_mangle]
        unsafe extern "C" fn $wrap(a: *mut $t, v: $t, order: i32) -> $r {
            let stronger = releasing(order);
            $real(a, v, if size_of::<$r>() == 0 { order } else { stronger })
        }
    )* };
}

macro_rules! exchange {
    ($($wrap: ident $real: ident $t: ty;)*) => { $(
        extern "C" {
            fn $real(a: *mut $t, c: $t, v: $t, order: i32, fail: i32) -> $t;
        }
        #[no_mangle]
        unsafe extern "C" fn $wrap(a: *mut $t, c: $t, v: $t, order: i32, fail: i32) -> $t {
            $real(a, c, v, releasing(order), fail)
        }
    )* };
}

wrapped! {
    __wrap___tsan_atomic8_store __real___tsan_atomic8_store u8, ();
    __wrap___tsan_atomic8_exchange __real___tsan_atomic8_exchange u8, u8;
    __wrap___tsan_atomic8_fetch_add __real___tsan_atomic8_fetch_add u8, u8;
    __wrap___tsan_atomic8_fetch_sub __real___tsan_atomic8_fetch_sub u8, u8;
    __wrap___tsan_atomic8_fetch_or __real___tsan_atomic8_fetch_or u8, u8;
    __wrap___tsan_atomic8_fetch_and __real___tsan_atomic8_fetch_and u8, u8;
    __wrap___tsan_atomic32_store __real___tsan_atomic32_store u32, ();
    __wrap___tsan_atomic32_exchange __real___tsan_atomic32_exchange u32, u32;
    __wrap___tsan_atomic32_fetch_add __real___tsan_atomic32_fetch_add u32, u32;
    __wrap___tsan_atomic32_fetch_sub __real___tsan_atomic32_fetch_sub u32, u32;
    __wrap___tsan_atomic32_fetch_or __real___tsan_atomic32_fetch_or u32, u32;
    __wrap___tsan_atomic32_fetch_and __real___tsan_atomic32_fetch_and u32, u32;
    __wrap___tsan_atomic64_store __real___tsan_atomic64_store u64, ();
    __wrap___tsan_atomic64_exchange __real___tsan_atomic64_exchange u64, u64;
    __wrap___tsan_atomic64_fetch_add __real___tsan_atomic64_fetch_add u64, u64;
    __wrap___tsan_atomic64_fetch_sub __real___tsan_atomic64_fetch_sub u64, u64;
    __wrap___tsan_atomic64_fetch_or __real___tsan_atomic64_fetch_or u64, u64;
    __wrap___tsan_atomic64_fetch_and __real___tsan_atomic64_fetch_and u64, u64;
}
exchange! {
    __wrap___tsan_atomic8_compare_exchange_val __real___tsan_atomic8_compare_exchange_val u8;
    __wrap___tsan_atomic32_compare_exchange_val __real___tsan_atomic32_compare_exchange_val u32;
    __wrap___tsan_atomic64_compare_exchange_val __real___tsan_atomic64_compare_exchange_val u64;
}
