//! What has been observed about each value: its state and its destructor calls.

use crate::rep;
use std::sync::atomic::{AtomicU32, AtomicU8, AtomicU64, Ordering::*};

pub const MAX: usize = 1 << 20;
pub const NONE: u8 = 0;
pub const LIVE: u8 = 1;
pub const DROPPED: u8 = 2;

static STATE: [AtomicU8; MAX] = [const { AtomicU8::new(0) }; MAX];
static NEXT: AtomicU32 = AtomicU32::new(1);
pub static BORN: AtomicU64 = AtomicU64::new(0);
pub static DIED: AtomicU64 = AtomicU64::new(0);
/// Destructor runs since the last reset
pub static DIED_NOW: AtomicU64 = AtomicU64::new(0);
/// Alternates between two possibilities
pub static NOISE: AtomicU64 = AtomicU64::new(0);
/// Calls of `accept` on test values
pub static ACCEPTS: AtomicU64 = AtomicU64::new(0);

pub fn reset() {
    let n = NEXT.swap(1, SeqCst) as usize;
    for s in &STATE[..n.min(MAX)] {
        s.store(NONE, Relaxed);
    }
    DIED_NOW.store(0, Relaxed);
    NOISE.store(0, Relaxed);
}

pub fn fresh() -> u32 {
    let id = NEXT.fetch_add(1, Relaxed);
    if id as usize >= MAX {
        rep::harness_error("too many values");
    }
    STATE[id as usize].store(LIVE, SeqCst);
    BORN.fetch_add(1, Relaxed);
    id
}

/// Values made since the last reset
pub fn born_now() -> usize {
    NEXT.load(Relaxed) as usize
}

pub fn canary(id: u32) -> u64 {
    (u64::from(id) << 32) ^ 0xC0FF_EE00_5EED_1234u64.wrapping_mul(u64::from(id) | 1)
}

/// A destructor runs on a value that claims to be `id`.
pub fn dropped(id: u32, can: u64) {
    if can != canary(id) || id as usize >= MAX {
        rep::violation("once", "a destructor ran on something that is not an intact value");
        rep::violation("uaf", "a destructor ran on something that is not an intact value");
        return;
    }
    let old = STATE[id as usize].swap(DROPPED, SeqCst);
    if old != LIVE {
        rep::violation("once", &format!("destructor of value {id} ran {}", if old == DROPPED { "twice" } else { "outside its lifetime" }));
    }
    DIED.fetch_add(1, Relaxed);
    DIED_NOW.fetch_add(1, Relaxed);
}

pub fn is_dropped(id: u32) -> bool {
    STATE[id as usize].load(SeqCst) == DROPPED
}

/// The value `id` was read through a live handle.
pub fn check_read(id: u32, expect: u32, can: u64) {
    if id != expect || can != canary(expect) {
        rep::violation("uaf", &format!("reading value {expect} through a live handle yields something else (id {id})"));
    } else if is_dropped(expect) {
        rep::violation("uaf", &format!("value {expect} was destroyed but is still reached through a live handle"));
    }
}
