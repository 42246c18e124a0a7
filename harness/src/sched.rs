//! A controlled scheduler: of the threads it manages exactly one runs at a time, and at every
//! point (hooked operation of the collector, or call from the workload) it decides who is next.

use crate::mem;
use crate::rep;
use crate::rng::Rng;
#[cfg(dumpster_vp)]
use dumpster::vp::Op;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::thread::Thread;
use std::time::{Duration, Instant};

const NONE: usize = usize::MAX;
const MAXT: usize = 8;
const MAX_STEPS: u64 = 400_000;

#[derive(Clone, Debug)]
pub enum Strategy {
    /// Switch to a random thread with probability 1/n at each point.
    Walk(usize),
    /// Random priorities, lowered at the given steps.
    Pct(Vec<u64>),
    /// The victim sleeps from its k-th point for a number of steps (or until nobody else can run).
    Pause { victim: usize, at: u64, len: u64, n: usize },
    /// Threads take turns of so many points (as far as they can); afterwards like `Walk(12)`.
    Turns(Vec<(usize, u64)>),
}

impl Strategy {
    pub fn pick(rng: &mut Rng, threads: usize, expected: u64) -> Strategy {
        match rng.below(12) {
            10.. => {
                let turn = |rng: &mut Rng| {
                    let most = [10, 60][rng.below(2)];
                    (rng.below(threads), rng.range(1, most) as u64)
                };
                Strategy::Turns((0..rng.range(2, 6)).map(|_| turn(rng)).collect())
            }
            0..=2 => Strategy::Walk([2, 3, 6, 12, 30][rng.below(5)]),
            3..=6 => {
                let d = rng.range(1, 5);
                Strategy::Pct((0..d).map(|_| rng.below(expected as usize) as u64).collect())
            }
            _ => Strategy::Pause {
                victim: rng.below(threads),
                at: rng.below(expected as usize / threads + 1) as u64,
                len: [20, 100, 1000, u64::MAX][rng.below(4)],
                n: [2, 4, 12][rng.below(3)],
            },
        }
    }
}

struct State {
    n: usize,
    done: [bool; MAXT],
    /// stuck in something this scheduler does not see
    off: [bool; MAXT],
    blocked: [bool; MAXT],
    blocked_at: [u64; MAXT],
    prio: [i64; MAXT],
    low: i64,
    victim_points: u64,
    victim_since: u64,
    progress: u64,
    steps: u64,
    switches: u64,
    hash: u64,
    strategy: Strategy,
    rng: Rng,
    handles: Vec<Option<Thread>>,
    main: Thread,
}

static ST: Mutex<Option<State>> = Mutex::new(None);
static CUR: AtomicUsize = AtomicUsize::new(NONE);
static READY: AtomicUsize = AtomicUsize::new(0);
static TIDS: [AtomicI32; MAXT] = [const { AtomicI32::new(0) }; MAXT];
/// In this execution a thread has been running out of turn.
pub static LOOSE: AtomicBool = AtomicBool::new(false);

struct Fin;
impl Drop for Fin {
    fn drop(&mut self) {
        let me = ME.with(|m| m.replace(NONE));
        if me != NONE {
            finish(me);
        }
    }
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
    static FIN: Fin = const { Fin };
}

pub fn me() -> Option<usize> {
    let m = ME.with(Cell::get);
    (m != NONE).then_some(m)
}

impl State {
    fn runnable(&self, t: usize) -> bool {
        !self.done[t] && !self.off[t] && (!self.blocked[t] || self.blocked_at[t] < self.progress)
    }

    fn choose(&mut self, me: usize) -> usize {
        let mut r: Vec<usize> = (0..self.n).filter(|t| self.runnable(*t)).collect();
        if r.is_empty() {
            if (0..self.n).all(|t| self.done[t]) || self.off.iter().any(|o| *o) {
                return NONE;
            }
            let who: Vec<usize> = (0..self.n).filter(|t| !self.done[*t]).collect();
            rep::stop("deadlock", &format!("threads {who:?} wait for locks forever"));
        }
        if let Strategy::Pause { victim, at, len, .. } = self.strategy {
            if self.victim_points > at && self.steps - self.victim_since < len && r.len() > 1 {
                r.retain(|t| *t != victim);
            }
        }
        let stay = r.contains(&me);
        if self.steps > MAX_STEPS / 2 {
            return *r.iter().find(|t| **t > me).unwrap_or(&r[0]);
        }
        match &self.strategy {
            Strategy::Walk(n) | Strategy::Pause { n, .. } => {
                if stay && !self.rng.chance(1, *n) {
                    me
                } else {
                    r[self.rng.below(r.len())]
                }
            }
            Strategy::Turns(v) => match v.first() {
                Some((t, _)) if r.contains(t) => *t,
                _ if stay && !self.rng.chance(1, 12) => me,
                _ => r[self.rng.below(r.len())],
            },
            Strategy::Pct(_) => *r.iter().max_by_key(|t| self.prio[**t]).unwrap(),
        }
    }

    fn step(&mut self, me: usize, kind: u32, blocked: bool) -> usize {
        self.steps += 1;
        if self.steps > MAX_STEPS {
            // a few operations on a few values take some hundred steps; the second half was fair
            rep::stop("deadlock", "threads run forever without getting done");
        }
        self.off[me] = false;
        self.blocked[me] = blocked;
        if blocked {
            self.blocked_at[me] = self.progress;
        } else {
            self.progress += 1;
        }
        if let Strategy::Pct(ch) = &self.strategy {
            if ch.contains(&self.steps) {
                self.low -= 1;
                self.prio[me] = self.low;
            }
        }
        if let Strategy::Turns(v) = &mut self.strategy {
            let done = &self.done;
            v.retain(|(t, _)| !done[*t]);
            if let Some((t, left)) = v.first_mut() {
                // a thread which cannot go on has had its turn
                *left = if *t != me { *left } else if blocked { 0 } else { *left - 1 };
                if *left == 0 {
                    v.remove(0);
                }
            }
        }
        if let Strategy::Pause { victim, at, .. } = self.strategy {
            if victim == me && !blocked {
                self.victim_points += 1;
                if self.victim_points == at + 1 {
                    self.victim_since = self.steps;
                }
            }
        }
        let next = self.choose(me);
        if next != me {
            self.switches += 1;
        }
        self.hash = (self.hash.rotate_left(5) ^ (next as u64) << 8 ^ u64::from(kind)).wrapping_mul(0x100_0000_01B3);
        next
    }
}

fn with<R>(f: impl FnOnce(&mut State) -> R) -> Option<R> {
    let mut g = ST.lock().unwrap_or_else(|e| e.into_inner());
    g.as_mut().map(f)
}

fn hand(next: usize) {
    let h = with(|s| if next == NONE { s.main.clone() } else { s.handles[next].clone().unwrap() });
    CUR.store(next, SeqCst);
    if let Some(h) = h {
        h.unpark();
    }
}

fn wait(me: usize) {
    for _ in 0..30 {
        if CUR.load(SeqCst) == me {
            return;
        }
        std::hint::spin_loop();
    }
    while CUR.load(SeqCst) != me {
        std::thread::park();
    }
}

fn at(kind: u32, blocked: bool) -> bool {
    let me = ME.with(Cell::get);
    if me == NONE {
        return false;
    }
    if CUR.load(SeqCst) != me {
        // out of turn: this thread had been stuck in an operation which the scheduler cannot see
        with(|s| {
            s.off[me] = false;
            // it is nobody's turn: take it
            let _ = CUR.compare_exchange(NONE, me, SeqCst, SeqCst);
        });
        wait(me);
    }
    let Some(next) = with(|s| s.step(me, kind, blocked)) else { return false };
    if next != me {
        hand(next);
        wait(me);
    }
    true
}

/// The calling thread may be preempted here.
pub fn point(kind: u32) -> bool {
    at(kind, false)
}

/// The calling thread waits for something another thread has to do.
pub fn block() {
    if !at(90, true) {
        std::thread::yield_now();
    }
}

/// Hook of the instrumented operations.
#[cfg(dumpster_vp)]
pub fn hook(op: Op, addr: *const ()) -> bool {
    let k = match op {
        Op::Load => 1,
        Op::Store => 2,
        Op::Rmw => 3,
        Op::Fence => 4,
        Op::Acquire => 5,
        Op::Blocked => 6,
        Op::Acquired => 7,
    };
    if me().is_none() {
        return false;
    }
    let r = at(k, op == Op::Blocked);
    if mem::released(addr as usize) {
        rep::violation("uaf", &format!("the collector operates on the header of a value whose memory has been released ({op:?})"));
    }
    r
}

fn finish(me: usize) {
    let next = with(|s| {
        s.done[me] = true;
        s.off[me] = false;
        s.blocked[me] = false;
        s.progress += 1;
        s.steps += 1;
        s.hash = s.hash.rotate_left(5) ^ me as u64;
        let cur = CUR.load(SeqCst);
        // out of turn: do not disturb the one whose turn it is
        (cur == me || cur == NONE).then(|| s.choose(me))
    });
    if let Some(next) = next.flatten() {
        hand(next);
    }
}

/// Is the thread asleep? Also gives a fingerprint that changes whenever it runs.
pub fn asleep(tid: i32) -> (bool, String) {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("").trim_start().to_owned();
    let st = std::fs::read_to_string(format!("/proc/self/task/{tid}/status")).unwrap_or_default();
    let sw: String = st.lines().filter(|l| l.contains("ctxt_switches")).collect();
    let cpu: Vec<&str> = rest.split(' ').skip(11).take(2).collect();
    (rest.starts_with('S'), format!("{cpu:?}{sw}"))
}

pub struct Outcome {
    pub steps: u64,
    pub switches: u64,
    pub hash: u64,
}

pub type Body = Box<dyn FnOnce() + Send>;

/// Run the bodies as threads under control, including their thread-local destructors.
pub fn run(bodies: Vec<Body>, strategy: Strategy, rng: &mut Rng) -> Outcome {
    let n = bodies.len();
    let mut prio = [0i64; MAXT];
    for p in &mut prio {
        *p = (rng.next() >> 40) as i64 + 1;
    }
    LOOSE.store(false, SeqCst);
    *ST.lock().unwrap_or_else(|e| e.into_inner()) = Some(State {
        n,
        done: [false; MAXT],
        off: [false; MAXT],
        blocked: [false; MAXT],
        blocked_at: [0; MAXT],
        prio,
        low: 0,
        victim_points: 0,
        victim_since: 0,
        progress: 1,
        steps: 0,
        switches: 0,
        hash: 0,
        strategy,
        rng: Rng::new(rng.next()),
        handles: vec![None; n],
        main: std::thread::current(),
    });
    CUR.store(NONE, SeqCst);
    READY.store(0, SeqCst);
    let main = std::thread::current();
    let js: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, body)| {
            let main = main.clone();
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    ME.with(|m| m.set(i));
                    FIN.with(|_| ());
                    TIDS[i].store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
                    with(|s| s.handles[i] = Some(std::thread::current()));
                    READY.fetch_add(1, SeqCst);
                    main.unpark();
                    wait(i);
                    body();
                })
                .unwrap_or_else(|_| rep::harness_error("failed to spawn thread"))
        })
        .collect();
    while READY.load(SeqCst) < n {
        std::thread::park_timeout(Duration::from_millis(10));
    }
    let first = with(|s| s.choose(NONE)).unwrap();
    hand(first);
    let mut seen = (u64::MAX, String::new(), 0u32);
    let start = Instant::now();
    loop {
        if with(|s| (0..s.n).all(|t| s.done[t])).unwrap_or(true) {
            break;
        }
        std::thread::park_timeout(Duration::from_millis(50));
        let (steps, offs) = with(|s| (s.steps, (0..s.n).filter(|t| s.off[*t] && !s.done[*t]).collect::<Vec<_>>())).unwrap();
        let cur = CUR.load(SeqCst);
        if cur == NONE {
            // a stuck thread may have come back while the turn was being given up
            let next = with(|s| (0..s.n).any(|t| s.runnable(t)).then(|| s.choose(NONE))).flatten();
            if let Some(next) = next.filter(|n| *n != NONE) {
                let _ = CUR.compare_exchange(NONE, next, SeqCst, SeqCst);
                if let Some(h) = with(|s| s.handles[next].clone()).flatten() {
                    h.unpark();
                }
                continue;
            }
        }
        let watch: Vec<usize> = if cur == NONE { offs.clone() } else { vec![cur] };
        let marks: Vec<(bool, String)> = watch.iter().map(|t| asleep(TIDS[*t].load(SeqCst))).collect();
        let all_asleep = !marks.is_empty() && marks.iter().all(|m| m.0);
        let mark = format!("{marks:?}");
        if steps == seen.0 && all_asleep && mark == seen.1 {
            seen.2 += 1;
        } else {
            seen = (steps, mark, 0);
        }
        if seen.2 >= 6 && cur != NONE {
            // the running thread is stuck in an operation we do not see: let the others go on
            LOOSE.store(true, SeqCst);
            rep::count("stalls", 1);
            let next = with(|s| {
                if s.steps != steps || CUR.load(SeqCst) != cur {
                    return None;
                }
                s.off[cur] = true;
                s.progress += 1;
                Some(s.choose(cur))
            });
            if let Some(next) = next.flatten() {
                hand(next);
            }
            seen.2 = 0;
        } else if seen.2 >= 60 && cur == NONE && !offs.is_empty() {
            let undone = with(|s| (0..s.n).filter(|t| !s.done[*t]).count()).unwrap();
            if offs.len() == undone {
                rep::stop("deadlock", &format!("threads {offs:?} sleep forever"));
            }
        }
        if start.elapsed() > Duration::from_secs(100) {
            rep::harness_error("an execution does not end");
        }
    }
    for j in js {
        let _ = j.join();
    }
    let s = ST.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap();
    CUR.store(NONE, SeqCst);
    Outcome { steps: s.steps, switches: s.switches, hash: s.hash }
}

/// Run on a thread of its own. If that thread falls asleep for good, nobody can ever wake it.
pub fn alone<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> std::thread::Result<R> {
    let tid = std::sync::Arc::new(AtomicI32::new(0));
    let t2 = tid.clone();
    let main = std::thread::current();
    let j = std::thread::spawn(move || {
        struct Wake(Thread);
        impl Drop for Wake {
            fn drop(&mut self) {
                self.0.unpark();
            }
        }
        let _w = Wake(main);
        t2.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
        f()
    });
    let mut seen = (String::new(), 0);
    while !j.is_finished() {
        std::thread::park_timeout(Duration::from_millis(if seen.1 == 0 { 20 } else { 100 }));
        let t = tid.load(SeqCst);
        if t == 0 || j.is_finished() {
            continue;
        }
        let (s, mark) = asleep(t);
        if s && mark == seen.0 {
            seen.1 += 1;
            if seen.1 > 40 {
                rep::stop("deadlock", "the only thread waits forever");
            }
        } else {
            seen = (mark, 0);
        }
    }
    j.join()
}
