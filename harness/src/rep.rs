//! Reporting: verdict lines on standard output, statistics, context for replays.

use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::*};
use std::sync::{Mutex, OnceLock};

/// Classes of oracles which this run decides; others are ignored.
static CLASSES: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static SEED: AtomicU64 = AtomicU64::new(0);
pub static EXEC: AtomicU64 = AtomicU64::new(0);
pub static VERBOSE: AtomicBool = AtomicBool::new(false);
static STATS: Mutex<Option<Stats>> = Mutex::new(None);
static TRACE: Mutex<Vec<String>> = Mutex::new(Vec::new());
static DONE: AtomicBool = AtomicBool::new(false);
static NOTE: Mutex<String> = Mutex::new(String::new());

#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}

thread_local! {
    static EXPECT_PANIC: Cell<u32> = const { Cell::new(0) };
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

pub fn set_classes(list: &str) {
    *CLASSES.lock().unwrap() = list.split(',').map(str::to_owned).collect();
}

pub fn enabled(class: &str) -> bool {
    let c = CLASSES.lock().unwrap_or_else(|e| e.into_inner());
    c.iter().any(|x| x == class || x == "all")
}

/// Add to the trace of the current execution (kept short; printed with a violation).
pub fn trace(s: impl FnOnce() -> String) {
    let mut t = TRACE.lock().unwrap_or_else(|e| e.into_inner());
    let s = s();
    if VERBOSE.load(Relaxed) {
        eprintln!("{s}");
    }
    if t.len() > 4000 {
        t.drain(..2000);
    }
    t.push(s);
}

pub fn clear_trace() {
    TRACE.lock().unwrap_or_else(|e| e.into_inner()).clear();
}

/// The trace so far on one line.
pub fn trace_text() -> String {
    TRACE.lock().unwrap_or_else(|e| e.into_inner()).iter().map(|s| s.trim()).collect::<Vec<_>>().join("; ")
}

/// A property is violated: say so and stop the process.
pub fn violation(class: &str, msg: &str) {
    if !enabled(class) {
        return;
    }
    emit(class, msg);
}

/// An operation will never complete: no property can hold for it.
pub fn stop(class: &str, msg: &str) -> ! {
    emit(class, msg)
}

fn emit(class: &str, msg: &str) -> ! {
    if DONE.swap(true, SeqCst) {
        // another thread is reporting
        loop {
            std::thread::park();
        }
    }
    let mut line = format!(
        "VIOL {{\"class\":\"{}\",\"msg\":\"{}\",\"seed\":{},\"exec\":{},\"trace\":[",
        esc(class),
        esc(msg),
        SEED.load(Relaxed),
        EXEC.load(Relaxed)
    );
    if let Ok(t) = TRACE.try_lock() {
        let from = t.len().saturating_sub(400);
        for (i, s) in t[from..].iter().enumerate() {
            if i > 0 {
                line.push(',');
            }
            let _ = write!(line, "\"{}\"", esc(s));
        }
    }
    line.push_str("]}\n");
    raw_out(&line);
    if std::env::var_os("VH_BT").is_some() {
        eprintln!("{}", std::backtrace::Backtrace::force_capture());
    }
    unsafe { libc::_exit(41) }
}

pub fn harness_error(msg: &str) -> ! {
    raw_out(&format!("HERR {}\n", esc(msg)));
    unsafe { libc::_exit(42) }
}

fn raw_out(s: &str) {
    let mut b = s.as_bytes();
    while !b.is_empty() {
        let n = unsafe { libc::write(1, b.as_ptr().cast(), b.len()) };
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
}

pub fn with_stats<R>(f: impl FnOnce(&mut Stats) -> R) -> R {
    let mut s = STATS.lock().unwrap_or_else(|e| e.into_inner());
    f(s.get_or_insert_with(Stats::default))
}

pub fn count(key: &str, n: u64) {
    with_stats(|s| match s.counts.get_mut(key) {
        Some(x) => *x += n,
        None => {
            s.counts.insert(key.to_owned(), n);
        }
    });
}

pub fn maxi(key: &str, n: u64) {
    with_stats(|s| {
        let e = s.maxes.entry(key.to_owned()).or_default();
        *e = (*e).max(n);
    });
}

/// An execution's fingerprint, for counting distinct ones.
pub fn distinct(h: u64) {
    with_stats(|s| {
        s.distinct.insert(h);
    });
}

/// A case which is told apart by its trace.
pub fn distinct_trace() {
    use std::hash::{Hash, Hasher};
    let t = trace_text();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    distinct(h.finish());
    sample(|| t);
}

pub fn sample(f: impl FnOnce() -> String) {
    with_stats(|s| {
        if s.samples.len() < 3 {
            let x = f();
            s.samples.push(x.chars().take(700).collect());
        }
    });
}

pub fn note(s: &str) {
    *NOTE.lock().unwrap() = s.to_owned();
}

pub fn finish() {
    let line = with_stats(|s| {
        let mut l = String::from("RESULT {\"counts\":{");
        for (i, (k, v)) in s.counts.iter().enumerate() {
            let _ = write!(l, "{}\"{}\":{}", if i > 0 { "," } else { "" }, esc(k), v);
        }
        l.push_str("},\"maxes\":{");
        for (i, (k, v)) in s.maxes.iter().enumerate() {
            let _ = write!(l, "{}\"{}\":{}", if i > 0 { "," } else { "" }, esc(k), v);
        }
        let _ = write!(l, "}},\"distinct\":{},\"samples\":[", s.distinct.len());
        for (i, v) in s.samples.iter().enumerate() {
            let _ = write!(l, "{}\"{}\"", if i > 0 { "," } else { "" }, esc(v));
        }
        l.push_str("]}\n");
        l
    });
    raw_out(&line);
}

/// Run `f` in a process of its own, as what it leaves behind may disturb later executions.
pub fn forked(f: impl FnOnce()) {
    fork_off(f, false)
}

/// Like `forked`; the main thread of that process then exits normally.
pub fn forked_exiting(f: impl FnOnce()) {
    fork_off(f, true)
}

static ANSWER: AtomicI32 = AtomicI32::new(-1);
/// Adds the totals of this process to what is counted.
pub static TOTALS: OnceLock<fn()> = OnceLock::new();

/// Send what was counted to the parent process.
extern "C" fn answer() {
    use std::io::Write;
    use std::os::fd::FromRawFd;
    if let Some(f) = TOTALS.get() {
        f();
    }
    let mut to = unsafe { std::fs::File::from_raw_fd(ANSWER.load(Relaxed)) };
    let mut t = String::new();
    with_stats(|s| {
        s.counts.iter().for_each(|(k, v)| t += &format!("c {v} {k}\n"));
        s.maxes.iter().for_each(|(k, v)| t += &format!("m {v} {k}\n"));
        s.distinct.iter().for_each(|v| t += &format!("d {v} -\n"));
        s.samples.iter().for_each(|v| t += &format!("s 0 {}\n", v.replace('\n', " ")));
    });
    let ok = to.write_all(t.as_bytes()).is_ok();
    unsafe { libc::_exit(if ok { 0 } else { 42 }) }
}

fn fork_off(f: impl FnOnce(), exiting: bool) {
    use std::io::Read;
    use std::os::fd::FromRawFd;
    let mut fds = [0; 2];
    if unsafe { libc::pipe(fds.as_mut_ptr()) } != 0 {
        harness_error("pipe failed");
    }
    let child = unsafe { libc::fork() };
    if child < 0 {
        harness_error("fork failed");
    }
    if child == 0 {
        unsafe { libc::close(fds[0]) };
        ANSWER.store(fds[1], Relaxed);
        with_stats(|s| *s = Stats::default());
        if exiting {
            // called after the destructors of thread-local variables
            if unsafe { libc::atexit(answer) } != 0 {
                harness_error("atexit failed");
            }
            f();
            std::process::exit(43);
        }
        f();
        answer();
    }
    let mut from = unsafe {
        libc::close(fds[1]);
        std::fs::File::from_raw_fd(fds[0])
    };
    let mut t = String::new();
    let read = from.read_to_string(&mut t);
    let mut status = 0;
    if read.is_err() || unsafe { libc::waitpid(child, &mut status, 0) } != child {
        harness_error("no answer from a child process");
    }
    if libc::WIFSIGNALED(status) {
        unsafe {
            libc::signal(libc::WTERMSIG(status), libc::SIG_DFL);
            libc::raise(libc::WTERMSIG(status));
        }
    }
    if status != 0 {
        unsafe { libc::_exit(libc::WEXITSTATUS(status)) }
    }
    for l in t.lines() {
        let mut w = l.splitn(3, ' ');
        let (Some(kind), Some(n), Some(text)) = (w.next(), w.next().and_then(|n| n.parse().ok()), w.next()) else {
            harness_error("bad answer from a child process")
        };
        match kind {
            "c" => count(text, n),
            "m" => maxi(text, n),
            "d" => distinct(n),
            _ => sample(|| text.to_owned()),
        }
    }
}

/// Panics in here are expected (the closure may or may not panic); anywhere else they are violations.
pub fn expecting<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    EXPECT_PANIC.with(|e| e.set(e.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    EXPECT_PANIC.with(|e| e.set(e.get() - 1));
    r.map_err(|p| {
        p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default()
    })
}

/// Is it the harness which panicked, directly or in a call of the standard library?
fn ours(file: &str) -> bool {
    let mine = |f: &str| f.contains("harness/src") || f.starts_with("src/") || f.starts_with("./src/");
    if mine(file) {
        return true;
    }
    if !file.contains("/library/") && !file.contains("rustlib") {
        return false;
    }
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    let frames = bt.lines().filter_map(|l| l.trim().strip_prefix("at "));
    let mut after = frames.skip_while(|f| mine(f) && f.contains("rep.rs") || f.contains("/library/") || f.contains("rustlib") || f.contains("/rustc/"));
    after.next().is_some_and(mine)
}

pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        if EXPECT_PANIC.try_with(|e| e.get()).unwrap_or(0) > 0 {
            return;
        }
        let file = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if ours(&file) {
            // a defect of the harness, not of the crate
            harness_error(&format!("panic in the harness at {file}: {msg}"));
        }
        emit("panic", &format!("unexpected panic at {file}: {msg}"));
    }));
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_segv as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        libc::sigaction(libc::SIGBUS, &sa, std::ptr::null_mut());
    }
}

extern "C" fn on_segv(sig: libc::c_int, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    let addr = unsafe { (*info).si_addr() as usize };
    let (arena, freed, off, slot) = crate::mem::classify(addr);
    if arena {
        let what = if freed { "released memory of a value was accessed" } else { "wild access into value memory" };
        emit("uaf", &format!("{what} (block {slot}, offset {off})"));
    }
    unsafe {
        libc::signal(sig, libc::SIG_DFL);
    }
}
