//! Threads which execute what they are told, one step at a time.

use crate::rep;
use crate::sched;
use std::sync::atomic::{AtomicI32, Ordering::*};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::Arc;
use std::thread::JoinHandle;
use std::time::Duration;

type Job = Box<dyn FnOnce() + Send>;

pub struct Worker {
    tx: Option<Sender<Job>>,
    done: Receiver<()>,
    tid: Arc<AtomicI32>,
    join: Option<JoinHandle<()>>,
}

impl Worker {
    pub fn new() -> Worker {
        let (tx, rx) = channel::<Job>();
        let (dtx, done) = channel();
        let tid = Arc::new(AtomicI32::new(0));
        let t2 = tid.clone();
        let join = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                t2.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
                while let Ok(j) = rx.recv() {
                    j();
                    let _ = dtx.send(());
                }
            })
            .unwrap_or_else(|_| rep::harness_error("failed to spawn thread"));
        Worker { tx: Some(tx), done, tid, join: Some(join) }
    }

    /// Run `f` there and wait for it.
    pub fn run<R: Send + 'static>(&self, f: impl FnOnce() -> R + Send + 'static) -> R {
        let (rtx, rrx) = channel();
        let _ = self.tx.as_ref().unwrap().send(Box::new(move || {
            let _ = rtx.send(f());
        }));
        self.wait(|| match self.done.recv_timeout(Duration::from_millis(200)) {
            Ok(()) => Some(()),
            Err(RecvTimeoutError::Timeout) => None,
            Err(RecvTimeoutError::Disconnected) => rep::harness_error("a worker is gone"),
        });
        rrx.recv().unwrap_or_else(|_| rep::harness_error("a worker gave no answer"))
    }

    fn wait<R>(&self, mut ready: impl FnMut() -> Option<R>) -> R {
        let mut seen = (String::new(), 0);
        loop {
            if let Some(r) = ready() {
                return r;
            }
            let (asleep, mark) = sched::asleep(self.tid.load(SeqCst));
            if asleep && mark == seen.0 {
                seen.1 += 1;
                if seen.1 > 25 {
                    rep::stop("deadlock", "a thread waits forever although no other is running");
                }
            } else {
                seen = (mark, 0);
            }
        }
    }

    /// Let the thread end, and wait for that.
    pub fn end(mut self) {
        self.tx = None;
        let j = self.join.take().unwrap();
        // until it is really gone, its thread-local variables included
        while self.tid.load(SeqCst) == 0 {
            std::thread::yield_now();
        }
        let path = format!("/proc/self/task/{}", self.tid.load(SeqCst));
        self.wait(|| {
            for i in 0..400 {
                if j.is_finished() && !std::path::Path::new(&path).exists() {
                    return Some(());
                }
                std::thread::sleep(Duration::from_micros(if i < 50 { 20 } else { 500 }));
            }
            None
        });
        if j.join().is_err() {
            rep::harness_error("a worker panicked");
        }
    }
}
