//! Must not compile: threads would change the same cell. If it does compile, Miri is to judge it.
use dumpster::sync::Gc;
use std::cell::Cell;

fn main() {
    let g = Gc::new(Cell::new(0u64));
    let ts: Vec<_> = (0..3)
        .map(|_| {
            let g = g.clone();
            std::thread::spawn(move || (0..20).for_each(|_| g.set(g.get() + 1)))
        })
        .collect();
    ts.into_iter().for_each(|t| t.join().unwrap());
    println!("RESULT {{\"counts\":{{\"suspicious_programs_run\":1}},\"maxes\":{{}},\"distinct\":0,\"samples\":[]}}");
}
