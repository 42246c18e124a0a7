//! Must not compile: threads would count with the same counter. If it does compile, Miri is to judge it.
use dumpster::unsync::Gc;

fn main() {
    let g = Gc::new(0u64);
    let ts: Vec<_> = (0..3)
        .map(|_| {
            let g = g.clone();
            std::thread::spawn(move || (0..20).for_each(|_| drop(g.clone())))
        })
        .collect();
    ts.into_iter().for_each(|t| t.join().unwrap());
    println!("RESULT {{\"counts\":{{\"suspicious_programs_run\":1}},\"maxes\":{{}},\"distinct\":0,\"samples\":[]}}");
}
