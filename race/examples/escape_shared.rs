//! Must not compile: a reference outlives the handle it was obtained from. If it does compile, Miri is to judge it.
use dumpster::sync::{collect, Gc};

fn main() {
    let text = {
        let g = Gc::new("some text".repeat(3));
        Gc::try_deref(&g).unwrap()
    };
    collect();
    assert!(text.starts_with("some"));
    println!("RESULT {{\"counts\":{{\"suspicious_programs_run\":1}},\"maxes\":{{}},\"distinct\":0,\"samples\":[]}}");
}
