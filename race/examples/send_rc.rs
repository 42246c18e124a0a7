//! Must not compile: threads would count with the same counter. If it does compile, Miri is to judge it.
use dumpster::{sync::Gc, Collectable, Visitor};
use std::rc::Rc;

struct Owner(Rc<u64>);

unsafe impl Collectable for Owner {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> {
        Ok(())
    }
}

fn main() {
    let g = Gc::new(Owner(Rc::new(0)));
    let ts: Vec<_> = (0..3)
        .map(|_| {
            let g = g.clone();
            std::thread::spawn(move || (0..20).for_each(|_| drop(g.0.clone())))
        })
        .collect();
    ts.into_iter().for_each(|t| t.join().unwrap());
    println!("RESULT {{\"counts\":{{\"suspicious_programs_run\":1}},\"maxes\":{{}},\"distinct\":0,\"samples\":[]}}");
}
