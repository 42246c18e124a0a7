//! Must not compile: safe code could report handles which are not there. If it does compile, Miri is to judge it.
use dumpster::{unsync::{collect, Gc}, Collectable, Visitor};
use std::cell::RefCell;

struct Liar {
    text: String,
    me: RefCell<Option<Gc<Liar>>>,
}

impl Collectable for Liar {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        for _ in 0..2 {
            self.me.accept(v)?;
        }
        Ok(())
    }
}

fn main() {
    let a = Gc::new(Liar { text: "some text".repeat(3), me: RefCell::new(None) });
    *a.me.borrow_mut() = Some(a.clone());
    let text = &a.text;
    drop(a.clone());
    collect();
    assert!(text.starts_with("some"));
    println!("RESULT {{\"counts\":{{\"suspicious_programs_run\":1}},\"maxes\":{{}},\"distinct\":0,\"samples\":[]}}");
}
