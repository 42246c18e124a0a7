//! Must not compile: a value in a cycle would outlive what it borrows. If it does compile, Miri is to judge it.
use dumpster::{unsync::{collect, Gc}, Collectable, Visitor};
use std::cell::RefCell;

struct Loan<'a> {
    of: &'a String,
    me: RefCell<Option<Gc<Loan<'a>>>>,
}

unsafe impl Collectable for Loan<'_> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.me.accept(v)
    }
}

impl Drop for Loan<'_> {
    fn drop(&mut self) {
        assert!(self.of.starts_with("some"));
    }
}

fn main() {
    {
        let text = "some text".repeat(3);
        let l = Gc::new(Loan { of: &text, me: Default::default() });
        *l.me.borrow_mut() = Some(l.clone());
    }
    collect();
    println!("RESULT {{\"counts\":{{\"suspicious_programs_run\":1}},\"maxes\":{{}},\"distinct\":0,\"samples\":[]}}");
}
