//! Compiles and is sound: shows that the others are refused for what is wrong with them.
use dumpster::{sync, unsync, Collectable, Visitor};
use std::{cell::RefCell, sync::Mutex};

struct Local {
    text: String,
    me: RefCell<Option<unsync::Gc<Local>>>,
}

unsafe impl Collectable for Local {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.me.accept(v)
    }
}

struct Shared {
    text: String,
    me: Mutex<Option<sync::Gc<Shared>>>,
}

unsafe impl Collectable for Shared {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.me.accept(v)
    }
}

fn main() {
    let a = unsync::Gc::new(Local { text: "some text".repeat(3), me: Default::default() });
    *a.me.borrow_mut() = Some(a.clone());
    assert!(unsync::Gc::try_deref(&a).unwrap().text.starts_with("some"));
    drop(a);
    unsync::collect();
    let b = sync::Gc::new(Shared { text: "some text".repeat(3), me: Default::default() });
    *b.me.lock().unwrap() = Some(b.clone());
    let c = b.clone();
    std::thread::spawn(move || assert!(sync::Gc::try_deref(&c).unwrap().text.starts_with("some"))).join().unwrap();
    drop(b);
    sync::collect();
    println!("RESULT {{\"counts\":{{\"sound_programs_run\":1}},\"maxes\":{{}},\"distinct\":0,\"samples\":[]}}");
}
