//! One very long ring of values, whose collection may need more stack than there is.

use crate::obs;
use crate::rep;

macro_rules! ring {
    ($name: ident, $m: ident) => {
        fn $name(n: usize) {
            use crate::$m::{collect, set_collect_condition, Any, CollectInfo};
            fn never(_: &CollectInfo) -> bool {
                false
            }
            set_collect_condition(never);
            let v: Vec<(Any, u32)> = (0..n).map(|_| Any::make(0, 0)).collect();
            for i in 0..n {
                let h = v[(i + 1) % n].0.dup();
                v[i].0.slots().unwrap().with(|s| s.push(h));
            }
            let (hs, ids): (Vec<Any>, Vec<u32>) = v.into_iter().unzip();
            drop(hs);
            collect();
            let left = ids.iter().filter(|i| !obs::is_dropped(**i)).count();
            if left > 0 {
                rep::violation("complete", &format!("{left} values of a ring of {n} were not collected"));
            }
        }
    };
}

ring!(local, useq);
ring!(shared, sseq);

pub fn run(sync: bool, n: usize) {
    if sync {
        shared(n);
    } else {
        local(n);
    }
    rep::count("rings", 1);
}
