//! Runs a harness natively on the values of a counterexample.
//! replay FILE: the harness's name, then one line of bytes per nondeterministic value.
//! Exit 1: the property is broken; 0: it holds on these values.
use std::cell::RefCell;
pub mod kani {
    thread_local!(pub static VALUES: super::RefCell<std::collections::VecDeque<Vec<u8>>> = Default::default());
    pub fn any() -> i64 {
        let b = VALUES.with(|v| v.borrow_mut().pop_front()).unwrap_or_else(|| { println!("out of values"); std::process::exit(3) });
        i64::from_le_bytes(b.try_into().unwrap())
    }
    pub fn assume(b: bool) { if !b { println!("outside the assumptions"); std::process::exit(3) } }
    macro_rules! cover_ { ($e:expr) => { { let _c: bool = $e; } } }
    pub(crate) use cover_ as cover;
}
#[path = "../../src/bits.rs"]
mod bits;
fn main() {
    let t = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let mut l = t.lines();
    let h = l.next().unwrap().to_string();
    kani::VALUES.with(|v| *v.borrow_mut() = l.map(|l| l.split_whitespace().map(|b| b.parse().unwrap()).collect()).collect());
    let all: [(&str, fn()); 7] = [("b_pow2", bits::b_pow2), ("b_pow", bits::b_pow), ("b_flip", bits::b_flip), ("b_is_set", bits::b_is_set), ("b_prepend", bits::b_prepend), ("b_build", bits::b_build), ("b_shift", bits::b_shift)];
    let f = all.iter().find(|x| x.0 == h).expect("harness").1;
    let r = std::thread::spawn({ let vs = kani::VALUES.with(|v| v.take()); move || { kani::VALUES.with(|v| *v.borrow_mut() = vs); f() } }).join();
    if r.is_err() { std::process::exit(1) }
    println!("holds");
}
