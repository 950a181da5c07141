//! Bit strings, within the documented 30 bits, against bit-by-bit arithmetic.
//! Positions and lengths are unrolled, values are symbolic.
#[cfg(not(kani))]
use crate::kani;
use adapton::catalog::bitstring::{BitString, BS};

fn bit(v: i64, j: i64) -> bool { (v >> j) & 1 == 1 }
fn value(length: i64) -> i64 {
    let v: i64 = kani::any();
    kani::assume(0 <= v && v >> length == 0);
    v
}
fn upto(n: i64) -> i64 { let i: i64 = kani::any(); kani::assume(0 <= i && i < n); i }
macro_rules! each { ($i:ident < $n:expr, $b:block) => { let mut $i: i64 = 0; while $i < $n { $b; $i += 1; } } }

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(33))]
pub fn b_pow2() {
    each!(n < 31, { assert!(BS::pow(2, n) == 1i64 << n, "pow(2, n) is not 2^n") });
    let n = upto(31);
    assert!(BS::pow(2, n) == 1i64 << n, "pow(2, n) is not 2^n");
    kani::cover!(n == 30);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn b_pow() {
    let b: i64 = kani::any();
    kani::assume(-8 <= b && b <= 8);
    let mut w = 1;
    each!(n < 7, {
        assert!(BS::pow(b, n) == w, "pow(b, n) is not b^n");
        w = w * b
    });
    kani::cover!(b == -7);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(32))]
pub fn b_flip() {
    let b = value(30);
    each!(i < 30, {
        let f = BS::flip(i, b);
        assert!(f == b ^ (1 << i), "flip does not change exactly the given bit");
        assert!(BS::flip(i, f) == b, "flipping twice does not give the value back")
    });
    kani::cover!(bit(b, 3) && !bit(b, 29));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(32))]
pub fn b_is_set() {
    let b = value(30);
    each!(i < 30, { assert!(BS::is_set(i, b) == bit(b, i), "is_set does not tell the bit") });
    kani::cover!(bit(b, 29) && !bit(b, 0));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(32))]
pub fn b_prepend() {
    let b = upto(2);
    each!(length < 30, {
        let v = value(length);
        let r = BS::prepend(b, BS { length, value: v });
        assert!(r.length == length + 1, "prepending does not make the string one longer");
        assert!(BS::length(r) == r.length, "length is not the string's length");
        assert!(r.value == v | (b << length), "prepending does not put the given bit above the unchanged others");
        kani::cover!(length == 29 && b == 1 && bit(v, 28))
    });
}
/// A bit string as prepending builds it: what can be read back are the bits put in.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(32))]
pub fn b_build() {
    let mut s = BS { length: 0, value: 0 };
    let bits = value(30);
    each!(i < 30, { s = BS::prepend((bits >> i) & 1, s) });
    assert!(s.length == 30 && s.value == bits, "prepending bits one by one does not build their string");
    each!(i < 30, { assert!(BS::is_set(i, s.value) == bit(bits, i), "a prepended bit is not read back") });
    kani::cover!(bit(bits, 29) && !bit(bits, 7));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(34))]
pub fn b_shift() {
    let i = upto(31);
    each!(length < 31, {
        let v = value(length);
        let r = BS::shift_left(BS { length, value: v }, i);
        assert!(r.length == length, "shifting changes the length");
        let j = upto(63);
        assert!(bit(r.value, j) == (j < length && j >= i && bit(v, j - i)), "shifting does not move the bits up and drop those beyond the length");
        kani::cover!(length == 30 && i == 1 && bit(v, 29))
    });
}
