//! The laws of `pddl::Number`, as assertions over arbitrary values.  Kani proves
//! them (the `proofs` module); the replay binary runs them on a counterexample.
use pddl::Number;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// What a value feeds to a hasher.
#[derive(PartialEq, Eq, Default)]
struct Fed(u128, usize);
impl Hasher for Fed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            self.0 = self.0 << 8 | b[i] as u128;
            i += 1;
        }
        self.1 += b.len();
    }
}
fn fed(n: &Number) -> Fed {
    let mut h = Fed::default();
    n.hash(&mut h);
    h
}
fn num(x: f32) -> Number {
    match Number::try_new(x) {
        Ok(n) => n,
        Err(_) => panic!("a finite value was rejected"),
    }
}

pub fn construct(x: f32) {
    let t = Number::try_new(x);
    assert!(t.is_ok() == x.is_finite(), "exactly the finite values are numbers");
    if let Ok(n) = t {
        assert!(n.to_bits() == x.to_bits(), "try_new keeps the value");
        assert!(Number::new(x).to_bits() == x.to_bits(), "new keeps the value");
        assert!(Number::from(x).to_bits() == x.to_bits(), "from keeps the value");
        let c = n;
        #[allow(clippy::clone_on_copy)]
        let d = n.clone();
        assert!(c.to_bits() == x.to_bits() && d.to_bits() == x.to_bits(), "a copy has the value");
    }
}
pub fn construct64(x: f64) {
    let y = x as f32;
    if y.is_finite() {
        assert!(Number::from(x).to_bits() == y.to_bits(), "from a double gives the nearest float");
    }
}
/// Never returns.
pub fn refuse(x: f32) {
    let _ = Number::new(x);
}
pub fn refuse_from(x: f32) {
    let _ = Number::from(x);
}
pub fn refuse_from64(x: f64) {
    let _ = Number::from(x);
}
fn expected(a: f32, b: f32) -> Ordering {
    if a < b {
        Ordering::Less
    } else if a > b {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}
pub fn order(a: f32, b: f32) {
    if !a.is_finite() || !b.is_finite() {
        return;
    }
    let (x, y) = (num(a), num(b));
    let o = expected(a, b);
    assert!(x.cmp(&y) == o, "cmp is the order of the values");
    assert!(x.partial_cmp(&y) == Some(o), "partial_cmp agrees");
    assert!((x < y) == (a < b) && (x <= y) == (a <= b), "< and <= agree");
    assert!((x > y) == (a > b) && (x >= y) == (a >= b), "> and >= agree");
    assert!((x == y) == (a == b), "== agrees");
    assert!((x != y) == (a != b), "!= agrees");
    assert!(*x.max(y) == a.max(b) && *x.min(y) == a.min(b), "max and min agree");
}
pub fn hashed(a: f32, b: f32) {
    if !a.is_finite() || !b.is_finite() {
        return;
    }
    let (x, y) = (num(a), num(b));
    if a == b {
        assert!(fed(&x) == fed(&y), "equal numbers hash alike");
    }
}
pub fn plain(a: f32, b: f32) {
    if !a.is_finite() || !b.is_finite() {
        return;
    }
    let x = num(a);
    assert!((x == b) == (a == b), "comparing with a float agrees");
    assert!((x != b) == (a != b), "comparing with a float agrees");
    let w = b as f64;
    assert!((x == w) == (a == b), "comparing with a double agrees");
}
macro_rules! ints {
    ($($t:ident)*) => {$(
        pub fn $t(i: $t, a: f32) {
            let n = Number::from(i);
            assert!(n.to_bits() == (i as f32).to_bits(), "an integer gives the nearest float");
            assert!(n == i, "a number equals the integer it was made from");
            if a.is_finite() {
                assert!((num(a) == i) == (a == i as f32), "comparing with an integer agrees");
            }
        }
    )*};
}
pub mod int {
    use super::*;
    ints!(i8 u8 i16 u16 i32 u32);
}
pub fn zero() {
    assert!(*Number::default() == 0.0, "the default is 0");
    assert!(num(0.0) == num(-0.0), "0 and -0 are equal");
}

#[cfg(kani)]
mod proofs {
    use super::*;
    macro_rules! never {
        ($n:ident, $t:ty) => {
            #[kani::proof]
            #[kani::should_panic]
            fn $n() {
                let x: $t = kani::any();
                kani::assume(!(x as f32).is_finite());
                super::$n(x);
                kani::cover!(true, "RETURNED");
            }
        };
    }
    never!(refuse, f32);
    never!(refuse_from, f32);
    never!(refuse_from64, f64);
    #[kani::proof]
    fn construct() {
        super::construct(kani::any())
    }
    #[kani::proof]
    fn construct64() {
        super::construct64(kani::any())
    }
    #[kani::proof]
    fn order() {
        super::order(kani::any(), kani::any());
        kani::cover!(true, "REACHED");
    }
    #[kani::proof]
    #[kani::unwind(18)]
    fn hashed() {
        super::hashed(kani::any(), kani::any())
    }
    #[kani::proof]
    fn plain() {
        super::plain(kani::any(), kani::any())
    }
    macro_rules! ints {
        ($($t:ident)*) => {$(#[kani::proof] fn $t() { int::$t(kani::any(), kani::any()) })*};
    }
    ints!(i8 u8 i16 u16 i32 u32);
    #[kani::proof]
    fn zero() {
        super::zero()
    }
}
