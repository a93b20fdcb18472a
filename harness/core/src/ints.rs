//! the supported integer types and their interesting values
use crate::refmath::*;
use num_bigint::{BigInt, BigUint};
use num_traits::One;
use std::fmt::Debug;

/// a supported integer type together with its exact meaning
pub trait Int: Clone + Eq + Debug + std::hash::Hash + 'static {
    const NAME: &'static str;
    fn big(&self) -> BigInt;
    fn from_big(v: &BigInt) -> Option<Self>;
    fn signed() -> bool {
        Self::from_big(&bi(-1)).is_some()
    }
}
macro_rules! ints {
    ($($t:ty),*) => {$(impl Int for $t {
        const NAME: &'static str = stringify!($t);
        fn big(&self) -> BigInt { BigInt::from(self.clone()) }
        fn from_big(v: &BigInt) -> Option<Self> { <$t>::try_from(v.clone()).ok() }
    })*};
}
ints!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, BigUint);
impl Int for BigInt {
    const NAME: &'static str = "BigInt";
    fn big(&self) -> BigInt {
        self.clone()
    }
    fn from_big(v: &BigInt) -> Option<Self> {
        Some(v.clone())
    }
}

/// the interesting values of a type: 0, 1, 2, small ones, everything next to a power-of-two word boundary, extremes
pub fn boundary<T: Int>() -> Vec<T> {
    let mut v: Vec<BigInt> = (0..=7).map(bi).collect();
    for k in [7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128] {
        let p = BigInt::one() << k;
        for d in [-3i64, -2, -1, 0, 1] {
            v.push(&p + d);
        }
    }
    for w in [97i64, 30030, 65521, 2147483629, 4294967291] {
        v.push(bi(w));
    }
    v.push((BigInt::one() << 89u32) - 1);
    v.push((BigInt::one() << 200u32) + 235);
    let neg: Vec<BigInt> = v.iter().map(|x| -x).collect();
    v.extend(neg);
    v.sort();
    v.dedup();
    v.iter().filter_map(T::from_big).collect()
}
pub fn range<T: Int>(lo: i64, hi: i64) -> Vec<T> {
    (lo..=hi).filter_map(|v| T::from_big(&bi(v))).collect()
}
