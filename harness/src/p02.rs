//! P02: float reads are lossless, lenient float reads are total.

use crate::{nd, spec::*, st};
use value_bag::ValueBag;

macro_rules! float_contracts {
    ($($m:ident $t:ident $v:ident $c:ty;)*) => {
        $(
            pub mod $m {
                use super::*;
                contracts! {
                    2 read_f64(x: $t = nd::$t()) -> Option<f64>, { ValueBag::$m(x).to_f64() } ensures |r| same_opt_f64(*r, f64_of(Val::$v(x as $c)));
                    2 read_as_f64(x: $t = nd::$t()) -> f64, { ValueBag::$m(x).as_f64() } ensures |r| same_f64(*r, as_f64_of(Val::$v(x as $c)));
                }
            }
        )*
        #[cfg(not(kani))]
        fn nums() -> Vec<(&'static str, fn())> { [$($m::TABLE),*].concat() }
    };
}
float_contracts! {
    from_u8 u8 U u64;
    from_u16 u16 U u64;
    from_u32 u32 U u64;
    from_u64 u64 U u64;
    from_usize usize U u64;
    from_i8 i8 I i64;
    from_i16 i16 I i64;
    from_i32 i32 I i64;
    from_i64 i64 I i64;
    from_isize isize I i64;
    from_f32 f32 F f64;
    from_f64 f64 F f64;
}

/// A float that answers as a float answers as nothing else numeric
pub mod floats {
    use super::*;
    contracts! {
        2 no_u64(x: f64 = nd::f64()) -> Option<u64>, { ValueBag::from_f64(x).to_u64() } ensures |r| r.is_none();
        2 no_i64(x: f64 = nd::f64()) -> Option<i64>, { ValueBag::from_f64(x).to_i64() } ensures |r| r.is_none();
        2 no_u128(x: f64 = nd::f64()) -> Option<u128>, { ValueBag::from_f64(x).to_u128() } ensures |r| r.is_none();
        2 no_i128(x: f64 = nd::f64()) -> Option<i128>, { ValueBag::from_f64(x).to_i128() } ensures |r| r.is_none();
        2 bits(x: f64 = nd::f64()) -> Option<f64>, requires x == x, { ValueBag::from_f64(x).to_f64() } ensures |r| r.unwrap().to_bits() == x.to_bits();
    }
}

/// Every kind, including wide integers
pub mod kinds {
    use super::*;
    fn f(v: Val) {
        let b = bag(v);
        assert!(same_opt_f64(b.to_f64(), f64_of(v)), "f64 read");
        assert!(same_f64(b.as_f64(), as_f64_of(v)), "lenient f64 read");
        std::mem::forget(b);
    }
    per_kind!(2 f);
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> { [&nums()[..], floats::TABLE, kinds::TABLE].concat() }
