//! P01: integers read back exactly or not at all.

use crate::{nd, spec::*, st};
use value_bag::ValueBag;

macro_rules! int_contracts {
    ($($m:ident $ctor:ident $t:ident $v:ident $c:ty;)*) => {
        $(
            pub mod $m {
                use super::*;
                contracts! {
                    2 read_u64(x: $t = nd::$t()) -> Option<u64>, { ValueBag::$ctor(x).to_u64() } ensures |r| *r == u64_of(Val::$v(x as $c));
                    2 read_i64(x: $t = nd::$t()) -> Option<i64>, { ValueBag::$ctor(x).to_i64() } ensures |r| *r == i64_of(Val::$v(x as $c));
                    2 read_u128(x: $t = nd::$t()) -> Option<u128>, { ValueBag::$ctor(x).to_u128() } ensures |r| *r == u128_of(Val::$v(x as $c));
                    2 read_i128(x: $t = nd::$t()) -> Option<i128>, { ValueBag::$ctor(x).to_i128() } ensures |r| *r == i128_of(Val::$v(x as $c));
                }
            }
        )*
        #[cfg(not(kani))]
        fn ints() -> Vec<(&'static str, fn())> { [$($m::TABLE),*].concat() }
    };
}
int_contracts! {
    from_u8 from_u8 u8 U u64;
    from_u16 from_u16 u16 U u64;
    from_u32 from_u32 u32 U u64;
    from_u64 from_u64 u64 U u64;
    from_usize from_usize usize U u64;
    from_i8 from_i8 i8 I i64;
    from_i16 from_i16 i16 I i64;
    from_i32 from_i32 i32 I i64;
    from_i64 from_i64 i64 I i64;
    from_isize from_isize isize I i64;
}

/// Every kind, including wide integers however they're stored
pub mod kinds {
    use super::*;
    fn f(v: Val) {
        let b = bag(v);
        assert!(b.to_u64() == u64_of(v), "u64 read");
        assert!(b.to_i64() == i64_of(v), "i64 read");
        assert!(b.to_u128() == u128_of(v), "u128 read");
        assert!(b.to_i128() == i128_of(v), "i128 read");
        std::mem::forget(b);
    }
    per_kind!(2 f);
}

/// Wide integers by reference, in every configuration
pub mod refs {
    use super::*;
    contracts! {
        2 u128_u64(x: &'static u128 = { st::set_u128(); st::u128_ref() }) -> Option<u64>, { ValueBag::from_u128_ref(x).to_u64() } ensures |r| *r == u64_of(Val::BU(*x));
        2 u128_i64(x: &'static u128 = { st::set_u128(); st::u128_ref() }) -> Option<i64>, { ValueBag::from_u128_ref(x).to_i64() } ensures |r| *r == i64_of(Val::BU(*x));
        2 u128_u128(x: &'static u128 = { st::set_u128(); st::u128_ref() }) -> Option<u128>, { ValueBag::from_u128_ref(x).to_u128() } ensures |r| *r == u128_of(Val::BU(*x));
        2 u128_i128(x: &'static u128 = { st::set_u128(); st::u128_ref() }) -> Option<i128>, { ValueBag::from_u128_ref(x).to_i128() } ensures |r| *r == i128_of(Val::BU(*x));
        2 i128_u64(x: &'static i128 = { st::set_i128(); st::i128_ref() }) -> Option<u64>, { ValueBag::from_i128_ref(x).to_u64() } ensures |r| *r == u64_of(Val::BI(*x));
        2 i128_i64(x: &'static i128 = { st::set_i128(); st::i128_ref() }) -> Option<i64>, { ValueBag::from_i128_ref(x).to_i64() } ensures |r| *r == i64_of(Val::BI(*x));
        2 i128_u128(x: &'static i128 = { st::set_i128(); st::i128_ref() }) -> Option<u128>, { ValueBag::from_i128_ref(x).to_u128() } ensures |r| *r == u128_of(Val::BI(*x));
        2 i128_i128(x: &'static i128 = { st::set_i128(); st::i128_ref() }) -> Option<i128>, { ValueBag::from_i128_ref(x).to_i128() } ensures |r| *r == i128_of(Val::BI(*x));
    }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> { [&ints()[..], kinds::TABLE, refs::TABLE].concat() }
