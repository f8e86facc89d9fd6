//! P05: standard conversions in and out never distort a value.

use crate::{nd, spec::*, st};
use value_bag::{Error, ValueBag};

fn check(b: ValueBag, v: Val) {
    reads(&b, v, Text::Same);
    empties(&b, v);
    std::mem::forget(b);
}

macro_rules! into {
    ($($t:ident $v:ident $c:ty;)*) => {
        $(
            pub mod $t {
                use super::*;
                cases! { 2;
                    from { let x = nd::$t(); check(ValueBag::from(x), Val::$v(x as $c)) }
                    from_ref { let x = nd::$t(); check(ValueBag::from(&x), Val::$v(x as $c)) }
                    from_some { let x = nd::$t(); check(ValueBag::from(Some(x)), Val::$v(x as $c)) }
                    from_none { check(ValueBag::from(None::<$t>), Val::None) }
                }
            }
        )*
        #[cfg(not(kani))]
        fn ins() -> Vec<(&'static str, fn())> { [$($t::TABLE),*].concat() }
    };
}
into! {
    u8 U u64;
    u16 U u64;
    u32 U u64;
    u64 U u64;
    usize U u64;
    i8 I i64;
    i16 I i64;
    i32 I i64;
    i64 I i64;
    isize I i64;
    f32 F f64;
    f64 F f64;
    bool B bool;
    char C char;
}

pub mod other_in {
    use super::*;
    cases! { 2;
        unit { check(ValueBag::from(()), Val::None) }
        unit_ref { check(ValueBag::from(&()), Val::None) }
        u128_ref { let x = nd::u128(); check(ValueBag::from(&x), Val::BU(x)) }
        i128_ref { let x = nd::i128(); check(ValueBag::from(&x), Val::BI(x)) }
        str { st::set_text(4); let s = st::text(0, 4); check(ValueBag::from(s), Val::S(s)) }
        str_ref { st::set_text(4); let s = st::text(0, 4); check(ValueBag::from(&s), Val::S(s)) }
        some_str { st::set_text(4); let s = st::text(0, 4); check(ValueBag::from(Some(s)), Val::S(s)) }
        none_str { check(ValueBag::from(None::<&str>), Val::None) }
    }
}

#[cfg(feature = "inline-i128")]
pub mod wide_in {
    use super::*;
    cases! { 2;
        u128 { let x = nd::u128(); check(ValueBag::from(x), Val::BU(x)) }
        i128 { let x = nd::i128(); check(ValueBag::from(x), Val::BI(x)) }
    }
}

fn take<T>(r: Result<T, Error>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err(e) => { std::mem::forget(e); None }
    }
}
/// The integer, when it lies within `lo..=hi`
fn fits(v: Val, lo: i128, hi: i128) -> Option<i128> {
    match i128_of(v) {
        Some(x) if x >= lo && x <= hi => Some(x),
        _ => None,
    }
}

/// Out of every kind into each unsigned width
pub mod out_unsigned {
    use super::*;
    fn f(v: Val) {
        assert!(take(u8::try_from(bag(v))).map(|x| x as i128) == fits(v, 0, 255), "out to u8");
        assert!(take(u16::try_from(bag(v))).map(|x| x as i128) == fits(v, 0, 65535), "out to u16");
        assert!(take(u32::try_from(bag(v))).map(|x| x as i128) == fits(v, 0, 4294967295), "out to u32");
        assert!(take(u64::try_from(bag(v))) == u64_of(v), "out to u64");
        assert!(take(usize::try_from(bag(v))).map(|x| x as u64) == u64_of(v), "out to usize");
        assert!(take(u128::try_from(bag(v))) == u128_of(v), "out to u128");
    }
    per_kind!(2 f);
}
/// Out of every kind into each signed width
pub mod out_signed {
    use super::*;
    fn f(v: Val) {
        assert!(take(i8::try_from(bag(v))).map(|x| x as i128) == fits(v, -128, 127), "out to i8");
        assert!(take(i16::try_from(bag(v))).map(|x| x as i128) == fits(v, -32768, 32767), "out to i16");
        assert!(take(i32::try_from(bag(v))).map(|x| x as i128) == fits(v, -2147483648, 2147483647), "out to i32");
        assert!(take(i64::try_from(bag(v))) == i64_of(v), "out to i64");
        assert!(take(isize::try_from(bag(v))).map(|x| x as i64) == i64_of(v), "out to isize");
        assert!(take(i128::try_from(bag(v))) == i128_of(v), "out to i128");
    }
    per_kind!(2 f);
}
/// Out of every kind into everything else
pub mod out_other {
    use super::*;
    fn f(v: Val) {
        assert!(same_opt_f64(take(f64::try_from(bag(v))), f64_of(v)), "out to f64");
        assert!(take(bool::try_from(bag(v))) == bool_of(v), "out to bool");
        assert!(take(char::try_from(bag(v))) == char_of(v), "out to char");
        match (take(<&str>::try_from(bag(v))), v) {
            (Some(s), Val::S(e)) => assert!(same_str(s, e), "out to text"),
            (Some(_), _) | (None, Val::S(_)) => assert!(false, "out to text"),
            _ => (),
        }
    }
    per_kind!(2 f);
}

#[cfg(feature = "alloc")]
pub mod out_alloc {
    use super::*;
    use std::borrow::Cow;
    fn f(v: Val) {
        let r = take(String::try_from(bag(v)));
        match (&r, v) {
            (Some(s), Val::S(e)) => assert!(equal_text(s, e), "out to owned text"),
            (Some(_), _) | (None, Val::S(_)) => assert!(false, "out to owned text"),
            _ => (),
        }
        std::mem::forget(r);
        let r = take(Cow::<str>::try_from(bag(v)));
        match (&r, v) {
            (Some(Cow::Borrowed(s)), Val::S(e)) => assert!(same_str(s, e), "out to text"),
            (Some(_), _) | (None, Val::S(_)) => assert!(false, "out to text"),
            _ => (),
        }
        std::mem::forget(r);
    }
    per_kind!(2 f);
}
#[cfg(feature = "alloc")]
pub mod in_alloc {
    use super::*;
    use std::borrow::Cow;
    fn on(s: &str, b: ValueBag) {
        match b.to_borrowed_str() {
            Some(r) => assert!(same_str(r, s), "the string's own text"),
            None => assert!(false, "text not readable"),
        }
        assert!(!b.is_empty() && b.to_char().is_none() && b.to_bool().is_none() && b.to_u64().is_none(), "text only");
        std::mem::forget(b);
    }
    cases! { 2;
        string { st::set_text(4); let s = String::from(st::text(0, 4)); on(&s, ValueBag::from(&s)); std::mem::forget(s); }
        cow { st::set_text(4); let s = Cow::Borrowed(st::text(0, 4)); on(&s, ValueBag::from(&s)); }
        cow_owned { st::set_text(4); let s: Cow<str> = Cow::Owned(String::from(st::text(0, 4))); on(&s, ValueBag::from(&s)); std::mem::forget(s); }
    }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut t = [&ins()[..], other_in::TABLE, out_unsigned::TABLE, out_signed::TABLE, out_other::TABLE].concat();
    #[cfg(feature = "inline-i128")]
    t.extend_from_slice(wide_in::TABLE);
    #[cfg(feature = "alloc")]
    t.extend_from_slice(out_alloc::TABLE);
    #[cfg(feature = "alloc")]
    t.extend_from_slice(in_alloc::TABLE);
    t
}
