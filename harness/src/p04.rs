//! P04: type-directed capture keeps primitives structured.

use crate::{nd, spec::*, st};
use std::fmt;
use value_bag::ValueBag;

fn check(b: ValueBag, v: Val) {
    reads(&b, v, Text::Same);
    empties(&b, v);
    visits(&b, v, Text::Same);
    std::mem::forget(b);
}

macro_rules! prims {
    ($($t:ident $v:ident $c:ty;)*) => {
        $(
            pub mod $t {
                use super::*;
                cases! { 2;
                    fallible { let x = nd::$t(); check(ValueBag::try_capture(&x).unwrap(), Val::$v(x as $c)) }
                    debug { let x = nd::$t(); check(ValueBag::capture_debug(&x), Val::$v(x as $c)) }
                    display { let x = nd::$t(); check(ValueBag::capture_display(&x), Val::$v(x as $c)) }
                    some { let x = Some(nd::$t()); check(ValueBag::try_capture(&x).unwrap(), Val::$v(x.unwrap() as $c)) }
                    none { let x: Option<$t> = None; check(ValueBag::capture_debug(&x), Val::None) }
                }
            }
        )*
        #[cfg(not(kani))]
        fn prims() -> Vec<(&'static str, fn())> { [$($t::TABLE),*].concat() }
    };
}
prims! {
    u8 U u64;
    u16 U u64;
    u32 U u64;
    u64 U u64;
    usize U u64;
    u128 BU u128;
    i8 I i64;
    i16 I i64;
    i32 I i64;
    i64 I i64;
    isize I i64;
    i128 BI i128;
    f32 F f64;
    f64 F f64;
    bool B bool;
    char C char;
}

pub mod text {
    use super::*;
    cases! { 2;
        str { st::set_text(4); check(ValueBag::try_capture::<str>(st::text(0, 4)).unwrap(), Val::S(st::text(0, 4))) }
        static_str { st::set_text(4); let s = st::text(0, 4); check(ValueBag::try_capture(&s).unwrap(), Val::S(s)) }
        static_str_debug { st::set_text(4); let s = st::text(0, 4); check(ValueBag::capture_debug(&s), Val::S(s)) }
        static_str_display { st::set_text(4); let s = st::text(0, 4); check(ValueBag::capture_display(&s), Val::S(s)) }
        some { st::set_text(4); let s = Some(st::text(0, 4)); check(ValueBag::try_capture(&s).unwrap(), Val::S(st::text(0, 4))) }
        none { let s: Option<&'static str> = None; check(ValueBag::try_capture(&s).unwrap(), Val::None) }
    }
}

#[cfg(feature = "alloc")]
pub mod string {
    use super::*;
    /// The captured slice is the string's own
    fn on(s: &String, b: ValueBag) {
        match b.to_borrowed_str() {
            Some(r) => assert!(r.as_ptr() == s.as_ptr() && r.len() == s.len(), "the string's own text"),
            None => assert!(false, "text not readable"),
        }
        reads_num(&b, Val::Opaque);
        assert!(b.to_bool().is_none() && b.to_char().is_none() && !b.is_empty(), "text only");
        std::mem::forget(b);
    }
    fn make() -> String { st::set_text(4); String::from(st::text(0, 4)) }
    cases! { 2;
        fallible { let s = make(); on(&s, ValueBag::try_capture(&s).unwrap()); std::mem::forget(s); }
        debug { let s = make(); on(&s, ValueBag::capture_debug(&s)); std::mem::forget(s); }
        display { let s = make(); on(&s, ValueBag::capture_display(&s)); std::mem::forget(s); }
        some { let s = Some(make()); on(s.as_ref().unwrap(), ValueBag::try_capture(&s).unwrap()); std::mem::forget(s); }
        none { let s: Option<String> = None; let b = ValueBag::try_capture(&s).unwrap(); empties(&b, Val::None); std::mem::forget(b); std::mem::forget(s); }
    }
}
#[cfg(all(not(kani), feature = "alloc"))]
use string::TABLE as STRING;
#[cfg(all(not(kani), not(feature = "alloc")))]
const STRING: crate::Table = &[];

/// Types with the layout of a primitive that aren't one
#[derive(Clone, Copy)]
pub struct Newtype(pub u64);
impl fmt::Debug for Newtype {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("n") }
}
impl fmt::Display for Newtype {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("n") }
}

pub mod other {
    use super::*;
    cases! { 2;
        newtype { let x = Newtype(nd::u64()); assert!(ValueBag::try_capture(&x).is_none()) }
        newtype_debug { let x = Newtype(nd::u64()); check(ValueBag::capture_debug(&x), Val::Opaque) }
        newtype_display { let x = Newtype(nd::u64()); check(ValueBag::capture_display(&x), Val::Opaque) }
        option_newtype { let x = Some(Newtype(nd::u64())); assert!(ValueBag::try_capture(&x).is_none()) }
        array { let x = [nd::u8(); 4]; assert!(ValueBag::try_capture(&x).is_none()) }
        bytes { let x = [nd::u8(); 4]; assert!(ValueBag::try_capture::<[u8]>(&x[..]).is_none()) }
        unit { assert!(ValueBag::try_capture(&()).is_none()) }
        wrapping { let x = std::num::Wrapping(nd::u32()); assert!(ValueBag::try_capture(&x).is_none()) }
        option_option { let x = Some(Some(nd::u32())); assert!(ValueBag::try_capture(&x).is_none()) }
        tuple { let x = (nd::u32(),); assert!(ValueBag::try_capture(&x).is_none()) }
    }
}

#[cfg(feature = "owned")]
pub mod owned {
    use super::*;
    macro_rules! owned_prims {
        ($($t:ident $v:ident $c:ty;)*) => {
            $(
                pub mod $t {
                    use super::*;
                    cases! { 2;
                        fallible { let b = { let x = st_set(nd::$t()); ValueBag::try_capture_owned(&x).unwrap() }; check(b, Val::$v(last() as $c)) }
                        debug { let x = nd::$t(); check(ValueBag::capture_shared_debug(x), Val::$v(x as $c)) }
                        display { let x = nd::$t(); check(ValueBag::capture_shared_display(x), Val::$v(x as $c)) }
                        some { let x = Some(nd::$t()); check(ValueBag::capture_shared_debug(x), Val::$v(x.unwrap() as $c)) }
                        none { let x: Option<$t> = None; check(ValueBag::capture_shared_debug(x), Val::None) }
                    }
                    static mut LAST: Option<$t> = None;
                    fn st_set(x: $t) -> $t { unsafe { LAST = Some(x) }; x }
                    fn last() -> $t { unsafe { LAST.unwrap() } }
                }
            )*
            #[cfg(not(kani))]
            fn prims() -> Vec<(&'static str, fn())> { [$($t::TABLE),*].concat() }
        };
    }
    owned_prims! {
        u8 U u64;
        u16 U u64;
        u32 U u64;
        u64 U u64;
        usize U u64;
        i8 I i64;
        i16 I i64;
        i32 I i64;
        i64 I i64;
        isize I i64;
        f32 F f64;
        f64 F f64;
        bool B bool;
        char C char;
    }
    pub mod other {
        use super::*;
        cases! { 2;
            newtype { let x = Newtype(nd::u64()); assert!(ValueBag::try_capture_owned(&x).is_none()) }
            newtype_debug { let x = Newtype(nd::u64()); check(ValueBag::capture_shared_debug(x), Val::Opaque) }
            option_newtype { let x = Some(Newtype(nd::u64())); assert!(ValueBag::try_capture_owned(&x).is_none()) }
            array { let x = [nd::u8(); 4]; assert!(ValueBag::try_capture_owned(&x).is_none()) }
            unit { assert!(ValueBag::try_capture_owned(&()).is_none()) }
        }
    }
    #[cfg(feature = "inline-i128")]
    pub mod wide {
        use super::*;
        cases! { 2;
            u128 { let x = nd::u128(); check(ValueBag::capture_shared_debug(x), Val::BU(x)) }
            i128 { let x = nd::i128(); check(ValueBag::capture_shared_display(x), Val::BI(x)) }
            some_u128 { let x = Some(nd::u128()); check(ValueBag::try_capture_owned(&x).unwrap(), Val::BU(x.unwrap())) }
        }
    }
    #[cfg(not(kani))]
    pub fn table() -> Vec<(&'static str, fn())> {
        let mut t = prims();
        t.extend_from_slice(other::TABLE);
        #[cfg(feature = "inline-i128")]
        t.extend_from_slice(wide::TABLE);
        t
    }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut t = [&prims()[..], text::TABLE, other::TABLE, STRING].concat();
    #[cfg(feature = "owned")]
    t.extend(owned::table());
    t
}
