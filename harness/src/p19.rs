//! P19: failures of captured code are contained and reported.

use crate::{ev::*, is_ok, nd, spec::*, src::*, st};
use std::{
    fmt::{self, Write},
    mem::forget,
};
use value_bag::ValueBag;

/// Fails to format, after writing some text or none
struct Failing<const N: usize>;
impl<const N: usize> fmt::Debug for Failing<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if N > 0 { f.write_str(st::text(0, N))?; }
        Err(fmt::Error)
    }
}
impl<const N: usize> fmt::Display for Failing<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Debug::fmt(self, f) }
}
impl<const N: usize> std::error::Error for Failing<N> {}

fn refuses(b: &ValueBag) {
    let mut w = Wr::new();
    let d = nd::bool();
    assert!((if d { write!(w, "{:?}", b) } else { write!(w, "{}", b) }).is_err(), "the failure is reported");
}
fn declines(b: &ValueBag) {
    assert!(b.to_u64().is_none() && b.to_i64().is_none() && b.to_u128().is_none() && b.to_i128().is_none(), "reads as nothing");
    assert!(b.to_f64().is_none() && b.to_bool().is_none() && b.to_char().is_none(), "reads as nothing");
    assert!(b.to_borrowed_str().is_none(), "reads as nothing");
    assert!(b.as_f64().is_nan(), "reads as nothing");
    assert!(!b.is_empty(), "isn't empty");
}

pub mod formatting {
    use super::*;
    cases! { 4;
        debug { refuses(&ValueBag::from_debug(&Failing::<0>)) }
        display { refuses(&ValueBag::from_display(&Failing::<0>)) }
        debug_midway { st::set_text(4); refuses(&ValueBag::capture_debug(&Failing::<4>)) }
        display_midway { st::set_text(4); refuses(&ValueBag::capture_display(&Failing::<4>)) }
        reads { declines(&ValueBag::from_debug(&Failing::<0>)) }
        reads_display { declines(&ValueBag::capture_display(&Failing::<0>)) }
    }
    #[cfg(feature = "sval2")]
    pub mod sval {
        use super::*;
        use value_bag_sval2::lib;
        fn f(b: ValueBag) {
            let mut l = Log::new(NEVER);
            assert!(lib::stream(&mut l, &b).is_err(), "the failure is reported");
            forget(b);
        }
        cases! { 6;
            debug { f(ValueBag::from_debug(&Failing::<0>)) }
            display { f(ValueBag::from_display(&Failing::<0>)) }
            debug_midway { st::set_text(4); f(ValueBag::capture_debug(&Failing::<4>)) }
            display_midway { st::set_text(4); f(ValueBag::capture_display(&Failing::<4>)) }
        }
    }
    #[cfg(feature = "owned")]
    pub mod owned {
        use super::*;
        fn f(b: ValueBag) {
            let o = b.to_owned();
            let r = o.by_ref();
            let mut w = Wr::new();
            assert!(write!(w, "{}", r).is_ok() && w.n > 0, "a placeholder is formatted");
            declines(&r);
            forget(r);
            forget(o);
            forget(b);
        }
        cases! { 60;
            debug { st::set_text(1); f(ValueBag::from_debug(&Failing::<0>)) }
            display { st::set_text(1); f(ValueBag::from_display(&Failing::<0>)) }
            debug_midway { st::set_text(4); f(ValueBag::capture_debug(&Failing::<4>)) }
            display_midway { st::set_text(4); f(ValueBag::capture_display(&Failing::<4>)) }
        }
        #[cfg(feature = "error")]
        pub mod error {
            use super::*;
            fn f(b: ValueBag) {
                let o = b.to_owned();
                let r = o.by_ref();
                let mut w = Wr::new();
                match r.to_borrowed_error() {
                    Some(e) => assert!(write!(w, "{}", e).is_ok() && w.n > 0, "a placeholder is formatted"),
                    None => assert!(false, "no longer an error"),
                }
                declines(&r);
                forget(r);
                forget(o);
                forget(b);
            }
            cases! { 60;
                captured { st::set_text(1); f(ValueBag::capture_error(&Failing::<0>)) }
                midway { st::set_text(4); f(ValueBag::from_dyn_error(&Failing::<4>)) }
            }
        }
    }
}

/// The owned copy of something that couldn't be streamed or serialized
#[cfg(feature = "owned")]
fn poisoned(b: ValueBag, with: fn(&ValueBag)) {
    let o = b.to_owned();
    let r = o.by_ref();
    with(&r);
    forget(r);
    forget(o);
    forget(b);
}
#[cfg(feature = "owned")]
fn unvisitable(b: &ValueBag) {
    let mut r = Rec::new(false);
    assert!(!is_ok(b.visit(&mut r)), "the failure is reported");
    assert!(r.calls == 0, "no callback");
}

#[cfg(feature = "sval2")]
pub mod sval {
    use super::*;
    use value_bag_sval2::lib;
    fn fails(b: &ValueBag) {
        let mut l = Log::new(NEVER);
        assert!(lib::stream(&mut l, b).is_err(), "the failure is reported");
    }
    cases! { 6;
        start { fails(&ValueBag::from_sval2(&Src::<FAIL>)) }
        midway { st::set_text(5); fails(&ValueBag::from_sval2(&Src::<FAIL_MIDWAY>)) }
        after { st::set_u64(); fails(&ValueBag::capture_sval2(&Src::<FAIL_AFTER>)) }
        reads { declines(&ValueBag::from_sval2(&Src::<FAIL>)) }
        reads_midway { st::set_text(5); declines(&ValueBag::from_sval2(&Src::<FAIL_MIDWAY>)) }
    }
    pub mod formatting {
        use super::*;
        cases! { 8;
            start { refuses(&ValueBag::from_sval2(&Src::<FAIL>)) }
            captured { refuses(&ValueBag::capture_sval2(&Src::<FAIL>)) }
        }
    }
    #[cfg(feature = "owned")]
    pub mod owned {
        use super::*;
        macro_rules! cases {
            ($n:literal; $($name:ident $b:block)*) => {
                #[cfg_attr(kani, kani::proof)]
                #[cfg_attr(kani, kani::unwind($n))]
                #[cfg_attr(kani, kani::stub(std::any::TypeId::of, crate::stubs::type_id_of))]
                #[cfg_attr(kani, kani::stub(std::any::TypeId::eq, crate::stubs::type_id_eq))]
                #[cfg_attr(kani, kani::stub(std::fmt::Arguments::as_str, crate::stubs::arguments_as_str))]
                #[cfg_attr(kani, kani::stub(value_bag_sval2::buffer::value::raw::read::stream_all, crate::stubs::no_sval_copy))]
                pub fn any() { pick_case!($($name $b)*) }
                #[cfg(not(kani))]
                pub const TABLE: crate::Table = &[(concat!(module_path!(), "::any"), any)];
            };
        }
        pub mod reads { use super::*; cases! { 8; owned { poisoned(ValueBag::from_sval2(&Src::<FAIL>), declines) } } }
        pub mod visits { use super::*; cases! { 8; owned { poisoned(ValueBag::capture_sval2(&Src::<FAIL>), unvisitable) } } }
        pub mod streams { use super::*; cases! { 8; owned { poisoned(ValueBag::from_sval2(&Src::<FAIL>), fails) } } }
        #[cfg(not(kani))]
        pub fn table() -> Vec<(&'static str, fn())> { [reads::TABLE, visits::TABLE, streams::TABLE].concat() }
    }
}

#[cfg(feature = "serde1")]
pub mod serde {
    use super::*;
    use value_bag_serde1::lib::Serialize;
    fn fails(b: &ValueBag) {
        let mut l = Log::new(NEVER);
        assert!(b.serialize(crate::ev::serde::Ser(&mut l)).is_err(), "the failure is reported");
    }
    cases! { 6;
        start { fails(&ValueBag::from_serde1(&Src::<FAIL>)) }
        midway { st::set_bool(); fails(&ValueBag::from_serde1(&Src::<FAIL_MIDWAY>)) }
        reads { declines(&ValueBag::from_serde1(&Src::<FAIL>)) }
        reads_midway { st::set_bool(); declines(&ValueBag::from_serde1(&Src::<FAIL_MIDWAY>)) }
    }
    /// Either reported, or explained in the text
    pub mod formatting {
        use super::*;
        fn f(b: ValueBag) {
            let mut w = Wr::new();
            let d = nd::bool();
            let r = if d { write!(w, "{:?}", b) } else { write!(w, "{}", b) };
            assert!(r.is_err() || w.n > 0, "the failure shows");
            forget(b);
        }
        cases! { 8;
            start { f(ValueBag::from_serde1(&Src::<FAIL>)) }
            captured { f(ValueBag::capture_serde1(&Src::<FAIL>)) }
        }
    }
    #[cfg(feature = "owned")]
    pub mod owned {
        use super::*;
        macro_rules! cases {
            ($n:literal; $($name:ident $b:block)*) => {
                #[cfg_attr(kani, kani::proof)]
                #[cfg_attr(kani, kani::unwind($n))]
                #[cfg_attr(kani, kani::stub(std::any::TypeId::of, crate::stubs::type_id_of))]
                #[cfg_attr(kani, kani::stub(std::any::TypeId::eq, crate::stubs::type_id_eq))]
                #[cfg_attr(kani, kani::stub(std::fmt::Arguments::as_str, crate::stubs::arguments_as_str))]
                #[cfg_attr(kani, kani::stub(value_bag_serde1::erased::serialize, crate::stubs::no_serde_copy))]
                pub fn any() { pick_case!($($name $b)*) }
                #[cfg(not(kani))]
                pub const TABLE: crate::Table = &[(concat!(module_path!(), "::any"), any)];
            };
        }
        pub mod reads { use super::*; cases! { 8; owned { poisoned(ValueBag::from_serde1(&Src::<FAIL>), declines) } } }
        pub mod visits { use super::*; cases! { 8; owned { poisoned(ValueBag::capture_serde1(&Src::<FAIL>), unvisitable) } } }
        pub mod serializes { use super::*; cases! { 8; owned { poisoned(ValueBag::from_serde1(&Src::<FAIL>), fails) } } }
        #[cfg(not(kani))]
        pub fn table() -> Vec<(&'static str, fn())> { [reads::TABLE, visits::TABLE, serializes::TABLE].concat() }
    }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut t = formatting::TABLE.to_vec();
    #[cfg(feature = "owned")]
    {
        t.extend(formatting::owned::TABLE);
        #[cfg(feature = "error")]
        t.extend(formatting::owned::error::TABLE);
    }
    #[cfg(feature = "sval2")]
    {
        t.extend([formatting::sval::TABLE, sval::TABLE, sval::formatting::TABLE].concat());
        #[cfg(feature = "owned")]
        t.extend(sval::owned::table());
    }
    #[cfg(feature = "serde1")]
    {
        t.extend([serde::TABLE, serde::formatting::TABLE].concat());
        #[cfg(feature = "owned")]
        t.extend(serde::owned::table());
    }
    t
}
