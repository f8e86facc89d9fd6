//! P21: inspection tokens name the captured kind and value.

use crate::{nd, spec::*, src::*, st};
use std::mem::forget;
use value_bag::{test::TestToken, ValueBag};

fn is_text(t: &TestToken, e: &str) -> bool {
    match t {
        TestToken::Str(s) => equal_text(s, e),
        _ => false,
    }
}
/// Whether a token names the kind and carries the value
fn names(t: &TestToken, v: Val) -> bool {
    match (t, v) {
        (TestToken::None, Val::None) => true,
        (TestToken::U64(a), Val::U(b)) => *a == b,
        (TestToken::I64(a), Val::I(b)) => *a == b,
        (TestToken::U128(a), Val::BU(b)) => *a == b,
        (TestToken::I128(a), Val::BI(b)) => *a == b,
        (TestToken::F64(a), Val::F(b)) => same_f64(*a, b),
        (TestToken::Bool(a), Val::B(b)) => *a == b,
        (TestToken::Char(a), Val::C(b)) => *a == b,
        (t, Val::S(s)) => is_text(t, s),
        (t, Val::Opaque) => is_text(t, st::text(0, 3)),
        _ => false,
    }
}
fn check(b: ValueBag, v: Val) {
    let t = b.to_test_token();
    assert!(names(&t, v), "the token names the kind and value captured");
    forget(t);
    forget(b);
}

pub mod direct {
    use super::*;
    fn f<const K: u8>() { check(bag(val::<K>()), val::<K>()) }
    per_src!(7 f);
}
pub mod filled {
    use super::*;
    fn f<const K: u8>() { check(ValueBag::from_fill(&Src::<K>), val::<K>()) }
    per_src!(7 f);
}
/// Each standard type, through its conversion
pub mod converted {
    use super::*;
    macro_rules! each {
        ($($t:ident $v:ident $c:ty;)*) => {
            cases! { 2;
                $($t { let x = nd::$t(); check(ValueBag::from(x), Val::$v(x as $c)) })*
                unit { check(ValueBag::from(()), Val::None) }
            }
        };
    }
    each! { u8 U u64; u16 U u64; u32 U u64; usize U u64; i8 I i64; i16 I i64; i32 I i64; isize I i64; f32 F f64; bool B bool; char C char; }
}
pub mod formatted {
    use super::*;
    fn f(b: ValueBag, e: &str) {
        let t = b.to_test_token();
        assert!(is_text(&t, e), "the text of the formatted value");
        forget(t);
        forget(b);
    }
    cases! { 6;
        debug { st::set_text(4); f(ValueBag::capture_debug(&Src::<OPAQUE>), st::text(0, 3)) }
        display { st::set_text(4); f(ValueBag::capture_display(&Src::<OPAQUE>), st::text(8, 4)) }
        from_debug { st::set_text(4); f(ValueBag::from_debug(&Src::<OPAQUE>), st::text(0, 3)) }
        from_display { st::set_text(4); f(ValueBag::from_display(&Src::<OPAQUE>), st::text(8, 4)) }
        dyn_debug { st::set_text(4); f(ValueBag::from_dyn_debug(&Src::<OPAQUE>), st::text(0, 3)) }
        dyn_display { st::set_text(4); f(ValueBag::from_dyn_display(&Src::<OPAQUE>), st::text(8, 4)) }
    }
}

/// Named, whatever they hold
macro_rules! named {
    ($(#[$c:meta] $m:ident $n:literal $p:pat, { $($name:ident $b:expr;)* })*) => { $(
        #[$c]
        pub mod $m {
            use super::*;
            fn is(b: &ValueBag) {
                let t = b.to_test_token();
                assert!(matches!(&t, $p), "named as what it is");
                forget(t);
            }
            fn f(b: ValueBag) {
                is(&b);
                let r = b.by_ref();
                is(&r);
                forget(r);
                forget(b);
            }
            cases! { $n; $($name { f($b) })* }
        }
    )* };
}
#[cfg(feature = "error")]
pub mod cause {
    use std::fmt;
    /// An error with a cause
    #[derive(Debug)]
    pub struct Caused;
    #[derive(Debug)]
    pub struct Cause;
    impl fmt::Display for Caused { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("caused") } }
    impl fmt::Display for Cause { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("cause") } }
    impl std::error::Error for Cause {}
    impl std::error::Error for Caused { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { Some(&Cause) } }
    pub struct Filler;
    impl value_bag::fill::Fill for Filler {
        fn fill(&self, s: value_bag::fill::Slot) -> Result<(), value_bag::Error> { s.fill_error(Caused) }
    }
}
named! {
    #[cfg(feature = "error")]
    error 8 TestToken::Error, {
        captured ValueBag::capture_error(&Src::<OPAQUE>);
        erased ValueBag::from_dyn_error(&Src::<OPAQUE>);
        caused ValueBag::capture_error(&super::cause::Caused);
        filled ValueBag::from_fill(&super::cause::Filler);
    }
    #[cfg(feature = "sval2")]
    sval 3 TestToken::Sval { version: 2 }, {
        sized ValueBag::from_sval2(&Src::<U64>);
        captured ValueBag::capture_sval2(&Src::<MAP>);
        erased ValueBag::from_dyn_sval2(&Src::<SEQ>);
        failing ValueBag::from_sval2(&Src::<FAIL>);
    }
    #[cfg(feature = "serde1")]
    serde 3 TestToken::Serde { version: 1 }, {
        sized ValueBag::from_serde1(&Src::<U64>);
        captured ValueBag::capture_serde1(&Src::<MAP>);
        failing ValueBag::from_serde1(&Src::<FAIL>);
    }
    #[cfg(feature = "seq")]
    seq 3 TestToken::Seq, {
        slice ValueBag::from_seq_slice::<[u64; 2], u64>(&[1, 2]);
        array ValueBag::from(&[true, false]);
        empty ValueBag::from(&[0u8; 0]);
    }
}
#[cfg(feature = "owned")]
pub mod shared {
    use super::*;
    named! {
        #[cfg(feature = "error")]
        error 3 TestToken::Error, {
            plain ValueBag::capture_shared_error(Src::<OPAQUE>);
            caused ValueBag::capture_shared_error(super::super::cause::Caused);
        }
        #[cfg(feature = "sval2")]
        sval 3 TestToken::Sval { version: 2 }, {
            number ValueBag::capture_shared_sval2(Src::<U64>);
            map ValueBag::capture_shared_sval2(Src::<MAP>);
        }
        #[cfg(feature = "serde1")]
        serde 3 TestToken::Serde { version: 1 }, {
            number ValueBag::capture_shared_serde1(Src::<U64>);
            map ValueBag::capture_shared_serde1(Src::<MAP>);
        }
        #[cfg(feature = "seq")]
        seq 3 TestToken::Seq, {
            array ValueBag::capture_shared_seq_slice::<_, u64>([1u64, 2]);
        }
    }
    pub mod formatted {
        use super::*;
        fn f(b: ValueBag, e: &str) {
            let r = b.by_ref();
            let t = r.to_test_token();
            assert!(is_text(&t, e), "the text of the formatted value");
            forget(t);
            forget(r);
            forget(b);
        }
        cases! { 6;
            debug { st::set_text(4); f(ValueBag::capture_shared_debug(Src::<OPAQUE>), st::text(0, 3)) }
            display { st::set_text(4); f(ValueBag::capture_shared_display(Src::<OPAQUE>), st::text(8, 4)) }
        }
    }
    #[cfg(not(kani))]
    pub fn table() -> Vec<(&'static str, fn())> {
        let mut t = formatted::TABLE.to_vec();
        #[cfg(feature = "error")]
        t.extend(error::TABLE);
        #[cfg(feature = "sval2")]
        t.extend(sval::TABLE);
        #[cfg(feature = "serde1")]
        t.extend(serde::TABLE);
        #[cfg(feature = "seq")]
        t.extend(seq::TABLE);
        t
    }
}
/// The owned copies
#[cfg(feature = "owned")]
pub mod owned {
    use super::*;
    /// Integers are kept at full width
    fn kept(v: Val) -> Val {
        match v {
            Val::U(v) => Val::BU(v as u128),
            Val::I(v) => Val::BI(v as i128),
            v => v,
        }
    }
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let o = b.to_owned();
        check(o.by_ref(), kept(val::<K>()));
        forget(o);
        forget(b);
    }
    per_src!(7 f);
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    #[allow(unused_mut)]
    let mut t = [direct::TABLE, filled::TABLE, converted::TABLE, formatted::TABLE].concat();
    #[cfg(feature = "error")]
    t.extend(error::TABLE);
    #[cfg(feature = "sval2")]
    t.extend(sval::TABLE);
    #[cfg(feature = "serde1")]
    t.extend(serde::TABLE);
    #[cfg(feature = "seq")]
    t.extend(seq::TABLE);
    #[cfg(feature = "owned")]
    {
        t.extend(shared::table());
        t.extend(owned::TABLE);
    }
    t
}
