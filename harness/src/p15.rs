//! P15: streaming through sval emits what was captured.

use crate::{ev::{self, Ev, Log, NEVER}, spec::*, src::*, st};
use std::mem::forget;
use value_bag::{
    fill::{Fill, Slot},
    Error, ValueBag,
};
use value_bag_sval2::{lib::{self, Value}, lib_ref};

/// The event for a value streamed on its own
fn event(v: Val, borrowed: bool, buf: &mut [u8; 4]) -> Ev {
    match v {
        Val::C(c) => ev::text(c.encode_utf8(buf), false),
        v => ev::of(v, borrowed),
    }
}
/// Emits exactly these events
fn emits(v: &impl Value, e: &[Ev]) {
    let mut l = Log::new(NEVER);
    assert!(lib::stream(&mut l, v).is_ok(), "streams");
    assert!(l.is(e), "the event that represents the value");
}
/// Emits what another value emits
fn like(v: &impl Value, o: &impl Value) {
    let (mut l, mut m) = (Log::new(NEVER), Log::new(NEVER));
    let (a, b) = (lib::stream(&mut l, v), lib::stream(&mut m, o));
    assert!(a.is_ok() == b.is_ok(), "streams when the captured value does");
    assert!(l.same(&m), "the stream of the captured value");
}
/// The same, as short-lived
fn like_computed(v: &impl Value, o: &impl Value) {
    let (mut l, mut m) = (Log::new(NEVER), Log::new(NEVER));
    let (a, b) = (lib::stream(&mut l, v), lib::stream_computed(&mut m, o));
    assert!(a.is_ok() == b.is_ok(), "streams when the captured value does");
    assert!(l.same(&m), "the stream of the captured value");
}
/// Fails exactly when the stream does, and doesn't go on
fn stops(v: &impl Value) {
    let mut l = Log::failing();
    let r = lib::stream(&mut l, v);
    assert!(r.is_ok() == !l.failed(), "reports failure");
    assert!(!l.after_failure, "stops at a failure");
}

fn set_<const K: u8>() {
    set::<K>();
    if K == CHAR { st::set_probe(4); }
}
macro_rules! each {
    ($n:literal $f:ident $($name:ident $k:ident,)+) => {
        cases! { $n; $($name { set_::<{ crate::src::$k }>(); $f::<{ crate::src::$k }>() })+ }
    };
    ($n:literal $f:ident) => {
        each! { $n $f none NONE, u64 U64, i64 I64, u128 U128, i128 I128, f64 F64, bool BOOL, char CHAR, str STR, str_empty STR_EMPTY, opaque OPAQUE, }
    };
}

pub mod primitive {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        emits(&b, &[event(val::<K>(), true, &mut [0; 4])]);
        stops(&b);
        forget(b);
    }
    each!(6 f);
}
/// By value, so that what it borrows outlives the value itself
pub mod by_value {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let mut l = Log::new(NEVER);
        assert!(lib_ref::stream_ref(&mut l, b).is_ok(), "streams");
        assert!(l.is(&[event(val::<K>(), true, &mut [0; 4])]), "the event that represents the value");
    }
    each!(6 f);
}
pub mod computed {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let mut l = Log::new(NEVER);
        assert!(lib::stream_computed(&mut l, &b).is_ok(), "streams");
        assert!(l.is(&[event(val::<K>(), false, &mut [0; 4])]), "short-lived text");
        forget(b);
    }
    each! { 6 f u64 U64, str STR, str_empty STR_EMPTY, char CHAR, }
}
pub mod by_ref {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let c = b.by_ref();
        emits(&c, &[event(val::<K>(), true, &mut [0; 4])]);
        forget((c, b.clone()));
        forget(b);
    }
    each! { 6 f i64 I64, str STR, opaque OPAQUE, none NONE, }
}
pub mod filled {
    use super::*;
    fn f<const K: u8>() {
        let b = ValueBag::from_fill(&Src::<K>);
        emits(&b, &[event(val::<K>(), true, &mut [0; 4])]);
        stops(&b);
        forget(b);
    }
    each!(6 f);
}
/// Only formattable
pub mod formatted {
    use super::*;
    struct Dbg;
    impl Fill for Dbg { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_debug(Src::<OPAQUE>) } }
    struct Dsp;
    impl Fill for Dsp { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_display(Src::<OPAQUE>) } }
    fn f(b: ValueBag, s: &str) {
        emits(&b, &[ev::text(s, false)]);
        stops(&b);
        forget(b);
    }
    cases! { 6;
        debug { st::set_text(4); f(ValueBag::from_debug(&Src::<OPAQUE>), st::text(0, 3)) }
        display { st::set_text(4); f(ValueBag::from_display(&Src::<OPAQUE>), st::text(8, 4)) }
        captured_debug { st::set_text(4); f(ValueBag::capture_debug(&Src::<OPAQUE>), st::text(0, 3)) }
        captured_display { st::set_text(4); f(ValueBag::capture_display(&Src::<OPAQUE>), st::text(8, 4)) }
        filled_debug { st::set_text(4); f(ValueBag::from_fill(&Dbg), st::text(0, 3)) }
        filled_display { st::set_text(4); f(ValueBag::from_fill(&Dsp), st::text(8, 4)) }
    }
}
#[cfg(feature = "error")]
pub mod error {
    use super::*;
    struct Err_;
    impl Fill for Err_ { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_error(Src::<OPAQUE>) } }
    fn f(b: ValueBag) {
        emits(&b, &[ev::text(st::text(8, 4), false)]);
        stops(&b);
        forget(b);
    }
    cases! { 6;
        captured { st::set_text(4); f(ValueBag::capture_error(&Src::<OPAQUE>)) }
        erased { st::set_text(4); f(ValueBag::from_dyn_error(&Src::<OPAQUE>)) }
        filled { st::set_text(4); f(ValueBag::from_fill(&Err_)) }
    }
}

macro_rules! streams {
    ($n:literal $f:ident) => {
        each! { $n $f
            none NONE, u8 U8, u16 U16, u32 U32, u64 U64, u128 U128, i8 I8, i16 I16, i32 I32, i64 I64, i128 I128, f32 F32, f64 F64, bool BOOL,
            str STR, str_empty STR_EMPTY, str_computed STR_COMPUTED, str_two STR_TWO, str_mixed STR_MIXED,
            seq SEQ, map MAP, tagged TAGGED, fail FAIL, fail_midway FAIL_MIDWAY, fail_after FAIL_AFTER, }
    };
}
/// A value captured with its own stream
pub mod sval {
    use super::*;
    fn f<const K: u8>() where Src<K>: Value + Send + Sync + 'static {
        let b = ValueBag::from_sval2(&Src::<K>);
        like(&b, &Src::<K>);
        if !matches!(K, FAIL | FAIL_MIDWAY | FAIL_AFTER) { stops(&b); }
        forget(b);
    }
    streams!(10 f);
    pub mod captured {
        use super::*;
        fn f<const K: u8>() where Src<K>: Value + Send + Sync + 'static {
            let b = ValueBag::capture_sval2(&Src::<K>);
            like(&b, &Src::<K>);
            forget(b);
        }
        each! { 10 f u64 U64, u16 U16, str STR, seq SEQ, map MAP, fail FAIL, }
    }
    pub mod erased {
        use super::*;
        fn f<const K: u8>() where Src<K>: Value + Send + Sync + 'static {
            let b = ValueBag::from_dyn_sval2(&Src::<K>);
            like(&b, &Src::<K>);
            forget(b);
        }
        each! { 10 f i64 I64, str STR, seq SEQ, fail FAIL, }
    }
    pub mod filled {
        use super::*;
        struct F<const K: u8>;
        impl<const K: u8> Fill for F<K> where Src<K>: Value + Send + Sync + 'static { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_sval2(Src::<K>) } }
        fn f<const K: u8>() where Src<K>: Value + Send + Sync + 'static {
            let b = ValueBag::from_fill(&F::<K>);
            like_computed(&b, &Src::<K>);
            forget(b);
        }
        each! { 10 f u64 U64, i8 I8, str STR, seq SEQ, fail FAIL, }
    }
}
#[cfg(feature = "owned")]
pub mod shared {
    use super::*;
    fn f<const K: u8>() where Src<K>: Value + Send + Sync + 'static {
        let b = ValueBag::capture_shared_sval2(Src::<K>);
        like_computed(&b, &Src::<K>);
        forget(b);
    }
    each! { 10 f u16 U16, i64 I64, str STR, seq SEQ, map MAP, fail FAIL, }
    pub mod formatted {
        use super::*;
        cases! { 6;
            debug { st::set_text(4); let b = ValueBag::capture_shared_debug(Src::<OPAQUE>); emits(&b, &[ev::text(st::text(0, 3), false)]); stops(&b); forget(b) }
            display { st::set_text(4); let b = ValueBag::capture_shared_display(Src::<OPAQUE>); emits(&b, &[ev::text(st::text(8, 4), false)]); forget(b) }
        }
    }
}
/// An owned copy streams what it holds
#[cfg(feature = "owned")]
pub mod owned {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let o = b.to_owned();
        let e = match val::<K>() {
            Val::U(v) => Val::BU(v as u128),
            Val::I(v) => Val::BI(v as i128),
            v => v,
        };
        emits(&o, &[event(e, true, &mut [0; 4])]);
        forget(o);
        forget(b);
    }
    each! { 6 f none NONE, u64 U64, i64 I64, u128 U128, i128 I128, f64 F64, bool BOOL, char CHAR, str STR, }
}
/// Captured through the other framework
#[cfg(feature = "serde1")]
pub mod serde {
    use super::*;
    fn f<const K: u8>() where Src<K>: value_bag_serde1::lib::Serialize {
        let b = ValueBag::from_serde1(&Src::<K>);
        emits(&b, &[match K {
            U8 => Ev(ev::U8, st::u64() as u8 as u128),
            U16 => Ev(ev::U16, st::u64() as u16 as u128),
            I32 => Ev(ev::I32, st::i64() as i32 as i128 as u128),
            _ => event(val::<K>(), false, &mut [0; 4]),
        }]);
        stops(&b);
        forget(b);
    }
    each! { 10 f u64 U64, u8 U8, u16 U16, i32 I32, i64 I64, u128 U128, f64 F64, bool BOOL, char CHAR, str STR, }
    fn failing<const K: u8>() where Src<K>: value_bag_serde1::lib::Serialize {
        let b = ValueBag::from_serde1(&Src::<K>);
        let mut l = Log::new(NEVER);
        assert!(lib::stream(&mut l, &b).is_err(), "reports failure");
        forget(b);
    }
    pub mod other {
        use super::*;
        triples! {
            10 fail { failing::<FAIL>() }
        }
    }
}
#[cfg(feature = "seq")]
pub mod seq {
    use super::*;
    /// An element
    #[derive(Clone, Copy)]
    pub struct El<const K: u8>;
    impl<'v, const K: u8> From<&'v El<K>> for ValueBag<'v> {
        fn from(_: &'v El<K>) -> Self { bag(val::<K>()) }
    }
    fn f<const K: u8>(borrowed: bool, b: ValueBag) {
        let e = event(val::<K>(), borrowed, &mut [0; 4]);
        emits(&b, &[Ev(ev::SEQ, 0), Ev(ev::EL, 0), e, Ev(ev::EL_END, 0), Ev(ev::EL, 0), e, Ev(ev::EL_END, 0), Ev(ev::SEQ_END, 0)]);
        forget(b);
    }
    fn g<const K: u8>() { f::<K>(true, ValueBag::from_seq_slice::<_, El<K>>(&[El::<K>; 2])) }
    each! { 10 g none NONE, u64 U64, i64 I64, f64 F64, bool BOOL, char CHAR, str STR, opaque OPAQUE, }
    /// Elements of an element that is a sequence
    struct Inner;
    impl<'v> From<&'v Inner> for ValueBag<'v> {
        fn from(_: &'v Inner) -> Self { ValueBag::from_seq_slice::<_, El<U64>>(&[El::<U64>; 1]) }
    }
    struct F<const K: u8>;
    impl<const K: u8> Fill for F<K> { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_seq_slice::<_, El<K>>(&[El::<K>; 2]) } }
    pub mod others {
        use super::*;
        cases! { 10;
            empty { let a: [El<U64>; 0] = []; let b = ValueBag::from_seq_slice::<_, El<U64>>(&a); emits(&b, &[Ev(ev::SEQ, 0), Ev(ev::SEQ_END, 0)]); stops(&b); forget(b) }
            filled { set::<STR>(); f::<STR>(false, ValueBag::from_fill(&F::<STR>)) }
            filled_u64 { set::<U64>(); f::<U64>(false, ValueBag::from_fill(&F::<U64>)) }
            stops_u64 { set::<U64>(); let b = ValueBag::from_seq_slice::<_, El<U64>>(&[El::<U64>; 2]); stops(&b); forget(b) }
            stops_str { set::<STR>(); let b = ValueBag::from_seq_slice::<_, El<STR>>(&[El::<STR>; 2]); stops(&b); forget(b) }
            stops_filled { set::<U64>(); let b = ValueBag::from_fill(&F::<U64>); stops(&b); forget(b) }
        }
    }
    pub mod nesting {
        use super::*;
        triples! {
            4 nested {
                set::<U64>();
                let b = ValueBag::from_seq_slice::<_, Inner>(&[Inner]);
                let mut l = Log::new(NEVER);
                let u = ev::of(val::<U64>(), true);
                assert!(lib::stream(&mut l, &b).is_ok(), "completes");
                let e = [(ev::SEQ, 0), (ev::EL, 0), (ev::SEQ, 0), (ev::EL, 0), (u.0, u.1), (ev::EL_END, 0), (ev::SEQ_END, 0), (ev::EL_END, 0), (ev::SEQ_END, 0)];
                assert!(l.n == 9, "an inner sequence");
                assert!(l.at(0) == e[0] && l.at(1) == e[1] && l.at(2) == e[2] && l.at(3) == e[3] && l.at(4) == e[4] && l.at(5) == e[5] && l.at(6) == e[6] && l.at(7) == e[7] && l.at(8) == e[8], "an inner sequence");
                forget(b)
            }
            4 stops_nested { set::<U64>(); let b = ValueBag::from_seq_slice::<_, Inner>(&[Inner]); stops(&b); forget(b) }
        }
    }
    #[cfg(feature = "owned")]
    pub mod shared {
        use super::*;
        cases! { 10;
            str { set::<STR>(); f::<STR>(false, ValueBag::capture_shared_seq_slice::<_, El<STR>>([El::<STR>; 2])) }
            u64 { set::<U64>(); f::<U64>(false, ValueBag::capture_shared_seq_slice::<_, El<U64>>([El::<U64>; 2])) }
        }
    }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut t = [primitive::TABLE, by_value::TABLE, computed::TABLE, by_ref::TABLE, filled::TABLE, formatted::TABLE,
        sval::TABLE, sval::captured::TABLE, sval::erased::TABLE, sval::filled::TABLE].concat();
    #[cfg(feature = "error")]
    t.extend(error::TABLE);
    #[cfg(feature = "owned")]
    t.extend([shared::TABLE, shared::formatted::TABLE, owned::TABLE].concat());
    #[cfg(feature = "serde1")]
    t.extend([serde::TABLE, serde::other::TABLE].concat());
    #[cfg(feature = "seq")]
    t.extend([seq::TABLE, seq::others::TABLE, seq::nesting::TABLE].concat());
    #[cfg(all(feature = "seq", feature = "owned"))]
    t.extend(seq::shared::TABLE);
    t
}
