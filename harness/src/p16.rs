//! P16: serializing through serde produces what was captured.

use crate::{ev::{self, serde::Ser, Ev, Log, NEVER}, spec::*, src::{set, val, Src, BOOL, CHAR, F64, I128, I64, NONE, OPAQUE, STR, STR_EMPTY, U128, U64}, st};
use std::mem::forget;
use value_bag::{
    fill::{Fill, Slot},
    Error, ValueBag,
};
use value_bag_serde1::lib::{ser::{Error as _, SerializeMap as _, SerializeSeq as _, SerializeTuple as _}, Serialize, Serializer};

/// Produces exactly these events, and the serializer's answer
fn emits(v: &impl Serialize, e: &[Ev]) {
    let mut l = Log::new(NEVER);
    let r = v.serialize(Ser(&mut l));
    assert!(matches!(r, Ok(n) if n == e.len()), "the answer of the serializer");
    assert!(l.is(e), "the call that represents the value");
}
/// Produces what another value does
fn like(v: &impl Serialize, o: &impl Serialize) {
    let (mut l, mut m) = (Log::new(NEVER), Log::new(NEVER));
    let (a, b) = (v.serialize(Ser(&mut l)), o.serialize(Ser(&mut m)));
    assert!(match (a, b) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false }, "the answer for the captured value");
    assert!(l.same(&m), "the calls the captured value makes");
}
/// Fails exactly when the serializer does, and doesn't go on
fn stops(v: &impl Serialize) {
    let mut l = Log::failing();
    let r = v.serialize(Ser(&mut l));
    assert!(r.is_ok() == !l.failed(), "reports failure");
    assert!(!l.after_failure, "stops at a failure");
}
macro_rules! each {
    ($n:literal $f:ident $($name:ident $k:ident,)+) => {
        cases! { $n; $($name { set::<{ crate::src::$k }>(); $f::<{ crate::src::$k }>() })+ }
    };
    ($n:literal $f:ident) => {
        each! { $n $f none NONE, u64 U64, i64 I64, u128 U128, i128 I128, f64 F64, bool BOOL, char CHAR, str STR, str_empty STR_EMPTY, opaque OPAQUE, }
    };
}

pub mod primitive {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        emits(&b, &[ev::of(val::<K>(), false)]);
        stops(&b);
        forget(b);
    }
    each!(6 f);
}
pub mod by_ref {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let c = b.by_ref();
        emits(&c, &[ev::of(val::<K>(), false)]);
        forget((c, b.clone()));
        forget(b);
    }
    each! { 6 f i64 I64, str STR, opaque OPAQUE, none NONE, }
}
pub mod filled {
    use super::*;
    fn f<const K: u8>() {
        let b = ValueBag::from_fill(&Src::<K>);
        emits(&b, &[ev::of(val::<K>(), false)]);
        stops(&b);
        forget(b);
    }
    each!(6 f);
}
/// Only formattable
pub mod formatted {
    use super::*;
    struct Dbg;
    impl Fill for Dbg { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_debug(Src::<OPAQUE>) } }
    struct Dsp;
    impl Fill for Dsp { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_display(Src::<OPAQUE>) } }
    fn f(b: ValueBag, s: &str) {
        emits(&b, &[ev::text(s, false)]);
        stops(&b);
        forget(b);
    }
    cases! { 6;
        debug { st::set_text(4); f(ValueBag::from_debug(&Src::<OPAQUE>), st::text(0, 3)) }
        display { st::set_text(4); f(ValueBag::from_display(&Src::<OPAQUE>), st::text(8, 4)) }
        captured_debug { st::set_text(4); f(ValueBag::capture_debug(&Src::<OPAQUE>), st::text(0, 3)) }
        captured_display { st::set_text(4); f(ValueBag::capture_display(&Src::<OPAQUE>), st::text(8, 4)) }
        filled_debug { st::set_text(4); f(ValueBag::from_fill(&Dbg), st::text(0, 3)) }
        filled_display { st::set_text(4); f(ValueBag::from_fill(&Dsp), st::text(8, 4)) }
    }
}
#[cfg(feature = "error")]
pub mod error {
    use super::*;
    struct Err_;
    impl Fill for Err_ { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_error(Src::<OPAQUE>) } }
    fn f(b: ValueBag) {
        emits(&b, &[ev::text(st::text(8, 4), false)]);
        stops(&b);
        forget(b);
    }
    cases! { 6;
        captured { st::set_text(4); f(ValueBag::capture_error(&Src::<OPAQUE>)) }
        erased { st::set_text(4); f(ValueBag::from_dyn_error(&Src::<OPAQUE>)) }
        filled { st::set_text(4); f(ValueBag::from_fill(&Err_)) }
    }
}


/// Values for every kind of call
pub mod calls {
    use super::*;
    macro_rules! values {
        ($($t:ident |$s:ident| $e:expr;)+) => {
            $(#[derive(Clone, Copy)]
            pub struct $t;
            impl Serialize for $t {
                fn serialize<S: Serializer>(&self, $s: S) -> Result<S::Ok, S::Error> { $e }
            })+
        };
    }
    values! {
        None_ |s| s.serialize_none();
        Unit |s| s.serialize_unit();
        Some_ |s| s.serialize_some(&U64_);
        Bool |s| s.serialize_bool(st::bool());
        U8 |s| s.serialize_u8(st::u64() as u8);
        U16 |s| s.serialize_u16(st::u64() as u16);
        U32 |s| s.serialize_u32(st::u64() as u32);
        U64_ |s| s.serialize_u64(st::u64());
        U128_ |s| s.serialize_u128(st::u128());
        I8 |s| s.serialize_i8(st::i64() as i8);
        I16 |s| s.serialize_i16(st::i64() as i16);
        I32 |s| s.serialize_i32(st::i64() as i32);
        I64_ |s| s.serialize_i64(st::i64());
        I128_ |s| s.serialize_i128(st::i128());
        F32 |s| s.serialize_f32(f32::from_bits(st::u64() as u32));
        F64_ |s| s.serialize_f64(st::f64());
        Char |s| s.serialize_char(st::char());
        Str |s| s.serialize_str(st::text(0, 5));
        Formatted_ |s| s.collect_str(&Src::<OPAQUE>);
        Seq |s| { let mut q = s.serialize_seq(Some(2))?; q.serialize_element(&U64_)?; q.serialize_element(&U64_)?; q.end() };
        Tuple |s| { let mut q = s.serialize_tuple(1)?; q.serialize_element(&U64_)?; q.end() };
        Map |s| { let mut q = s.serialize_map(Some(1))?; q.serialize_key(&U64_)?; q.serialize_value(&Bool)?; q.end() };
        Fail |s| { let _ = s; Err(S::Error::custom("failed by the value")) };
        FailMidway |s| { let mut q = s.serialize_seq(Some(2))?; q.serialize_element(&U64_)?; Err(S::Error::custom("failed by the value")) };
    }
}
macro_rules! all {
    ($n:literal $f:ident $($name:ident $t:ident,)+) => {
        cases! { $n; $($name { pick(); $f(&calls::$t) })+ }
    };
    ($n:literal $f:ident) => {
        all! { $n $f none None_, unit Unit, some Some_, bool Bool, u8 U8, u16 U16, u32 U32, u64 U64_, u128 U128_, i8 I8, i16 I16, i32 I32, i64 I64_, i128 I128_,
            f32 F32, f64 F64_, char Char, str Str, }
    };
}
fn pick() { st::set_u64(); st::set_i64(); st::set_u128(); st::set_i128(); st::set_f64(); st::set_bool(); st::set_char(); st::set_text(5); }

/// A value captured with its own serialization
pub mod serde {
    use super::*;
    fn f<T: Serialize + 'static>(v: &T) {
        let b = ValueBag::from_serde1(v);
        like(&b, v);
        stops(&b);
        forget(b);
    }
    fn g<T: Serialize + 'static>(v: &T) {
        let b = ValueBag::from_serde1(v);
        like(&b, v);
        forget(b);
    }
    all!(8 f);
    pub mod structured {
        use super::*;
        all! { 9 g formatted Formatted_, seq Seq, tuple Tuple, map Map, fail Fail, fail_midway FailMidway, }
    }
    pub mod structured_stops {
        use super::*;
        fn h<T: Serialize + 'static>(v: &T) { let b = ValueBag::from_serde1(v); stops(&b); forget(b); }
        all! { 9 h seq Seq, tuple Tuple, map Map, }
    }
    pub mod captured {
        use super::*;
        fn g<T: Serialize + 'static>(v: &T) { let b = ValueBag::capture_serde1(v); like(&b, v); forget(b); }
        all! { 9 g u64 U64_, i16 I16, str Str, seq Seq, fail Fail, }
    }
    pub mod filled {
        use super::*;
        struct F<T>(T);
        impl<T: Serialize> Fill for F<T> { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_serde1(&self.0) } }
        fn g<T: Serialize + Copy + 'static>(v: &T) { let f = F(*v); let b = ValueBag::from_fill(&f); like(&b, v); forget(b); }
        all! { 9 g u64 U64_, i8 I8, str Str, seq Seq, fail Fail, }
    }
}
#[cfg(feature = "owned")]
pub mod shared {
    use super::*;
    fn g<T: Serialize + Copy + Send + Sync + 'static>(v: &T) { let b = ValueBag::capture_shared_serde1(*v); like(&b, v); forget(b); }
    all! { 9 g u16 U16, i64 I64_, str Str, seq Seq, fail Fail, }
    pub mod formatted {
        use super::*;
        cases! { 6;
            debug { st::set_text(4); let b = ValueBag::capture_shared_debug(Src::<OPAQUE>); emits(&b, &[ev::text(st::text(0, 3), false)]); stops(&b); forget(b) }
            display { st::set_text(4); let b = ValueBag::capture_shared_display(Src::<OPAQUE>); emits(&b, &[ev::text(st::text(8, 4), false)]); forget(b) }
        }
    }
}
/// An owned copy serializes what it holds
#[cfg(feature = "owned")]
pub mod owned {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let o = b.to_owned();
        let e = match val::<K>() {
            Val::U(v) => Val::BU(v as u128),
            Val::I(v) => Val::BI(v as i128),
            v => v,
        };
        emits(&o, &[ev::of(e, false)]);
        forget(o);
        forget(b);
    }
    each! { 6 f none NONE, u64 U64, i64 I64, u128 U128, i128 I128, f64 F64, bool BOOL, char CHAR, str STR, }
}
/// Captured through the other framework
#[cfg(feature = "sval2")]
pub mod sval {
    use super::*;
    fn f<const K: u8>() where Src<K>: value_bag_sval2::lib::Value {
        let b = ValueBag::from_sval2(&Src::<K>);
        emits(&b, &[match K {
            crate::src::U16 => Ev(ev::U16, st::u64() as u16 as u128),
            crate::src::I8 => Ev(ev::I8, st::i64() as i8 as i128 as u128),
            _ => ev::of(val::<K>(), false),
        }]);
        stops(&b);
        forget(b);
    }
    macro_rules! cases {
        ($n:literal; $($name:ident $b:block)*) => {
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($n))]
            #[cfg_attr(kani, kani::stub(std::any::TypeId::of, crate::stubs::type_id_of))]
            #[cfg_attr(kani, kani::stub(std::any::TypeId::eq, crate::stubs::type_id_eq))]
            #[cfg_attr(kani, kani::stub(std::fmt::Arguments::as_str, crate::stubs::arguments_as_str))]
            #[cfg_attr(kani, kani::stub(value_bag_sval2::serde1::serialize, crate::stubs::sval_serialize))]
            pub fn any() { pick_case!($($name $b)*) }
            #[cfg(not(kani))]
            pub const TABLE: crate::Table = &[(concat!(module_path!(), "::any"), any)];
        };
    }
    fn failing<const K: u8>() where Src<K>: value_bag_sval2::lib::Value {
        let b = ValueBag::from_sval2(&Src::<K>);
        let mut l = Log::new(NEVER);
        assert!(b.serialize(Ser(&mut l)).is_err(), "reports failure");
        forget(b);
    }
    pub mod other {
        use super::*;
        cases! { 10; fail { failing::<{ crate::src::FAIL }>() } }
    }
    each! { 10 f none NONE, u64 U64, u16 U16, i8 I8, i64 I64, u128 U128, i128 I128, f64 F64, bool BOOL, str STR, }
}
#[cfg(feature = "seq")]
pub mod seq {
    use super::*;
    /// An element
    #[derive(Clone, Copy)]
    pub struct El<const K: u8>;
    impl<'v, const K: u8> From<&'v El<K>> for ValueBag<'v> {
        fn from(_: &'v El<K>) -> Self { bag(val::<K>()) }
    }
    fn f<const K: u8>(b: ValueBag) {
        let e = ev::of(val::<K>(), false);
        emits(&b, &[Ev(ev::SEQ, 0), Ev(ev::EL, 0), e, Ev(ev::EL, 0), e, Ev(ev::SEQ_END, 0)]);
        forget(b);
    }
    fn g<const K: u8>() { f::<K>(ValueBag::from_seq_slice::<_, El<K>>(&[El::<K>; 2])) }
    each! { 10 g none NONE, u64 U64, i64 I64, f64 F64, bool BOOL, char CHAR, str STR, opaque OPAQUE, }
    /// Elements of an element that is a sequence
    struct Inner;
    impl<'v> From<&'v Inner> for ValueBag<'v> {
        fn from(_: &'v Inner) -> Self { ValueBag::from_seq_slice::<_, El<U64>>(&[El::<U64>; 1]) }
    }
    struct F<const K: u8>;
    impl<const K: u8> Fill for F<K> { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_seq_slice::<_, El<K>>(&[El::<K>; 2]) } }
    pub mod others {
        use super::*;
        cases! { 10;
            empty { let a: [El<U64>; 0] = []; let b = ValueBag::from_seq_slice::<_, El<U64>>(&a); emits(&b, &[Ev(ev::SEQ, 0), Ev(ev::SEQ_END, 0)]); stops(&b); forget(b) }
            filled { set::<STR>(); f::<STR>(ValueBag::from_fill(&F::<STR>)) }
            filled_u64 { set::<U64>(); f::<U64>(ValueBag::from_fill(&F::<U64>)) }
            stops_u64 { set::<U64>(); let b = ValueBag::from_seq_slice::<_, El<U64>>(&[El::<U64>; 2]); stops(&b); forget(b) }
            stops_str { set::<STR>(); let b = ValueBag::from_seq_slice::<_, El<STR>>(&[El::<STR>; 2]); stops(&b); forget(b) }
            stops_filled { set::<U64>(); let b = ValueBag::from_fill(&F::<U64>); stops(&b); forget(b) }
        }
    }
    pub mod nesting {
        use super::*;
        triples! {
            4 nested {
                set::<U64>();
                let b = ValueBag::from_seq_slice::<_, Inner>(&[Inner]);
                let mut l = Log::new(NEVER);
                let u = ev::of(val::<U64>(), false);
                assert!(b.serialize(Ser(&mut l)).is_ok(), "completes");
                let e = [(ev::SEQ, 0), (ev::EL, 0), (ev::SEQ, 0), (ev::EL, 0), (u.0, u.1), (ev::SEQ_END, 0), (ev::SEQ_END, 0)];
                assert!(l.n == 7, "an inner sequence");
                assert!(l.at(0) == e[0] && l.at(1) == e[1] && l.at(2) == e[2] && l.at(3) == e[3] && l.at(4) == e[4] && l.at(5) == e[5] && l.at(6) == e[6], "an inner sequence");
                forget(b)
            }
            4 stops_nested { set::<U64>(); let b = ValueBag::from_seq_slice::<_, Inner>(&[Inner]); stops(&b); forget(b) }
        }
    }
    #[cfg(feature = "owned")]
    pub mod shared {
        use super::*;
        cases! { 10;
            str { set::<STR>(); f::<STR>(ValueBag::capture_shared_seq_slice::<_, El<STR>>([El::<STR>; 2])) }
            u64 { set::<U64>(); f::<U64>(ValueBag::capture_shared_seq_slice::<_, El<U64>>([El::<U64>; 2])) }
        }
    }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut t = [primitive::TABLE, by_ref::TABLE, filled::TABLE, formatted::TABLE,
        serde::TABLE, serde::structured::TABLE, serde::structured_stops::TABLE, serde::captured::TABLE, serde::filled::TABLE].concat();
    #[cfg(feature = "error")]
    t.extend(error::TABLE);
    #[cfg(feature = "owned")]
    t.extend([shared::TABLE, shared::formatted::TABLE, owned::TABLE].concat());
    #[cfg(feature = "sval2")]
    t.extend([sval::TABLE, sval::other::TABLE].concat());
    #[cfg(feature = "seq")]
    t.extend([seq::TABLE, seq::others::TABLE, seq::nesting::TABLE].concat());
    #[cfg(all(feature = "seq", feature = "owned"))]
    t.extend(seq::shared::TABLE);
    t
}
