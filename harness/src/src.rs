//! Zero-sized objects that stand for one captured value, in every way a value can be supplied.

use crate::{
    spec::{bag, Val},
    st,
};
use std::fmt;
use value_bag::{
    fill::{Fill, Slot},
    Error,
};

/// The object for kind `K`
#[derive(Clone, Copy)]
pub struct Src<const K: u8>;

pub const NONE: u8 = 0;
pub const U64: u8 = 1;
pub const I64: u8 = 2;
pub const U128: u8 = 3;
pub const I128: u8 = 4;
pub const F64: u8 = 5;
pub const BOOL: u8 = 6;
pub const CHAR: u8 = 7;
pub const STR: u8 = 8;
pub const STR_EMPTY: u8 = 9;
pub const OPAQUE: u8 = 10;
// Framework events only
pub const U8: u8 = 11;
pub const U16: u8 = 12;
pub const U32: u8 = 13;
pub const I8: u8 = 14;
pub const I16: u8 = 15;
pub const I32: u8 = 16;
pub const F32: u8 = 17;
pub const STR_COMPUTED: u8 = 18;
pub const STR_TWO: u8 = 19;
pub const STR_TWO_COMPUTED: u8 = 20;
pub const STR_MIXED: u8 = 21;
pub const FAIL: u8 = 22;
pub const FAIL_MIDWAY: u8 = 23;
pub const SEQ: u8 = 24;
pub const MAP: u8 = 25;
pub const TAGGED: u8 = 26;
pub const SOME: u8 = 27;
pub const UNIT: u8 = 28;
pub const FAIL_AFTER: u8 = 29;
pub const STR_MIXED_BACK: u8 = 30;

/// The captured value
pub fn val<const K: u8>() -> Val {
    match K {
        NONE | UNIT => Val::None,
        U64 | TAGGED | SOME => Val::U(st::u64()),
        I64 => Val::I(st::i64()),
        U128 => Val::BU(st::u128()),
        I128 => Val::BI(st::i128()),
        F64 => Val::F(st::f64()),
        BOOL => Val::B(st::bool()),
        CHAR => Val::C(st::char()),
        STR | STR_COMPUTED | STR_TWO | STR_TWO_COMPUTED | STR_MIXED | STR_MIXED_BACK => Val::S(st::text(0, 5)),
        STR_EMPTY => Val::S(st::text(3, 0)),
        U8 => Val::U(st::u64() as u8 as u64),
        U16 => Val::U(st::u64() as u16 as u64),
        U32 => Val::U(st::u64() as u32 as u64),
        I8 => Val::I(st::i64() as i8 as i64),
        I16 => Val::I(st::i64() as i16 as i64),
        I32 => Val::I(st::i64() as i32 as i64),
        F32 => Val::F(f32::from_bits(st::u64() as u32) as f64),
        _ => Val::Opaque,
    }
}

/// Pick arbitrary values
pub fn set<const K: u8>() {
    match K {
        U64 | U8 | U16 | U32 | F32 | TAGGED | SOME | FAIL_AFTER => { st::set_u64(); }
        SEQ | MAP => st::set_u64s(),
        I64 | I8 | I16 | I32 => { st::set_i64(); }
        U128 => { st::set_u128(); }
        I128 => { st::set_i128(); }
        F64 => { st::set_f64(); }
        BOOL => { st::set_bool(); }
        CHAR => { st::set_char(); }
        STR | STR_COMPUTED | STR_TWO | STR_TWO_COMPUTED | STR_MIXED | STR_MIXED_BACK | STR_EMPTY | FAIL_MIDWAY => st::set_text(5),
        OPAQUE => st::set_text(4),
        _ => (),
    }
}

impl<const K: u8> Fill for Src<K> {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        if K == FAIL { return Err(Error::msg("failed by the filler")); }
        slot.fill_any(bag(val::<K>()))
    }
}

impl<const K: u8> fmt::Debug for Src<K> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(st::text(0, 3)) }
}
impl<const K: u8> fmt::Display for Src<K> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(st::text(8, 4)) }
}
impl<const K: u8> std::error::Error for Src<K> {}

// One small impl for each kind, so that a harness only holds the code of the kinds it uses
#[cfg(feature = "sval2")]
mod sval {
    use super::*;
    use value_bag_sval2::lib::{self, Stream, Value};
    macro_rules! values {
        ($($k:ident |$s:ident| $e:expr;)+) => {$(
            impl Value for Src<$k> {
                fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, $s: &mut S) -> lib::Result { $e }
            }
        )+};
    }
    values! {
        NONE |s| s.null();
        U64 |s| s.u64(st::u64());
        I64 |s| s.i64(st::i64());
        U128 |s| s.u128(st::u128());
        I128 |s| s.i128(st::i128());
        F64 |s| s.f64(st::f64());
        BOOL |s| s.bool(st::bool());
        U8 |s| s.u8(st::u64() as u8);
        U16 |s| s.u16(st::u64() as u16);
        U32 |s| s.u32(st::u64() as u32);
        I8 |s| s.i8(st::i64() as i8);
        I16 |s| s.i16(st::i64() as i16);
        I32 |s| s.i32(st::i64() as i32);
        F32 |s| s.f32(f32::from_bits(st::u64() as u32));
        STR |s| { s.text_begin(Some(5))?; s.text_fragment(st::text(0, 5))?; s.text_end() };
        STR_EMPTY |s| { s.text_begin(Some(0))?; s.text_fragment(st::text(3, 0))?; s.text_end() };
        STR_COMPUTED |s| { s.text_begin(None)?; s.text_fragment_computed(st::text(0, 5))?; s.text_end() };
        STR_TWO |s| { s.text_begin(None)?; s.text_fragment(st::text(0, 2))?; s.text_fragment(st::text(2, 3))?; s.text_end() };
        STR_TWO_COMPUTED |s| { s.text_begin(None)?; s.text_fragment_computed(st::text(0, 2))?; s.text_fragment_computed(st::text(2, 3))?; s.text_end() };
        STR_MIXED |s| { s.text_begin(None)?; s.text_fragment(st::text(0, 2))?; s.text_fragment_computed(st::text(2, 3))?; s.text_end() };
        STR_MIXED_BACK |s| { s.text_begin(None)?; s.text_fragment_computed(st::text(0, 2))?; s.text_fragment(st::text(2, 3))?; s.text_end() };
        FAIL |s| lib::error();
        FAIL_MIDWAY |s| { s.text_begin(None)?; s.text_fragment(st::text(0, 2))?; lib::error() };
        FAIL_AFTER |s| { s.u64(st::u64())?; lib::error() };
        SEQ |s| {
            s.seq_begin(Some(2))?;
            s.seq_value_begin()?;
            s.u64(st::u64_at(0))?;
            s.seq_value_end()?;
            s.seq_value_begin()?;
            s.u64(st::u64_at(1))?;
            s.seq_value_end()?;
            s.seq_end()
            };
        MAP |s| {
            s.map_begin(Some(1))?;
            s.map_key_begin()?;
            s.u64(st::u64_at(0))?;
            s.map_key_end()?;
            s.map_value_begin()?;
            s.u64(st::u64_at(1))?;
            s.map_value_end()?;
            s.map_end()
            };
        TAGGED |s| { s.tagged_begin(None, None, None)?; s.u64(st::u64())?; s.tagged_end(None, None, None) };
    }
}

#[cfg(feature = "serde1")]
mod serde {
    use super::*;
    use value_bag_serde1::lib::{ser::{Error as _, SerializeMap as _, SerializeSeq as _}, Serialize, Serializer};
    macro_rules! values {
        ($($k:ident |$s:ident| $e:expr;)+) => {$(
            impl Serialize for Src<$k> {
                fn serialize<S: Serializer>(&self, $s: S) -> Result<S::Ok, S::Error> { $e }
            }
        )+};
    }
    values! {
        NONE |s| s.serialize_none();
        UNIT |s| s.serialize_unit();
        SOME |s| s.serialize_some(&Src::<U64>);
        U64 |s| s.serialize_u64(st::u64());
        I64 |s| s.serialize_i64(st::i64());
        U128 |s| s.serialize_u128(st::u128());
        I128 |s| s.serialize_i128(st::i128());
        F64 |s| s.serialize_f64(st::f64());
        BOOL |s| s.serialize_bool(st::bool());
        CHAR |s| s.serialize_char(st::char());
        U8 |s| s.serialize_u8(st::u64() as u8);
        U16 |s| s.serialize_u16(st::u64() as u16);
        U32 |s| s.serialize_u32(st::u64() as u32);
        I8 |s| s.serialize_i8(st::i64() as i8);
        I16 |s| s.serialize_i16(st::i64() as i16);
        I32 |s| s.serialize_i32(st::i64() as i32);
        F32 |s| s.serialize_f32(f32::from_bits(st::u64() as u32));
        STR |s| s.serialize_str(st::text(0, 5));
        STR_EMPTY |s| s.serialize_str(st::text(3, 0));
        FAIL |s| { let _ = s; Err(S::Error::custom("failed by the value")) };
        SEQ |s| {
            let mut q = s.serialize_seq(Some(2))?;
            q.serialize_element(&Src::<U64>)?;
            q.serialize_element(&Src::<U64>)?;
            q.end()
            };
        FAIL_MIDWAY |s| {
            let mut q = s.serialize_seq(Some(2))?;
            q.serialize_element(&Src::<BOOL>)?;
            Err(S::Error::custom("failed by the value"))
            };
        MAP |s| {
            let mut q = s.serialize_map(Some(1))?;
            q.serialize_entry(&Src::<U64>, &Src::<U64>)?;
            q.end()
            };
    }
}

/// One triple per kind for `$f::<K>()`
macro_rules! per_src {
    ($n:literal $f:ident $($name:ident $k:ident,)+) => {
        cases! { $n;
            $($name { crate::src::set::<{ crate::src::$k }>(); $f::<{ crate::src::$k }>() })+
        }
    };
    ($n:literal $f:ident) => {
        per_src! { $n $f none NONE, u64 U64, i64 I64, u128 U128, i128 I128, f64 F64, bool BOOL, char CHAR, str STR, str_empty STR_EMPTY, opaque OPAQUE, }
    };
}
pub(crate) use per_src;
