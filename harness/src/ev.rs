//! Recorders for the two serialization frameworks, which can fail at any event.

use crate::{nd, spec::*, st};

#[derive(Clone, Copy, PartialEq)]
pub struct Ev(pub u8, pub u128);

pub const NULL: u8 = 1;
pub const BOOL: u8 = 2;
pub const U8: u8 = 3;
pub const U16: u8 = 4;
pub const U32: u8 = 5;
pub const U64: u8 = 6;
pub const U128: u8 = 7;
pub const I8: u8 = 8;
pub const I16: u8 = 9;
pub const I32: u8 = 10;
pub const I64: u8 = 11;
pub const I128: u8 = 12;
pub const F32: u8 = 13;
pub const F64: u8 = 14;
pub const CHAR: u8 = 15;
/// Short-lived text
pub const TEXT: u8 = 16;
/// Text that outlives the stream
pub const BORROWED: u8 = 17;
pub const SEQ: u8 = 18;
pub const SEQ_END: u8 = 19;
pub const EL: u8 = 20;
pub const EL_END: u8 = 21;
pub const MAP: u8 = 22;
pub const MAP_END: u8 = 23;
pub const KEY: u8 = 24;
pub const KEY_END: u8 = 25;
pub const VALUE: u8 = 26;
pub const VALUE_END: u8 = 27;
pub const TAGGED: u8 = 28;
pub const TAGGED_END: u8 = 29;
pub const UNIT: u8 = 30;
pub const SOME: u8 = 31;
pub const TUPLE: u8 = 32;

pub const MAX: usize = 10;

/// What was emitted. Pieces of one text are put together
pub struct Log {
    pub n: usize,
    pub ev: [Ev; MAX],
    /// Calls made, and the one that fails
    pub calls: u32,
    pub fail_at: u32,
    pub after_failure: bool,
    text: (usize, u8, bool),
}
pub const NEVER: u32 = 1000;
const COUNTS: usize = usize::MAX;

impl Log {
    pub fn new(fail_at: u32) -> Self {
        Log { n: 0, ev: [Ev(0, 0); MAX], calls: 0, fail_at, after_failure: false, text: (0, 0, true) }
    }
    /// Fails anywhere, or nowhere, and only counts
    pub fn failing() -> Self {
        let k = nd::u8() as u32;
        Log { n: COUNTS, ..Log::new(if k == 0 { NEVER } else { k - 1 }) }
    }
    pub fn failed(&self) -> bool { self.calls > self.fail_at }
    fn call(&mut self) -> Result<(), ()> {
        if self.failed() { self.after_failure = true; }
        self.calls += 1;
        if self.failed() { Err(()) } else { Ok(()) }
    }
    fn push(&mut self, e: Ev) {
        if self.n == COUNTS { return; }
        if self.n < MAX { self.ev[self.n] = e; }
        self.n += 1;
    }
    fn see(&mut self, tag: u8, v: u128) -> Result<(), ()> {
        self.call()?;
        self.push(Ev(tag, v));
        Ok(())
    }
    fn begin(&mut self) { self.text = (0, 0, true); }
    fn fragment(&mut self, s: &str, borrowed: bool) {
        let k = st::probe();
        let (n, got, b) = self.text;
        let got = if k >= n && k < n + s.len() { s.as_bytes()[k - n] } else { got };
        self.text = (n + s.len(), got, b && borrowed);
    }
    fn end(&mut self) {
        let (n, got, b) = self.text;
        self.push(Ev(if b { BORROWED } else { TEXT }, n as u128 | (got as u128) << 32));
    }
    /// Exactly these events
    pub fn is(&self, e: &[Ev]) -> bool {
        if self.n != e.len() || self.n > MAX { return false; }
        let mut i = 0;
        while i < e.len() {
            if self.ev[i] != e[i] { return false; }
            i += 1;
        }
        true
    }
    pub fn at(&self, i: usize) -> (u8, u128) { (self.ev[i].0, self.ev[i].1) }
    /// The same events as another emission
    pub fn same(&self, o: &Log) -> bool { o.n <= MAX && self.is(&o.ev[..o.n]) }
}
pub fn float(v: f64) -> u128 { if v != v { 1 << 70 } else { v.to_bits() as u128 } }
pub fn text(s: &str, borrowed: bool) -> Ev { Ev(if borrowed { BORROWED } else { TEXT }, s.len() as u128 | (probed(s) as u128) << 32) }

/// The event for a captured primitive
pub fn of(v: Val, borrowed: bool) -> Ev {
    match v {
        Val::None => Ev(NULL, 0),
        Val::U(v) => Ev(U64, v as u128),
        Val::I(v) => Ev(I64, v as i128 as u128),
        Val::BU(v) => Ev(U128, v),
        Val::BI(v) => Ev(I128, v as u128),
        Val::F(v) => Ev(F64, float(v)),
        Val::B(v) => Ev(BOOL, v as u128),
        Val::C(v) => Ev(CHAR, v as u128),
        Val::S(v) => text(v, borrowed),
        Val::Opaque => text(st::text(0, 3), false),
    }
}

#[cfg(feature = "sval2")]
mod sval {
    use super::*;
    use value_bag_sval2::lib::{Error, Index, Label, Result, Stream, Tag};
    fn e(_: ()) -> Error { Error::new() }
    impl<'v> Stream<'v> for Log {
        fn null(&mut self) -> Result { self.see(NULL, 0).map_err(e) }
        fn bool(&mut self, v: bool) -> Result { self.see(BOOL, v as u128).map_err(e) }
        fn u8(&mut self, v: u8) -> Result { self.see(U8, v as u128).map_err(e) }
        fn u16(&mut self, v: u16) -> Result { self.see(U16, v as u128).map_err(e) }
        fn u32(&mut self, v: u32) -> Result { self.see(U32, v as u128).map_err(e) }
        fn u64(&mut self, v: u64) -> Result { self.see(U64, v as u128).map_err(e) }
        fn u128(&mut self, v: u128) -> Result { self.see(U128, v).map_err(e) }
        fn i8(&mut self, v: i8) -> Result { self.see(I8, v as i128 as u128).map_err(e) }
        fn i16(&mut self, v: i16) -> Result { self.see(I16, v as i128 as u128).map_err(e) }
        fn i32(&mut self, v: i32) -> Result { self.see(I32, v as i128 as u128).map_err(e) }
        fn i64(&mut self, v: i64) -> Result { self.see(I64, v as i128 as u128).map_err(e) }
        fn i128(&mut self, v: i128) -> Result { self.see(I128, v as u128).map_err(e) }
        fn f32(&mut self, v: f32) -> Result { self.see(F32, float(v as f64)).map_err(e) }
        fn f64(&mut self, v: f64) -> Result { self.see(F64, float(v)).map_err(e) }
        fn text_begin(&mut self, _: Option<usize>) -> Result { self.call().map_err(e)?; self.begin(); Ok(()) }
        fn text_fragment(&mut self, s: &'v str) -> Result { self.call().map_err(e)?; self.fragment(s, true); Ok(()) }
        fn text_fragment_computed(&mut self, s: &str) -> Result { self.call().map_err(e)?; self.fragment(s, false); Ok(()) }
        fn text_end(&mut self) -> Result { self.call().map_err(e)?; self.end(); Ok(()) }
        fn seq_begin(&mut self, _: Option<usize>) -> Result { self.see(SEQ, 0).map_err(e) }
        fn seq_value_begin(&mut self) -> Result { self.see(EL, 0).map_err(e) }
        fn seq_value_end(&mut self) -> Result { self.see(EL_END, 0).map_err(e) }
        fn seq_end(&mut self) -> Result { self.see(SEQ_END, 0).map_err(e) }
        fn map_begin(&mut self, _: Option<usize>) -> Result { self.see(MAP, 0).map_err(e) }
        fn map_key_begin(&mut self) -> Result { self.see(KEY, 0).map_err(e) }
        fn map_key_end(&mut self) -> Result { self.see(KEY_END, 0).map_err(e) }
        fn map_value_begin(&mut self) -> Result { self.see(VALUE, 0).map_err(e) }
        fn map_value_end(&mut self) -> Result { self.see(VALUE_END, 0).map_err(e) }
        fn map_end(&mut self) -> Result { self.see(MAP_END, 0).map_err(e) }
        fn tagged_begin(&mut self, _: Option<&Tag>, _: Option<&Label>, _: Option<&Index>) -> Result { self.see(TAGGED, 0).map_err(e) }
        fn tagged_end(&mut self, _: Option<&Tag>, _: Option<&Label>, _: Option<&Index>) -> Result { self.see(TAGGED_END, 0).map_err(e) }
    }
}

#[cfg(feature = "serde1")]
pub mod serde {
    use super::*;
    use std::fmt;
    use value_bag_serde1::lib::{ser::*, Serialize, Serializer};

    #[derive(Debug)]
    pub struct Refused;
    impl fmt::Display for Refused {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("refused") }
    }
    impl Error for Refused {
        fn custom<T: fmt::Display>(_: T) -> Self { Refused }
    }
    impl StdError for Refused {}
    fn e(_: ()) -> Refused { Refused }

    /// Answers with the number of events it has seen
    pub struct Ser<'a>(pub &'a mut Log);
    impl<'a> Ser<'a> {
        fn one(self, tag: u8, v: u128) -> Result<usize, Refused> {
            self.0.see(tag, v).map_err(e)?;
            Ok(self.0.n)
        }
    }
    type R = Result<usize, Refused>;
    impl<'a> Serializer for Ser<'a> {
        type Ok = usize;
        type Error = Refused;
        type SerializeSeq = Self;
        type SerializeTuple = Self;
        type SerializeTupleStruct = Impossible<usize, Refused>;
        type SerializeTupleVariant = Impossible<usize, Refused>;
        type SerializeMap = Self;
        type SerializeStruct = Impossible<usize, Refused>;
        type SerializeStructVariant = Impossible<usize, Refused>;
        fn serialize_bool(self, v: bool) -> R { self.one(BOOL, v as u128) }
        fn serialize_u8(self, v: u8) -> R { self.one(U8, v as u128) }
        fn serialize_u16(self, v: u16) -> R { self.one(U16, v as u128) }
        fn serialize_u32(self, v: u32) -> R { self.one(U32, v as u128) }
        fn serialize_u64(self, v: u64) -> R { self.one(U64, v as u128) }
        fn serialize_u128(self, v: u128) -> R { self.one(U128, v) }
        fn serialize_i8(self, v: i8) -> R { self.one(I8, v as i128 as u128) }
        fn serialize_i16(self, v: i16) -> R { self.one(I16, v as i128 as u128) }
        fn serialize_i32(self, v: i32) -> R { self.one(I32, v as i128 as u128) }
        fn serialize_i64(self, v: i64) -> R { self.one(I64, v as i128 as u128) }
        fn serialize_i128(self, v: i128) -> R { self.one(I128, v as u128) }
        fn serialize_f32(self, v: f32) -> R { self.one(F32, float(v as f64)) }
        fn serialize_f64(self, v: f64) -> R { self.one(F64, float(v)) }
        fn serialize_char(self, v: char) -> R { self.one(CHAR, v as u128) }
        fn serialize_str(self, v: &str) -> R { let t = super::text(v, false); self.one(t.0, t.1) }
        fn serialize_none(self) -> R { self.one(NULL, 0) }
        fn serialize_unit(self) -> R { self.one(UNIT, 0) }
        fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R { self.0.see(SOME, 0).map_err(e)?; v.serialize(self) }
        fn serialize_bytes(self, _: &[u8]) -> R { Err(Refused) }
        fn serialize_unit_struct(self, _: &'static str) -> R { Err(Refused) }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R { Err(Refused) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> R { Err(Refused) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> R { Err(Refused) }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self, Refused> { self.0.see(SEQ, 0).map_err(e)?; Ok(self) }
        fn serialize_tuple(self, n: usize) -> Result<Self, Refused> { self.0.see(TUPLE, n as u128).map_err(e)?; Ok(self) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Impossible<usize, Refused>, Refused> { Err(Refused) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<usize, Refused>, Refused> { Err(Refused) }
        fn serialize_map(self, _: Option<usize>) -> Result<Self, Refused> { self.0.see(MAP, 0).map_err(e)?; Ok(self) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Impossible<usize, Refused>, Refused> { Err(Refused) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<usize, Refused>, Refused> { Err(Refused) }
        fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> R {
            let mut w = Wr::new();
            if fmt::Write::write_fmt(&mut w, format_args!("{}", v)).is_err() { return Err(Refused); }
            self.one(TEXT, w.n as u128 | (w.got as u128) << 32)
        }
    }
    impl<'a> SerializeSeq for Ser<'a> {
        type Ok = usize;
        type Error = Refused;
        fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Refused> {
            self.0.see(EL, 0).map_err(e)?;
            v.serialize(Ser(self.0))?;
            Ok(())
        }
        fn end(self) -> R { self.one(SEQ_END, 0) }
    }
    impl<'a> SerializeTuple for Ser<'a> {
        type Ok = usize;
        type Error = Refused;
        fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Refused> { SerializeSeq::serialize_element(self, v) }
        fn end(self) -> R { self.one(SEQ_END, 0) }
    }
    impl<'a> SerializeMap for Ser<'a> {
        type Ok = usize;
        type Error = Refused;
        fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Refused> {
            self.0.see(KEY, 0).map_err(e)?;
            v.serialize(Ser(self.0))?;
            Ok(())
        }
        fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Refused> {
            self.0.see(VALUE, 0).map_err(e)?;
            v.serialize(Ser(self.0))?;
            Ok(())
        }
        fn end(self) -> R { self.one(MAP_END, 0) }
    }
}
