//! Stand-ins for std functions whose Kani encoding defeats constant propagation.
//!
//! They are part of the trusted base. None of them replaces code of value-bag.

use std::{any::TypeId, fmt};

fn tag<T: ?Sized>() {}

/// One distinct address per type
pub fn type_id_of<T: ?Sized + 'static>() -> TypeId {
    unsafe { std::mem::transmute([tag::<T> as fn() as *const u8; 2]) }
}

pub fn type_id_eq(a: &TypeId, b: &TypeId) -> bool {
    unsafe {
        let a = &*(a as *const _ as *const [*const u8; 2]);
        let b = &*(b as *const _ as *const [*const u8; 2]);
        a[0] == b[0]
    }
}

struct RawArguments {
    template: *const u8,
    args: *const u8,
}

/// `fmt::Arguments::as_str`, with the template byte tested before the pointer tag
pub fn arguments_as_str<'a>(a: &fmt::Arguments<'a>) -> Option<&'static str>
where
    'a: 'a,
{
    unsafe {
        let r = &*(a as *const fmt::Arguments as *const RawArguments);
        let b = *r.template;
        if b >= 0xC0 || b < 0x20 {
            return None;
        }
        let bits = r.args as usize;
        if bits & 1 == 0 {
            None
        } else {
            Some(std::str::from_utf8_unchecked(std::slice::from_raw_parts(r.template, bits >> 1)))
        }
    }
}

/// `sval_serde::serialize` for one primitive or one piece of text: the call for what is streamed. Kani can't compile the original
#[cfg(all(feature = "sval2", feature = "serde1"))]
pub fn sval_serialize<S: value_bag_serde1::lib::Serializer>(s: S, v: impl value_bag_sval2::lib::Value) -> Result<S::Ok, S::Error> {
    use value_bag_serde1::lib::{ser::Error as _, Serializer};
    use value_bag_sval2::lib::{error, stream, Result as R, Stream};
    struct One<S: Serializer>(Option<S>, Option<Result<S::Ok, S::Error>>);
    impl<S: Serializer> One<S> {
        fn with(&mut self, f: impl FnOnce(S) -> Result<S::Ok, S::Error>) -> R {
            let Some(s) = self.0.take() else { return error() };
            let r = f(s);
            let ok = r.is_ok();
            self.1 = Some(r);
            if ok { Ok(()) } else { error() }
        }
    }
    impl<'v, S: Serializer> Stream<'v> for One<S> {
        fn null(&mut self) -> R { self.with(|s| s.serialize_none()) }
        fn bool(&mut self, v: bool) -> R { self.with(|s| s.serialize_bool(v)) }
        fn u8(&mut self, v: u8) -> R { self.with(|s| s.serialize_u8(v)) }
        fn u16(&mut self, v: u16) -> R { self.with(|s| s.serialize_u16(v)) }
        fn u32(&mut self, v: u32) -> R { self.with(|s| s.serialize_u32(v)) }
        fn u64(&mut self, v: u64) -> R { self.with(|s| s.serialize_u64(v)) }
        fn u128(&mut self, v: u128) -> R { self.with(|s| s.serialize_u128(v)) }
        fn i8(&mut self, v: i8) -> R { self.with(|s| s.serialize_i8(v)) }
        fn i16(&mut self, v: i16) -> R { self.with(|s| s.serialize_i16(v)) }
        fn i32(&mut self, v: i32) -> R { self.with(|s| s.serialize_i32(v)) }
        fn i64(&mut self, v: i64) -> R { self.with(|s| s.serialize_i64(v)) }
        fn i128(&mut self, v: i128) -> R { self.with(|s| s.serialize_i128(v)) }
        fn f32(&mut self, v: f32) -> R { self.with(|s| s.serialize_f32(v)) }
        fn f64(&mut self, v: f64) -> R { self.with(|s| s.serialize_f64(v)) }
        fn text_begin(&mut self, _: Option<usize>) -> R { Ok(()) }
        fn text_fragment(&mut self, v: &'v str) -> R { self.with(|s| s.serialize_str(v)) }
        fn text_fragment_computed(&mut self, v: &str) -> R { self.with(|s| s.serialize_str(v)) }
        fn text_end(&mut self) -> R { Ok(()) }
        fn seq_begin(&mut self, _: Option<usize>) -> R { error() }
        fn seq_value_begin(&mut self) -> R { error() }
        fn seq_value_end(&mut self) -> R { error() }
        fn seq_end(&mut self) -> R { error() }
    }
    let mut o = One(Some(s), None);
    let ok = stream(&mut o, &v).is_ok();
    match o.1 {
        Some(Err(e)) => Err(e),
        Some(r) if ok => r,
        _ => Err(S::Error::custom("not supported")),
    }
}

/// Streaming the copy of something that failed to stream: there must be no such copy
#[cfg(all(feature = "sval2", feature = "owned"))]
pub unsafe fn no_sval_copy<'sval, S: value_bag_sval2::lib::Stream<'sval> + ?Sized>(_: &[u8], _: &mut S) -> value_bag_sval2::lib::Result {
    panic!("a value that failed to stream was copied")
}
/// Serializing the copy of something that failed to serialize: there must be no such copy
#[cfg(all(feature = "serde1", feature = "owned"))]
pub fn no_serde_copy<T: ?Sized + value_bag_serde1::erased::Serialize, S: value_bag_serde1::lib::Serializer>(_: &T, _: S) -> Result<S::Ok, S::Error> {
    panic!("a value that failed to serialize was copied")
}
