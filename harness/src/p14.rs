//! P14: sequences yield each element once, in order.

use crate::{is_ok, nd, spec::*, src::*, st};
use std::{marker::PhantomData, mem::forget};
use value_bag::{
    fill::{Fill, Slot},
    Error, ValueBag,
};

/// A collection that keeps what it is given, in statics
pub struct Col<T>(PhantomData<T>);
impl<T> Default for Col<T> {
    fn default() -> Self {
        unsafe { N = 0 };
        Col(PhantomData)
    }
}
static mut N: usize = 0;
pub trait Keep: Sized {
    fn keep(self, i: usize);
    fn kept(i: usize) -> Self;
}
macro_rules! keep {
    ($($s:ident $t:ty = $e:expr;)*) => { $(
        static mut $s: [$t; 4] = [$e; 4];
        impl Keep for $t {
            fn keep(self, i: usize) { unsafe { $s[i] = self } }
            fn kept(i: usize) -> Self { unsafe { $s[i] } }
        }
    )* };
}
keep! {
    KU64 Option<u64> = None;
    KI64 Option<i64> = None;
    KU128 Option<u128> = None;
    KI128 Option<i128> = None;
    KF64 Option<f64> = None;
    KFLOAT f64 = 0.0;
    KBOOL Option<bool> = None;
    KCHAR Option<char> = None;
}
/// Address, length and probed byte
#[derive(Clone, Copy)]
struct Piece(*const u8, usize, u8);
static mut KSTR: [Option<Piece>; 4] = [None; 4];
impl<'a> Keep for Option<&'a str> {
    fn keep(self, i: usize) { unsafe { KSTR[i] = self.map(|s| Piece(s.as_ptr(), s.len(), probed(s))) } }
    fn kept(_: usize) -> Self { None }
}
#[cfg(feature = "alloc")]
impl<'a> Keep for Option<std::borrow::Cow<'a, str>> {
    fn keep(self, i: usize) {
        self.as_deref().keep(i);
        forget(self);
    }
    fn kept(_: usize) -> Self { None }
}
impl<T: Keep> Extend<T> for Col<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        for v in i {
            unsafe {
                if N < 4 { v.keep(N); } else { forget(v); }
                N += 1;
            }
        }
    }
}

/// An element of kind `k`
pub struct El(u8);
fn el(k: u8) -> Val {
    match k {
        NONE => Val::None,
        U64 => Val::U(st::u64_at(0)),
        U8 => Val::U(st::u64_at(1)),
        I64 => Val::I(st::i64()),
        U128 => Val::BU(st::u128()),
        I128 => Val::BI(st::i128()),
        F64 => Val::F(st::f64()),
        BOOL => Val::B(st::bool()),
        CHAR => Val::C(st::char()),
        STR => Val::S(st::text(0, 5)),
        STR_EMPTY => Val::S(st::text(3, 0)),
        _ => Val::Opaque,
    }
}
impl<'a> From<&'a El> for ValueBag<'a> {
    fn from(e: &'a El) -> Self {
        if e.0 == SEQ { return ValueBag::from_seq_slice::<Nested, u64>(&Nested); }
        bag(el(e.0))
    }
}
struct Nested;
impl AsRef<[u64]> for Nested {
    fn as_ref(&self) -> &[u64] { st::u64s(2) }
}
pub struct List<const N: usize, const A: u8, const B: u8, const C: u8>;
impl<const N: usize, const A: u8, const B: u8, const C: u8> List<N, A, B, C> {
    const ALL: [El; 3] = [El(A), El(B), El(C)];
}
impl<const N: usize, const A: u8, const B: u8, const C: u8> AsRef<[El]> for List<N, A, B, C> {
    fn as_ref(&self) -> &[El] {
        let all: &'static [El; 3] = &Self::ALL;
        &all[..N]
    }
}
impl<const N: usize, const A: u8, const B: u8, const C: u8> Fill for List<N, A, B, C> {
    fn fill(&self, s: Slot) -> Result<(), Error> { s.fill_seq_slice::<Self, El>(&List::<N, A, B, C>) }
}
fn set_all() {
    st::set_u64s();
    st::set_i64();
    st::set_u128();
    st::set_i128();
    st::set_f64();
    st::set_bool();
    st::set_char();
    st::set_text(5);
}

/// One entry per expected element, each what the element reads as
fn same<T: Keep>(c: Option<Col<T>>, e: &[Val], eq: impl Fn(T, Val) -> bool) {
    let n = unsafe { N };
    assert!(c.is_some(), "a sequence was declined");
    assert!(n == e.len(), "one entry per element");
    if e.len() > 0 { assert!(eq(T::kept(0), e[0]), "first entry"); }
    if e.len() > 1 { assert!(eq(T::kept(1), e[1]), "second entry"); }
    if e.len() > 2 { assert!(eq(T::kept(2), e[2]), "third entry"); }
}
fn rd_u64(b: &ValueBag, e: &[Val]) { same(b.to_u64_seq::<Col<Option<u64>>>(), e, |a, v| a == u64_of(v)) }
fn rd_i64(b: &ValueBag, e: &[Val]) { same(b.to_i64_seq::<Col<Option<i64>>>(), e, |a, v| a == i64_of(v)) }
fn rd_u128(b: &ValueBag, e: &[Val]) { same(b.to_u128_seq::<Col<Option<u128>>>(), e, |a, v| a == u128_of(v)) }
fn rd_i128(b: &ValueBag, e: &[Val]) { same(b.to_i128_seq::<Col<Option<i128>>>(), e, |a, v| a == i128_of(v)) }
fn rd_f64(b: &ValueBag, e: &[Val]) { same(b.to_f64_seq::<Col<Option<f64>>>(), e, |a, v| same_opt_f64(a, f64_of(v))) }
fn rd_float(b: &ValueBag, e: &[Val]) { same(Some(b.as_f64_seq::<Col<f64>>()), e, |a, v| same_f64(a, as_f64_of(v))) }
fn rd_bool(b: &ValueBag, e: &[Val]) { same(b.to_bool_seq::<Col<Option<bool>>>(), e, |a, v| a == bool_of(v)) }
fn rd_char(b: &ValueBag, e: &[Val]) { same(b.to_char_seq::<Col<Option<char>>>(), e, |a, v| a == char_of(v)) }
fn piece(i: usize, v: Val, t: Text) {
    match (unsafe { KSTR[i] }, v) {
        (Some(Piece(p, n, c)), Val::S(e)) => assert!(
            match t {
                Text::Same => p == e.as_ptr() && n == e.len(),
                Text::Borrowed => n == e.len() && c == probed(e),
                Text::Owned => false,
            },
            "text entry"
        ),
        (None, Val::S(_)) => assert!(t == Text::Owned, "text is missing"),
        (Some(_), _) => assert!(false, "text from something else"),
        (None, _) => (),
    }
}
fn pieces(e: &[Val], t: Text) {
    assert!(unsafe { N } == e.len(), "one entry per element");
    if e.len() > 0 { piece(0, e[0], t); }
    if e.len() > 1 { piece(1, e[1], t); }
    if e.len() > 2 { piece(2, e[2], t); }
}
fn rd_borrowed(b: &ValueBag, e: &[Val], t: Text) {
    assert!(b.to_borrowed_str_seq::<Col<Option<&str>>>().is_some(), "a sequence was declined");
    pieces(e, t);
}
#[cfg(feature = "alloc")]
fn rd_str(b: &ValueBag, e: &[Val]) {
    assert!(b.to_str_seq::<Col<Option<std::borrow::Cow<str>>>>().is_some(), "a sequence was declined");
    pieces(e, Text::Borrowed);
}
fn rd_ints(b: &ValueBag, e: &[Val]) {
    rd_u64(b, e);
    rd_i64(b, e);
}
fn rd_wides(b: &ValueBag, e: &[Val]) {
    rd_u128(b, e);
    rd_i128(b, e);
}
fn rd_floats(b: &ValueBag, e: &[Val]) {
    rd_f64(b, e);
    rd_float(b, e);
}
fn rd_others(b: &ValueBag, e: &[Val]) {
    rd_bool(b, e);
    rd_char(b, e);
}
fn rd_texts(b: &ValueBag, e: &[Val], t: Text) {
    rd_borrowed(b, e, t);
    #[cfg(feature = "alloc")]
    rd_str(b, e);
}

/// `f::<N, A, B, C>()` for lists that have every kind in some position
macro_rules! per_list {
    ($n:literal $f:ident) => {
        cases! { $n;
            empty { set_all(); $f::<0, NONE, NONE, NONE>() }
            numbers { set_all(); $f::<3, I64, NONE, U64>() }
            texts { set_all(); $f::<3, STR, SEQ, BOOL>() }
            others { set_all(); $f::<3, OPAQUE, F64, CHAR>() }
        }
    };
}
fn expected<const A: u8, const B: u8, const C: u8>() -> [Val; 3] { [el(A), el(B), el(C)] }

/// Each way to read a list
macro_rules! per_read {
    ($($m:ident $rd:ident)*) => { $(
        pub mod $m {
            use super::*;
            fn f<const N: usize, const A: u8, const B: u8, const C: u8>() {
                let b = ValueBag::from_seq_slice::<_, El>(&List::<N, A, B, C>);
                $rd(&b, &expected::<A, B, C>()[..N]);
                forget(b);
            }
            per_list! { 6 f }
        }
    )* };
}
per_read! { u64s rd_u64 i64s rd_i64 u128s rd_u128 i128s rd_i128 f64s rd_f64 floats rd_float bools rd_bool chars rd_char borrowed_strs rd_same }
fn rd_same(b: &ValueBag, e: &[Val]) { rd_borrowed(b, e, Text::Same) }
#[cfg(feature = "alloc")]
per_read! { strs rd_str }
/// 128-bit elements
pub mod wide {
    use super::*;
    fn f<const N: usize, const A: u8, const B: u8, const C: u8>() {
        let b = ValueBag::from_seq_slice::<_, El>(&List::<N, A, B, C>);
        rd_wides(&b, &expected::<A, B, C>()[..N]);
        forget(b);
    }
    triples! {
        5 first { set_all(); f::<2, U128, I64, NONE>() }
        5 last { set_all(); f::<2, U64, I128, NONE>() }
    }
}
/// A list supplied by a filler
pub mod filled {
    use super::*;
    fn f<const N: usize, const A: u8, const B: u8, const C: u8>() {
        let b = ValueBag::from_fill(&List::<N, A, B, C>);
        let e = expected::<A, B, C>();
        rd_i64(&b, &e[..N]);
        rd_borrowed(&b, &e[..N], Text::Owned);
        forget(b);
    }
    per_list! { 6 f }
}
pub mod by_ref {
    use super::*;
    fn f<const N: usize, const A: u8, const B: u8, const C: u8>() {
        let b = ValueBag::from_seq_slice::<_, El>(&List::<N, A, B, C>);
        let r = b.by_ref();
        let c = r.clone();
        let e = expected::<A, B, C>();
        rd_i64(&c, &e[..N]);
        rd_borrowed(&c, &e[..N], Text::Same);
        forget((c, r));
        forget(b);
    }
    per_list! { 6 f }
}

/// Each standard element type, through its conversion
pub mod converted {
    use super::*;
    macro_rules! element {
        ($m:ident $n:literal $($t:ident $var:ident $as:ty, $rd:ident;)*) => {
            pub mod $m { use super::*; cases! { $n; $(
                $t {
                    let a: [$t; 2] = [nd::$t(), nd::$t()];
                    let e = [Val::$var(a[0] as $as), Val::$var(a[1] as $as)];
                    let b = ValueBag::from(&a);
                    $rd(&b, &e);
                    forget(b);
                    let s: &[$t] = &a;
                    let b = ValueBag::from(&s);
                    $rd(&b, &e);
                    forget(b);
                    let b = ValueBag::from(Some(&a));
                    $rd(&b, &e);
                    forget(b);
                    let b = ValueBag::from(Some(&s));
                    $rd(&b, &e);
                    forget(b);
                    let b = ValueBag::from(None::<&[$t; 2]>);
                    empties(&b, Val::None);
                    forget(b);
                }
            )* } }
        };
    }
    element! { narrow 5 u8 U u64, rd_u64; u16 U u64, rd_u64; u32 U u64, rd_u64; i8 I i64, rd_i64; i16 I i64, rd_i64; i32 I i64, rd_i64; }
    element! { ints 5 u64 U u64, rd_u64; usize U u64, rd_u64; i64 I i64, rd_i64; isize I i64, rd_i64; }
    element! { wide_ints 5 u128 BU u128, rd_u128; i128 BI i128, rd_i128; }
    element! { others 5 f32 F f64, rd_f64; f64 F f64, rd_f64; bool B bool, rd_bool; char C char, rd_char; }
    pub mod text {
        use super::super::*;
        triples! {
            6 str {
                st::set_text(5);
                let a = [st::text(0, 5), st::text(0, 2)];
                let e = [Val::S(a[0]), Val::S(a[1])];
                let b = ValueBag::from(&a);
                rd_same(&b, &e);
                forget(b);
                let s: &[&str] = &a;
                let b = ValueBag::from(&s);
                rd_same(&b, &e);
                forget(b);
                let b = ValueBag::from(Some(&s));
                rd_same(&b, &e);
                forget(b);
            }
        }
    }
    #[cfg(feature = "alloc")]
    pub mod vecs {
        use super::super::*;
        triples! {
            6 u64 {
                let v: Vec<u64> = vec![nd::u64(), nd::u64()];
                let e = [Val::U(v[0]), Val::U(v[1])];
                let b = ValueBag::from(&v);
                rd_u64(&b, &e);
                forget(b);
                let b = ValueBag::from(Some(&v));
                rd_u64(&b, &e);
                forget(b);
                forget(v);
            }
            6 string {
                st::set_text(5);
                let v: Vec<String> = vec![String::from(st::text(0, 5)), String::from(st::text(0, 2))];
                let b = ValueBag::from(&v);
                rd_borrowed(&b, &[Val::S(st::text(0, 5)), Val::S(st::text(0, 2))], Text::Borrowed);
                forget(b);
                forget(v);
            }
        }
    }
}

/// What isn't a sequence is declined
fn declined(b: &ValueBag) {
    fn none<T>(o: Option<T>) -> bool { let n = o.is_none(); forget(o); n }
    assert!(none(b.to_u64_seq::<Col<Option<u64>>>()), "not a sequence");
    assert!(none(b.to_i64_seq::<Col<Option<i64>>>()), "not a sequence");
    assert!(none(b.to_u128_seq::<Col<Option<u128>>>()), "not a sequence");
    assert!(none(b.to_i128_seq::<Col<Option<i128>>>()), "not a sequence");
    assert!(none(b.to_f64_seq::<Col<Option<f64>>>()), "not a sequence");
    assert!(none(b.to_bool_seq::<Col<Option<bool>>>()), "not a sequence");
    assert!(none(b.to_char_seq::<Col<Option<char>>>()), "not a sequence");
    assert!(none(b.to_borrowed_str_seq::<Col<Option<&str>>>()), "not a sequence");
    let _ = b.as_f64_seq::<Col<f64>>();
    assert!(unsafe { N } == 0, "not a sequence");
}
pub mod not_a_sequence {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        declined(&b);
        forget(b);
        let b = ValueBag::from_fill(&Src::<K>);
        declined(&b);
        forget(b);
    }
    per_src! { 5 f }
}
/// And a sequence reads as nothing else
pub mod not_a_primitive {
    use super::*;
    fn f<const N: usize, const A: u8, const B: u8, const C: u8>() {
        let b = ValueBag::from_seq_slice::<_, El>(&List::<N, A, B, C>);
        reads(&b, Val::Opaque, Text::Same);
        empties(&b, Val::Opaque);
        forget(b);
    }
    per_list! { 6 f }
}

#[cfg(feature = "owned")]
pub mod owned {
    use super::*;
    fn f<const N: usize, const A: u8>() {
        let b = ValueBag::from_seq_slice::<_, El>(&List::<N, A, NONE, NONE>);
        let o = b.to_owned();
        let r = o.by_ref();
        let e = expected::<A, NONE, NONE>();
        rd_i64(&r, &e[..N]);
        forget(r);
        forget((o, b));
    }
    triples! {
        5 empty { set_all(); f::<0, NONE>() }
        5 none { set_all(); f::<1, NONE>() }
        5 u64 { set_all(); f::<1, U64>() }
        5 i64 { set_all(); f::<1, I64>() }
        5 bool { set_all(); f::<1, BOOL>() }
    }
}
#[cfg(feature = "owned")]
pub mod shared {
    use super::*;
    fn f<const N: usize, const A: u8, const B: u8, const C: u8>() {
        let b = ValueBag::capture_shared_seq_slice::<_, El>(List::<N, A, B, C>);
        let e = expected::<A, B, C>();
        let c = b.clone();
        let r = c.by_ref();
        rd_i64(&r, &e[..N]);
        rd_borrowed(&r, &e[..N], Text::Owned);
        forget(r);
        forget((c, b));
    }
    per_list! { 5 f }
}

/// Sequences and other structures supplied by a framework
#[cfg(feature = "sval2")]
pub mod sval {
    use super::*;
    use value_bag_sval2::lib::{self, Stream};
    /// Streams one shape
    pub struct Shape<const S: u8>;
    macro_rules! shapes {
        ($($k:literal |$s:ident| $e:expr;)+) => {$(
            impl lib::Value for Shape<$k> {
                fn stream<'sval, T: Stream<'sval> + ?Sized>(&'sval self, $s: &mut T) -> lib::Result { $e }
            }
        )+};
    }
    shapes! {
        // [u64, null, bool]
        0 |s| {
            s.seq_begin(None)?;
            s.seq_value_begin()?; s.u64(st::u64_at(0))?; s.seq_value_end()?;
            s.seq_value_begin()?; s.null()?; s.seq_value_end()?;
            s.seq_value_begin()?; s.bool(st::bool())?; s.seq_value_end()?;
            s.seq_end()
                };
        // [[u64], u64]
        1 |s| {
            s.seq_begin(None)?;
            s.seq_value_begin()?;
            s.seq_begin(None)?; s.seq_value_begin()?; s.u64(st::u64_at(0))?; s.seq_value_end()?; s.seq_end()?;
            s.seq_value_end()?;
            s.seq_value_begin()?; s.u64(st::u64_at(1))?; s.seq_value_end()?;
            s.seq_end()
                };
        // [{u64: u64}, u64]
        2 |s| {
            s.seq_begin(None)?;
            s.seq_value_begin()?;
            s.map_begin(None)?;
            s.map_key_begin()?; s.u64(st::u64_at(0))?; s.map_key_end()?;
            s.map_value_begin()?; s.u64(st::u64_at(1))?; s.map_value_end()?;
            s.map_end()?;
            s.seq_value_end()?;
            s.seq_value_begin()?; s.u64(st::u64_at(1))?; s.seq_value_end()?;
            s.seq_end()
                };
        // ["text", ""]
        3 |s| {
            s.seq_begin(None)?;
            s.seq_value_begin()?; s.text_begin(None)?; s.text_fragment(st::text(0, 5))?; s.text_end()?; s.seq_value_end()?;
            s.seq_value_begin()?; s.text_begin(None)?; s.text_end()?; s.seq_value_end()?;
            s.seq_end()
                };
        // []
        4 |s| { s.seq_begin(None)?; s.seq_end() };
        // {u64: [u64]}
        5 |s| {
            s.map_begin(None)?;
            s.map_key_begin()?; s.u64(st::u64_at(0))?; s.map_key_end()?;
            s.map_value_begin()?;
            s.seq_begin(None)?; s.seq_value_begin()?; s.u64(st::u64_at(0))?; s.seq_value_end()?; s.seq_end()?;
            s.map_value_end()?;
            s.map_end()
                };
        // [u64, u128], i128, f64
        6 |s| {
            s.seq_begin(None)?;
            s.seq_value_begin()?; s.u128(st::u128())?; s.seq_value_end()?;
            s.seq_value_begin()?; s.i128(st::i128())?; s.seq_value_end()?;
            s.seq_value_begin()?; s.f64(st::f64())?; s.seq_value_end()?;
            s.seq_end()
                };
        // [[[u64], []], u64, [u64]]
        7 |s| {
            s.seq_begin(None)?;
            s.seq_value_begin()?;
            s.seq_begin(None)?;
            s.seq_value_begin()?; s.seq_begin(None)?; s.seq_value_begin()?; s.u64(st::u64_at(0))?; s.seq_value_end()?; s.seq_end()?; s.seq_value_end()?;
            s.seq_value_begin()?; s.seq_begin(None)?; s.seq_end()?; s.seq_value_end()?;
            s.seq_end()?;
            s.seq_value_end()?;
            s.seq_value_begin()?; s.u64(st::u64_at(1))?; s.seq_value_end()?;
            s.seq_value_begin()?;
            s.seq_begin(None)?; s.seq_value_begin()?; s.u64(st::u64_at(0))?; s.seq_value_end()?; s.seq_end()?;
            s.seq_value_end()?;
            s.seq_end()
                };
        // A tuple
        8 |s| {
            s.tuple_begin(None, None, None, Some(2))?;
            s.tuple_value_begin(None, &lib::Index::new(0))?; s.u64(st::u64_at(0))?; s.tuple_value_end(None, &lib::Index::new(0))?;
            s.tuple_value_begin(None, &lib::Index::new(1))?; s.i64(st::i64())?; s.tuple_value_end(None, &lib::Index::new(1))?;
            s.tuple_end(None, None, None)
                };
        9 |s| {
            s.seq_begin(None)?;
            s.seq_value_begin()?; s.u64(st::u64_at(0))?; s.seq_value_end()?;
            lib::error()
        };
    }
    fn shape<const S: u8>() -> ([Val; 3], usize) {
        let (a, b) = (Val::U(st::u64_at(0)), Val::U(st::u64_at(1)));
        match S {
            0 => ([a, Val::None, Val::B(st::bool())], 3),
            1 | 2 => ([Val::Opaque, b, Val::None], 2),
            3 => ([Val::S(st::text(0, 5)), Val::S(""), Val::None], 2),
            4 => ([Val::None; 3], 0),
            6 => ([Val::BU(st::u128()), Val::BI(st::i128()), Val::F(st::f64())], 3),
            7 => ([Val::Opaque, b, Val::Opaque], 3),
            _ => ([a, Val::I(st::i64()), Val::None], 2),
        }
    }
    fn f<const S: u8>() where Shape<S>: lib::Value {
        let (e, n) = shape::<S>();
        let b = ValueBag::from_sval2(&Shape::<S>);
        rd_ints(&b, &e[..n]);
        rd_others(&b, &e[..n]);
        forget(b);
    }
    fn g<const S: u8>() where Shape<S>: lib::Value {
        let (e, n) = shape::<S>();
        let b = ValueBag::capture_sval2(&Shape::<S>);
        rd_wides(&b, &e[..n]);
        rd_floats(&b, &e[..n]);
        forget(b);
    }
    fn h<const S: u8>() where Shape<S>: lib::Value {
        let b = ValueBag::capture_sval2(&Shape::<S>);
        declined(&b);
        forget(b);
    }
    pub mod flat { use super::*; cases! { 5;
        flat { set_all(); f::<0>() }
        empty { set_all(); f::<4>() }
        tuple { set_all(); f::<8>() }
    } }
    pub mod nested { use super::*; cases! { 5;
        nested { set_all(); f::<1>() }
        map_inside { set_all(); f::<2>() }
        deeper { set_all(); f::<7>() }
    } }
    pub mod wide { use super::*; cases! { 5;
        flat_wide { set_all(); g::<0>() }
        wide { set_all(); g::<6>() }
    } }
    pub mod declined { use super::*; cases! { 5;
        map { set_all(); h::<5>() }
        stopped { set_all(); h::<9>() }
    } }
    pub mod text { use super::*; cases! { 6;
        text {
            set_all();
            let b = ValueBag::from_sval2(&Shape::<3>);
            rd_borrowed(&b, &[Val::S(st::text(0, 5)), Val::S("")], Text::Borrowed);
            forget(b);
        }
        text_as_ints {
            set_all();
            let b = ValueBag::from_sval2(&Shape::<3>);
            rd_i64(&b, &[Val::S(st::text(0, 5)), Val::S("")]);
            forget(b);
        }
    } }
    #[cfg(not(kani))]
    pub fn table() -> Vec<(&'static str, fn())> { [flat::TABLE, nested::TABLE, wide::TABLE, declined::TABLE, text::TABLE].concat() }
}
#[cfg(feature = "serde1")]
pub mod serde {
    use super::*;
    use value_bag_serde1::lib::{ser::*, Serialize, Serializer};
    macro_rules! atoms {
        ($($n:ident = $s:ident => $e:expr, $v:expr;)*) => {$(
            struct $n;
            impl Serialize for $n {
                fn serialize<S: Serializer>(&self, $s: S) -> Result<S::Ok, S::Error> { $e }
            }
            impl Atom for $n {
                const A: Self = $n;
                fn val() -> Val { $v }
            }
        )*};
    }
    trait Atom: Serialize {
        const A: Self;
        fn val() -> Val;
    }
    atoms! {
        Null = s => s.serialize_none(), Val::None;
        First = s => s.serialize_u64(st::u64_at(0)), Val::U(st::u64_at(0));
        Second = s => s.serialize_u64(st::u64_at(1)), Val::U(st::u64_at(1));
        Signed = s => s.serialize_i64(st::i64()), Val::I(st::i64());
        Wide = s => s.serialize_u128(st::u128()), Val::BU(st::u128());
        Float = s => s.serialize_f64(st::f64()), Val::F(st::f64());
        Bool = s => s.serialize_bool(st::bool()), Val::B(st::bool());
        Char = s => s.serialize_char(st::char()), Val::C(st::char());
        Inner = s => { let q = s.serialize_seq(None)?; q.end() }, Val::Opaque;
        InnerMap = s => { let q = s.serialize_map(None)?; q.end() }, Val::Opaque;
    }
    pub struct Empty;
    impl Serialize for Empty {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let q = s.serialize_seq(None)?; q.end() }
    }
    pub struct One<A>(A);
    impl<A: Serialize> Serialize for One<A> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let mut q = s.serialize_seq(None)?; q.serialize_element(&self.0)?; q.end() }
    }
    pub struct Two<A, B>(A, B);
    impl<A: Serialize, B: Serialize> Serialize for Two<A, B> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let mut q = s.serialize_seq(None)?; q.serialize_element(&self.0)?; q.serialize_element(&self.1)?; q.end() }
    }
    pub struct Pair<A, B>(A, B);
    impl<A: Serialize, B: Serialize> Serialize for Pair<A, B> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let mut q = s.serialize_tuple(2)?; q.serialize_element(&self.0)?; q.serialize_element(&self.1)?; q.end() }
    }
    pub struct Map;
    impl Serialize for Map {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let mut q = s.serialize_map(None)?; q.serialize_entry(&First, &Inner)?; q.end() }
    }
    pub struct Stopped;
    impl Serialize for Stopped {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let mut q = s.serialize_seq(None)?; q.serialize_element(&First)?; Err(S::Error::custom("stopped")) }
    }
    fn one<A: Atom + 'static>(read: fn(&ValueBag, &[Val])) {
        let v = One(A::A);
        let b = ValueBag::from_serde1(&v);
        read(&b, &[A::val()]);
        forget(b);
    }
    fn two<A: Atom + 'static, B: Atom + 'static>(read: fn(&ValueBag, &[Val])) {
        let v = Two(A::A, B::A);
        let b = ValueBag::capture_serde1(&v);
        read(&b, &[A::val(), B::val()]);
        forget(b);
    }
    triples! {
        5 empty { set_all(); let b = ValueBag::from_serde1(&Empty); rd_u64(&b, &[]); rd_bool(&b, &[]); forget(b); }
        5 one_u64 { set_all(); one::<First>(rd_u64) }
        5 one_null { set_all(); one::<Null>(rd_u64) }
        5 one_seq { set_all(); one::<Inner>(rd_u64) }
        5 one_map { set_all(); one::<InnerMap>(rd_u64) }
        5 two_u64 { set_all(); two::<First, Second>(rd_u64) }
        5 seq_then_u64 { set_all(); two::<Inner, Second>(rd_u64) }
        5 map_then_u64 { set_all(); two::<InnerMap, Second>(rd_u64) }
        5 signed_null { set_all(); two::<Signed, Null>(rd_i64) }
        5 bool_char { set_all(); two::<Bool, Char>(rd_bool) }
        5 char_float { set_all(); two::<Char, Float>(rd_f64) }
        5 float_wide { set_all(); two::<Float, Wide>(rd_u128) }
        5 pair { set_all(); let v = Pair(First, Signed); let b = ValueBag::from_serde1(&v); rd_u64(&b, &[First::val(), Signed::val()]); forget(b); }
        5 map { set_all(); let b = ValueBag::capture_serde1(&Map); assert!(b.to_u64_seq::<Col<Option<u64>>>().is_none(), "not a sequence"); forget(b); }
        5 stopped { set_all(); let b = ValueBag::capture_serde1(&Stopped); assert!(b.to_u64_seq::<Col<Option<u64>>>().is_none(), "not a sequence"); forget(b); }
    }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut t = [u64s::TABLE, i64s::TABLE, u128s::TABLE, i128s::TABLE, f64s::TABLE, floats::TABLE, bools::TABLE, chars::TABLE, borrowed_strs::TABLE, wide::TABLE,
        filled::TABLE, by_ref::TABLE, converted::narrow::TABLE, converted::ints::TABLE, converted::wide_ints::TABLE, converted::others::TABLE, converted::text::TABLE,
        not_a_sequence::TABLE, not_a_primitive::TABLE].concat();
    #[cfg(feature = "alloc")]
    t.extend([converted::vecs::TABLE, strs::TABLE].concat());
    #[cfg(feature = "owned")]
    t.extend([owned::TABLE, shared::TABLE].concat());
    #[cfg(feature = "sval2")]
    t.extend(sval::table());
    #[cfg(feature = "serde1")]
    t.extend(serde::TABLE);
    t
}
