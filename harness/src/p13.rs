//! P13: formatting a value is formatting what it holds.
//!
//! Under the verifier the std implementations for primitives are replaced by ones
//! that record the value, the trait and the formatting options they were called with.
//! Natively the real text is compared.

use crate::{is_ok, nd, spec::*, src::*, st};
use std::{
    fmt::{self, Write as _},
    mem::forget,
};
use value_bag::{
    fill::{Fill, Slot},
    Error, ValueBag,
};

pub const DEBUG: u8 = 1;
pub const DISPLAY: u8 = 2;

/// The options of one formatting call
#[derive(Clone, Copy, PartialEq)]
pub struct Opts {
    width: Option<usize>,
    precision: Option<usize>,
    fill: char,
    align: u8,
    flags: (bool, bool, bool, bool),
}
impl Opts {
    fn of(f: &fmt::Formatter) -> Self {
        Opts {
            width: f.width(),
            precision: f.precision(),
            fill: f.fill(),
            align: match f.align() {
                None => 0,
                Some(fmt::Alignment::Left) => 1,
                Some(fmt::Alignment::Right) => 2,
                Some(fmt::Alignment::Center) => 3,
            },
            flags: (f.sign_plus(), f.sign_minus(), f.alternate(), f.sign_aware_zero_pad()),
        }
    }
}

/// The last thing formatted
#[derive(Clone, Copy)]
pub enum What {
    Nothing,
    Obj,
    Int(bool, u128),
    F(f64),
    B(bool),
    C(char),
    S(usize, u8),
}
#[derive(Clone, Copy)]
pub struct Call {
    what: What,
    tr: u8,
    opts: Opts,
}
const START: Call = Call { what: What::Nothing, tr: 0, opts: Opts { width: None, precision: None, fill: ' ', align: 0, flags: (false, false, false, false) } };
static mut LAST: Call = START;
static mut CALLS: u32 = 0;
static mut FAIL: bool = false;

fn record(what: What, tr: u8, f: &mut fmt::Formatter) -> fmt::Result {
    unsafe {
        LAST = Call { what, tr, opts: Opts::of(f) };
        CALLS += 1;
        if FAIL { return Err(fmt::Error); }
    }
    f.write_str("#")
}
fn reset(fail: bool) {
    unsafe {
        LAST = START;
        CALLS = 0;
        FAIL = fail;
    }
}
fn last() -> Call { unsafe { LAST } }
fn calls() -> u32 { unsafe { CALLS } }

#[cfg(kani)]
pub mod stub {
    use super::*;
    macro_rules! ints {
        ($($n:ident $m:ident $t:ty;)*) => { $(
            pub fn $n(v: &$t, f: &mut fmt::Formatter) -> fmt::Result { let neg = *v < (0 as $t); record(What::Int(neg, if neg { (*v as u128).wrapping_neg() } else { *v as u128 }), DEBUG, f) }
            pub fn $m(v: &$t, f: &mut fmt::Formatter) -> fmt::Result { let neg = *v < (0 as $t); record(What::Int(neg, if neg { (*v as u128).wrapping_neg() } else { *v as u128 }), DISPLAY, f) }
        )* };
    }
    ints! { u64_debug u64_display u64; i64_debug i64_display i64; u128_debug u128_display u128; i128_debug i128_display i128; }
    pub fn f64_debug(v: &f64, f: &mut fmt::Formatter) -> fmt::Result { record(What::F(*v), DEBUG, f) }
    pub fn f64_display(v: &f64, f: &mut fmt::Formatter) -> fmt::Result { record(What::F(*v), DISPLAY, f) }
    pub fn bool_debug(v: &bool, f: &mut fmt::Formatter) -> fmt::Result { record(What::B(*v), DEBUG, f) }
    pub fn bool_display(v: &bool, f: &mut fmt::Formatter) -> fmt::Result { record(What::B(*v), DISPLAY, f) }
    pub fn char_debug(v: &char, f: &mut fmt::Formatter) -> fmt::Result { record(What::C(*v), DEBUG, f) }
    pub fn char_display(v: &char, f: &mut fmt::Formatter) -> fmt::Result { record(What::C(*v), DISPLAY, f) }
    pub fn str_debug(v: &str, f: &mut fmt::Formatter) -> fmt::Result { record(What::S(v.len(), probed(v)), DEBUG, f) }
    pub fn str_display(v: &str, f: &mut fmt::Formatter) -> fmt::Result { record(What::S(v.len(), probed(v)), DISPLAY, f) }
}

/// Like `cases!`, with the formatting of primitives recorded
macro_rules! recorded {
    ($n:literal; $($name:ident $b:block)*) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($n))]
        #[cfg_attr(kani, kani::stub(std::any::TypeId::of, crate::stubs::type_id_of))]
        #[cfg_attr(kani, kani::stub(std::any::TypeId::eq, crate::stubs::type_id_eq))]
        #[cfg_attr(kani, kani::stub(std::fmt::Arguments::as_str, crate::stubs::arguments_as_str))]
        #[cfg_attr(kani, kani::stub(<u64 as std::fmt::Debug>::fmt, crate::p13::stub::u64_debug))]
        #[cfg_attr(kani, kani::stub(<u64 as std::fmt::Display>::fmt, crate::p13::stub::u64_display))]
        #[cfg_attr(kani, kani::stub(<i64 as std::fmt::Debug>::fmt, crate::p13::stub::i64_debug))]
        #[cfg_attr(kani, kani::stub(<i64 as std::fmt::Display>::fmt, crate::p13::stub::i64_display))]
        #[cfg_attr(kani, kani::stub(<u128 as std::fmt::Debug>::fmt, crate::p13::stub::u128_debug))]
        #[cfg_attr(kani, kani::stub(<u128 as std::fmt::Display>::fmt, crate::p13::stub::u128_display))]
        #[cfg_attr(kani, kani::stub(<i128 as std::fmt::Debug>::fmt, crate::p13::stub::i128_debug))]
        #[cfg_attr(kani, kani::stub(<i128 as std::fmt::Display>::fmt, crate::p13::stub::i128_display))]
        #[cfg_attr(kani, kani::stub(<f64 as std::fmt::Debug>::fmt, crate::p13::stub::f64_debug))]
        #[cfg_attr(kani, kani::stub(<f64 as std::fmt::Display>::fmt, crate::p13::stub::f64_display))]
        #[cfg_attr(kani, kani::stub(<bool as std::fmt::Debug>::fmt, crate::p13::stub::bool_debug))]
        #[cfg_attr(kani, kani::stub(<bool as std::fmt::Display>::fmt, crate::p13::stub::bool_display))]
        #[cfg_attr(kani, kani::stub(<char as std::fmt::Debug>::fmt, crate::p13::stub::char_debug))]
        #[cfg_attr(kani, kani::stub(<char as std::fmt::Display>::fmt, crate::p13::stub::char_display))]
        #[cfg_attr(kani, kani::stub(<str as std::fmt::Debug>::fmt, crate::p13::stub::str_debug))]
        #[cfg_attr(kani, kani::stub(<str as std::fmt::Display>::fmt, crate::p13::stub::str_display))]
        pub fn any() { pick_case!($($name $b)*) }
        #[cfg(not(kani))]
        pub const TABLE: crate::Table = &[(concat!(module_path!(), "::any"), any)];
    };
}
#[allow(unused)]
pub(crate) use recorded;
macro_rules! recorded_per_src {
    ($n:literal $f:ident) => {
        recorded! { $n;
            u64 { set::<U64>(); $f::<U64>() }
            i64 { set::<I64>(); $f::<I64>() }
            u128 { set::<U128>(); $f::<U128>() }
            i128 { set::<I128>(); $f::<I128>() }
            f64 { set::<F64>(); $f::<F64>() }
            bool { set::<BOOL>(); $f::<BOOL>() }
            char { set::<CHAR>(); $f::<CHAR>() }
            str { set::<STR>(); $f::<STR>() }
            str_empty { set::<STR_EMPTY>(); $f::<STR_EMPTY>() }
        }
    };
}

/// Format with trait `TR`, with no options (`FORM` 0) or arbitrary and fixed ones
fn write<const TR: u8, const FORM: u8, T: fmt::Debug + fmt::Display + ?Sized>(w: &mut dyn fmt::Write, v: &T, n: (usize, usize)) -> bool {
    is_ok(match (TR, FORM) {
        (DEBUG, 0) => write!(w, "{:?}", v),
        (DEBUG, 1) => write!(w, "{:*^+#0w$.p$?}", v, w = n.0, p = n.1),
        (DEBUG, _) => write!(w, "{:<w$?}", v, w = n.0),
        (_, 0) => write!(w, "{}", v),
        (_, 1) => write!(w, "{:*^+#0w$.p$}", v, w = n.0, p = n.1),
        (_, _) => write!(w, "{:<w$}", v, w = n.0),
    })
}
fn sizes() -> (usize, usize) {
    let n = (nd::u16(), nd::u16());
    // Natively the text is really produced
    if cfg!(kani) { (n.0 as usize, n.1 as usize) } else { (n.0 as usize % 50, n.1 as usize % 20) }
}

/// Notes the options it is formatted with
struct Note;
impl fmt::Debug for Note {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { record(What::Nothing, DEBUG, f) }
}
impl fmt::Display for Note {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { record(What::Nothing, DISPLAY, f) }
}
fn opts<const TR: u8, const FORM: u8>(n: (usize, usize)) -> Opts {
    reset(false);
    write::<TR, FORM, _>(&mut Wr::new(), &Note, n);
    last().opts
}

/// A captured object: formats by noting how it was asked to
struct Obj;
impl fmt::Debug for Obj {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { record(What::Obj, DEBUG, f) }
}
impl fmt::Display for Obj {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { record(What::Obj, DISPLAY, f) }
}
impl std::error::Error for Obj {}

fn held(w: What, v: Val) -> bool {
    match (w, v) {
        (What::Int(n, m), v) => int(v) == Some((n, m)),
        (What::F(a), Val::F(b)) => same_f64(a, b),
        (What::B(a), Val::B(b)) => a == b,
        (What::C(a), Val::C(b)) => a == b,
        (What::S(n, c), Val::S(e)) => n == e.len() && c == probed(e),
        _ => false,
    }
}

/// `b` formats as the primitive `v` would, under both traits and any options
fn as_primitive<T: fmt::Debug + fmt::Display>(b: &T, v: Val) {
    one::<DEBUG, 0, T>(b, v);
    one::<DEBUG, 1, T>(b, v);
    one::<DISPLAY, 0, T>(b, v);
    one::<DISPLAY, 1, T>(b, v);
}
#[cfg(kani)]
fn one<const TR: u8, const FORM: u8, T: fmt::Debug + fmt::Display>(b: &T, v: Val) {
    let n = sizes();
    let o = opts::<TR, FORM>(n);
    let fail = nd::bool();
    reset(fail);
    let mut w = Wr::new();
    let ok = write::<TR, FORM, T>(&mut w, b, n);
    let c = last();
    assert!(calls() == 1, "formatted once");
    assert!(held(c.what, v), "formatted the captured value");
    assert!(c.tr == TR, "formatted with the same trait");
    assert!(c.opts == o, "formatted with the same options");
    assert!(ok != fail, "the result of formatting is reported");
    assert!(w.n == if fail { 0 } else { 1 }, "nothing else is written");
}
#[cfg(not(kani))]
fn one<const TR: u8, const FORM: u8, T: fmt::Debug + fmt::Display>(b: &T, v: Val) {
    fn text<const TR: u8, const FORM: u8, T: fmt::Debug + fmt::Display + ?Sized>(v: &T, n: (usize, usize)) -> String {
        let mut s = String::new();
        write::<TR, FORM, T>(&mut s, v, n);
        s
    }
    let n = sizes();
    let _ = nd::bool();
    let expected = match v {
        Val::U(v) => text::<TR, FORM, _>(&v, n),
        Val::I(v) => text::<TR, FORM, _>(&v, n),
        Val::BU(v) => text::<TR, FORM, _>(&v, n),
        Val::BI(v) => text::<TR, FORM, _>(&v, n),
        Val::F(v) => text::<TR, FORM, _>(&v, n),
        Val::B(v) => text::<TR, FORM, _>(&v, n),
        Val::C(v) => text::<TR, FORM, _>(&v, n),
        Val::S(v) => text::<TR, FORM, _>(v, n),
        _ => unreachable!(),
    };
    assert!(text::<TR, FORM, T>(b, n) == expected, "formats as the captured value does");
}

/// `b` formats as `Obj` does under the trait expected for each trait
fn as_object<T: fmt::Debug + fmt::Display>(b: &T, on_debug: u8, on_display: u8) {
    object::<DEBUG, 0, T>(b, on_debug);
    object::<DEBUG, 1, T>(b, on_debug);
    object::<DISPLAY, 0, T>(b, on_display);
    object::<DISPLAY, 1, T>(b, on_display);
}
fn object<const TR: u8, const FORM: u8, T: fmt::Debug + fmt::Display>(b: &T, tr: u8) {
    let n = sizes();
    let o = opts::<TR, FORM>(n);
    let fail = nd::bool();
    reset(fail);
    let mut w = Wr::new();
    let ok = write::<TR, FORM, T>(&mut w, b, n);
    let c = last();
    assert!(calls() == 1 && matches!(c.what, What::Obj), "the object is formatted once");
    assert!(c.tr == tr, "the object is formatted with the right trait");
    assert!(c.opts == o, "the object is formatted with the same options");
    assert!(ok != fail, "the result of formatting is reported");
    assert!(w.n == if fail { 0 } else { 1 }, "nothing else is written");
}

pub mod primitive {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        as_primitive(&b, val::<K>());
        forget(b);
    }
    recorded_per_src! { 6 f }
}
/// Through a deferred value
pub mod filled {
    use super::*;
    fn f<const K: u8>() {
        let b = ValueBag::from_fill(&Src::<K>);
        as_primitive(&b, val::<K>());
        forget(b);
    }
    recorded_per_src! { 6 f }
}
pub mod by_ref {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let r = b.by_ref();
        let c = r.clone();
        as_primitive(&c, val::<K>());
        forget((c, r));
        forget(b);
    }
    recorded_per_src! { 6 f }
}
#[cfg(feature = "owned")]
pub mod owned {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let o = b.to_owned();
        as_primitive(&o, val::<K>());
        let r = o.by_ref();
        as_primitive(&r, val::<K>());
        forget(r);
        forget((b, o));
    }
    recorded_per_src! { 6 f }
}
#[cfg(feature = "owned")]
pub mod shared {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let o = b.to_shared();
        as_primitive(&o, val::<K>());
        forget((b, o));
    }
    recorded_per_src! { 6 f }
    pub mod object {
        use super::super::*;
        cases! { 6;
            debug { let o = ValueBag::capture_shared_debug(Obj); as_object(&o, DEBUG, DEBUG); forget(o) }
            display { let o = ValueBag::capture_shared_display(Obj); as_object(&o, DISPLAY, DISPLAY); forget(o) }
        }
    }
}

pub mod object {
    use super::*;
    struct Way<const W: u8>;
    impl<const W: u8> Fill for Way<W> {
        fn fill(&self, s: Slot) -> Result<(), Error> {
            match W {
                0 => s.fill_debug(Obj),
                1 => s.fill_display(Obj),
                2 => s.fill_any(ValueBag::from_debug(&Obj)),
                _ => s.fill_any(ValueBag::from_display(&Obj)),
            }
        }
    }
    cases! { 6;
        capture_debug { let b = ValueBag::capture_debug(&Obj); as_object(&b, DEBUG, DEBUG); forget(b) }
        capture_display { let b = ValueBag::capture_display(&Obj); as_object(&b, DISPLAY, DISPLAY); forget(b) }
        from_debug { let b = ValueBag::from_debug(&Obj); as_object(&b, DEBUG, DEBUG); forget(b) }
        from_display { let b = ValueBag::from_display(&Obj); as_object(&b, DISPLAY, DISPLAY); forget(b) }
        from_dyn_debug { let b = ValueBag::from_dyn_debug(&Obj); as_object(&b, DEBUG, DEBUG); forget(b) }
        from_dyn_display { let b = ValueBag::from_dyn_display(&Obj); as_object(&b, DISPLAY, DISPLAY); forget(b) }
        fill_debug { let b = ValueBag::from_fill(&Way::<0>); as_object(&b, DEBUG, DEBUG); forget(b) }
        fill_display { let b = ValueBag::from_fill(&Way::<1>); as_object(&b, DISPLAY, DISPLAY); forget(b) }
        fill_any_debug { let b = ValueBag::from_fill(&Way::<2>); as_object(&b, DEBUG, DEBUG); forget(b) }
        fill_any_display { let b = ValueBag::from_fill(&Way::<3>); as_object(&b, DISPLAY, DISPLAY); forget(b) }
        by_ref_debug { let b = ValueBag::capture_debug(&Obj); let r = b.by_ref(); as_object(&r, DEBUG, DEBUG); forget(r); forget(b) }
        by_ref_display { let b = ValueBag::capture_display(&Obj); let r = b.by_ref(); as_object(&r, DISPLAY, DISPLAY); forget(r); forget(b) }
    }
}

#[cfg(feature = "error")]
pub mod error {
    use super::*;
    cases! { 6;
        captured { let b = ValueBag::capture_error(&Obj); as_object(&b, DEBUG, DISPLAY); forget(b) }
        from_dyn { let b = ValueBag::from_dyn_error(&Obj); as_object(&b, DEBUG, DISPLAY); forget(b) }
    }
    #[cfg(feature = "owned")]
    pub mod shared {
        use super::super::*;
        triples! {
            6 captured { let o = ValueBag::capture_shared_error(Obj); as_object(&o, DEBUG, DISPLAY); forget(o) }
        }
    }
}

/// A writer that refuses everything
struct Refuse;
impl fmt::Write for Refuse {
    fn write_str(&mut self, _: &str) -> fmt::Result { Err(fmt::Error) }
}
pub mod others {
    use super::*;
    fn none<const TR: u8>() {
        st::set_text(4);
        let b = ValueBag::empty();
        let mut w = Wr::new();
        assert!(write::<TR, 0, _>(&mut w, &b, (0, 0)), "the empty value formats");
        assert!(w.wrote("None"), "the empty value formats as None");
        assert!(!write::<TR, 0, _>(&mut Refuse, &b, (0, 0)), "a failing writer is reported");
        forget(b);
    }
    fn refused<const TR: u8>() {
        st::set_text(4);
        let b = ValueBag::from_debug(&Formatted);
        assert!(!write::<TR, 0, _>(&mut Refuse, &b, (0, 0)), "a failing writer is reported");
        forget(b);
        let b = ValueBag::from_display(&Formatted);
        assert!(!write::<TR, 0, _>(&mut Refuse, &b, (0, 0)), "a failing writer is reported");
        forget(b);
    }
    fn failing<const TR: u8>() {
        let b = ValueBag::from_fill(&Src::<{ crate::src::FAIL }>);
        assert!(!write::<TR, 0, _>(&mut Wr::new(), &b, (0, 0)), "a failing filler is reported");
        forget(b);
    }
    cases! { 6;
        none_debug { none::<DEBUG>() }
        none_display { none::<DISPLAY>() }
        refused_debug { refused::<DEBUG>() }
        refused_display { refused::<DISPLAY>() }
        failing_debug { failing::<DEBUG>() }
        failing_display { failing::<DISPLAY>() }
    }
}

#[cfg(feature = "seq")]
pub mod seq {
    use super::*;
    pub struct List<const N: usize>;
    impl<const N: usize> AsRef<[u64]> for List<N> {
        fn as_ref(&self) -> &[u64] { st::u64s(N) }
    }
    /// The list of its elements
    fn f<const N: usize, const TR: u8>() {
        st::set_u64s();
        let b = ValueBag::from_seq_slice::<List<N>, u64>(&List::<N>);
        let mut w = Wr::new();
        reset(false);
        let ok = write::<TR, 0, _>(&mut w, &b, (0, 0));
        assert!(ok, "formats");
        #[cfg(kani)]
        {
            assert!(calls() == N as u32, "every element is formatted once");
            if N > 0 { assert!(held(last().what, Val::U(st::u64_at(N - 1))), "the last element is formatted last"); }
            assert!(w.n == [2, 3, 6, 9][N], "brackets and separators");
        }
        forget(b);
    }
    recorded! { 4;
        empty { f::<0, DEBUG>() }
        one { f::<1, DEBUG>() }
        two { f::<2, DEBUG>() }
        two_display { f::<2, DISPLAY>() }
    }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut t = [primitive::TABLE, filled::TABLE, by_ref::TABLE, object::TABLE, others::TABLE].concat();
    #[cfg(feature = "owned")]
    t.extend([owned::TABLE, shared::TABLE, shared::object::TABLE].concat());
    #[cfg(feature = "error")]
    t.extend(error::TABLE);
    #[cfg(all(feature = "error", feature = "owned"))]
    t.extend(error::shared::TABLE);
    #[cfg(feature = "seq")]
    t.extend(seq::TABLE);
    t
}
