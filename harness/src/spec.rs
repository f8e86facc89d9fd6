//! The specification of reads: what each accessor must answer for each captured value.

use value_bag::ValueBag;

#[derive(Clone, Copy)]
pub enum Val {
    None,
    U(u64),
    I(i64),
    BU(u128),
    BI(i128),
    F(f64),
    B(bool),
    C(char),
    S(&'static str),
    /// Anything that isn't a primitive: nothing can be read from it
    Opaque,
}

/// The sign and magnitude of an integer
pub fn int(v: Val) -> Option<(bool, u128)> {
    Some(match v {
        Val::U(v) => (false, v as u128),
        Val::BU(v) => (false, v),
        Val::I(v) => (v < 0, v.unsigned_abs() as u128),
        Val::BI(v) => (v < 0, v.unsigned_abs()),
        _ => return None,
    })
}

pub fn u64_of(v: Val) -> Option<u64> {
    match int(v) {
        Some((false, m)) if m <= 0xFFFF_FFFF_FFFF_FFFF => Some(m as u64),
        _ => None,
    }
}
pub fn i64_of(v: Val) -> Option<i64> {
    match int(v) {
        Some((false, m)) if m <= 0x7FFF_FFFF_FFFF_FFFF => Some(m as i64),
        Some((true, m)) if m <= 0x8000_0000_0000_0000 => Some((m as u64).wrapping_neg() as i64),
        _ => None,
    }
}
pub fn u128_of(v: Val) -> Option<u128> {
    match int(v) {
        Some((false, m)) => Some(m),
        _ => None,
    }
}
pub fn i128_of(v: Val) -> Option<i128> {
    match int(v) {
        Some((false, m)) if m >> 127 == 0 => Some(m as i128),
        Some((true, m)) => Some(m.wrapping_neg() as i128),
        _ => None,
    }
}
/// An integer fits when it's in the 32-bit range of its captured signedness
pub fn f64_of(v: Val) -> Option<f64> {
    match v {
        Val::F(v) => Some(v),
        Val::U(_) | Val::BU(_) => match int(v) {
            Some((_, m)) if m <= 0xFFFF_FFFF => Some(m as u32 as f64),
            _ => None,
        },
        Val::I(_) | Val::BI(_) => match int(v) {
            Some((false, m)) if m <= 0x7FFF_FFFF => Some(m as u32 as f64),
            Some((true, m)) if m <= 0x8000_0000 => Some(-(m as u32 as f64)),
            _ => None,
        },
        _ => None,
    }
}
pub fn as_f64_of(v: Val) -> f64 {
    match v {
        Val::F(v) => v,
        Val::U(v) => v as f64,
        Val::BU(v) => v as f64,
        Val::I(v) => v as f64,
        Val::BI(v) => v as f64,
        _ => f64::NAN,
    }
}
pub fn bool_of(v: Val) -> Option<bool> { if let Val::B(b) = v { Some(b) } else { None } }
pub fn char_of(v: Val) -> Option<char> { if let Val::C(c) = v { Some(c) } else { None } }

/// Floats are the same when they're equal or both not a number
pub fn same_f64(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a != a && b != b) }
pub fn same_opt_f64(a: Option<f64>, b: Option<f64>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => same_f64(a, b),
        (None, None) => true,
        _ => false,
    }
}
/// The same slice: address and length
pub fn same_str(a: &str, b: &str) -> bool { a.as_ptr() == b.as_ptr() && a.len() == b.len() }
/// The same bytes: length, and the byte at the arbitrary probed position
pub fn equal_text(a: &str, b: &str) -> bool {
    let k = crate::st::probe();
    a.len() == b.len() && (k >= a.len() || a.as_bytes()[k] == b.as_bytes()[k])
}

/// How captured text comes back
#[derive(Clone, Copy, PartialEq)]
pub enum Text {
    /// As the captured slice itself
    Same,
    /// Borrowed from a copy
    Borrowed,
    /// Only as an owned string
    Owned,
}

/// Every read of `b` must answer as the captured value `v` requires
pub fn reads(b: &ValueBag, v: Val, t: Text) {
    reads_num(b, v);
    reads_other(b, v, t);
}

pub fn reads_num(b: &ValueBag, v: Val) {
    assert!(b.to_u64() == u64_of(v), "u64 read");
    assert!(b.to_i64() == i64_of(v), "i64 read");
    assert!(b.to_u128() == u128_of(v), "u128 read");
    assert!(b.to_i128() == i128_of(v), "i128 read");
    assert!(same_opt_f64(b.to_f64(), f64_of(v)), "f64 read");
    assert!(same_f64(b.as_f64(), as_f64_of(v)), "lenient f64 read");
}

pub fn reads_other(b: &ValueBag, v: Val, t: Text) {
    assert!(b.to_bool() == bool_of(v), "bool read");
    assert!(b.to_char() == char_of(v), "char read");
    match (b.to_borrowed_str(), v) {
        (Some(s), Val::S(e)) => match t {
            Text::Same => assert!(same_str(s, e), "text read by reference"),
            Text::Borrowed => assert!(equal_text(s, e), "text read by reference"),
            Text::Owned => assert!(false, "short-lived text read by reference"),
        },
        (None, Val::S(_)) => assert!(t == Text::Owned, "text not readable by reference"),
        (Some(_), _) => assert!(false, "text read from something else"),
        (None, _) => (),
    }
    #[cfg(feature = "alloc")]
    {
        let r = b.to_str();
        match (&r, v) {
            (Some(s), Val::S(e)) => {
                assert!(equal_text(s, e), "text read");
                assert!(matches!(s, std::borrow::Cow::Owned(_)) == (t == Text::Owned), "text borrowing");
            }
            (None, Val::S(_)) => assert!(false, "text not readable"),
            (Some(_), _) => assert!(false, "text read from something else"),
            (None, _) => (),
        }
        std::mem::forget(r);
    }
}

/// Emptiness is reported exactly for the empty value
pub fn empties(b: &ValueBag, v: Val) {
    assert!(b.is_empty() == matches!(v, Val::None), "emptiness");
}

/// Formats without being anything else
pub struct Formatted;
impl std::fmt::Debug for Formatted {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(crate::st::text(0, 3)) }
}
impl std::fmt::Display for Formatted {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(crate::st::text(8, 4)) }
}

/// The value constructed directly from a captured value
pub fn bag(v: Val) -> ValueBag<'static> {
    match v {
        Val::None => ValueBag::empty(),
        Val::U(v) => ValueBag::from_u64(v),
        Val::I(v) => ValueBag::from_i64(v),
        #[cfg(not(feature = "inline-i128"))]
        Val::BU(_) => ValueBag::from_u128_ref(crate::st::u128_ref()),
        #[cfg(not(feature = "inline-i128"))]
        Val::BI(_) => ValueBag::from_i128_ref(crate::st::i128_ref()),
        #[cfg(feature = "inline-i128")]
        Val::BU(v) => ValueBag::from_u128(v),
        #[cfg(feature = "inline-i128")]
        Val::BI(v) => ValueBag::from_i128(v),
        Val::F(v) => ValueBag::from_f64(v),
        Val::B(v) => ValueBag::from_bool(v),
        Val::C(v) => ValueBag::from_char(v),
        Val::S(v) => ValueBag::from_str(v),
        Val::Opaque => ValueBag::from_debug(&Formatted),
    }
}

/// What a visitor was handed
pub struct Rec {
    pub calls: u32,
    pub seen: Seen,
    pub fail: bool,
}
#[derive(Clone, Copy)]
pub enum Seen {
    Nothing,
    Val(Val),
    /// Address, length and probed byte
    Str(*const u8, usize, u8),
    BorrowedStr(*const u8, usize, u8),
    Error(*const u8),
    BorrowedError(*const u8),
    Any,
}
impl Rec {
    pub fn new(fail: bool) -> Self { Rec { calls: 0, seen: Seen::Nothing, fail } }
    fn see(&mut self, s: Seen) -> Result<(), value_bag::Error> {
        self.calls += 1;
        self.seen = s;
        if self.fail { Err(value_bag::Error::msg("failed by the visitor")) } else { Ok(()) }
    }
}
pub fn probed(s: &str) -> u8 {
    let k = crate::st::probe();
    if k < s.len() { s.as_bytes()[k] } else { 0 }
}
impl<'v> value_bag::visit::Visit<'v> for Rec {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), value_bag::Error> { self.see(Seen::Any) }
    fn visit_empty(&mut self) -> Result<(), value_bag::Error> { self.see(Seen::Val(Val::None)) }
    fn visit_u64(&mut self, v: u64) -> Result<(), value_bag::Error> { self.see(Seen::Val(Val::U(v))) }
    fn visit_i64(&mut self, v: i64) -> Result<(), value_bag::Error> { self.see(Seen::Val(Val::I(v))) }
    fn visit_u128(&mut self, v: u128) -> Result<(), value_bag::Error> { self.see(Seen::Val(Val::BU(v))) }
    fn visit_i128(&mut self, v: i128) -> Result<(), value_bag::Error> { self.see(Seen::Val(Val::BI(v))) }
    fn visit_f64(&mut self, v: f64) -> Result<(), value_bag::Error> { self.see(Seen::Val(Val::F(v))) }
    fn visit_bool(&mut self, v: bool) -> Result<(), value_bag::Error> { self.see(Seen::Val(Val::B(v))) }
    fn visit_char(&mut self, v: char) -> Result<(), value_bag::Error> { self.see(Seen::Val(Val::C(v))) }
    fn visit_str(&mut self, v: &str) -> Result<(), value_bag::Error> { self.see(Seen::Str(v.as_ptr(), v.len(), probed(v))) }
    fn visit_borrowed_str(&mut self, v: &'v str) -> Result<(), value_bag::Error> {
        self.see(Seen::BorrowedStr(v.as_ptr(), v.len(), probed(v)))
    }
    #[cfg(feature = "error")]
    fn visit_error(&mut self, e: &(dyn std::error::Error + 'static)) -> Result<(), value_bag::Error> {
        self.see(Seen::Error(e as *const dyn std::error::Error as *const u8))
    }
    #[cfg(feature = "error")]
    fn visit_borrowed_error(&mut self, e: &'v (dyn std::error::Error + 'static)) -> Result<(), value_bag::Error> {
        self.see(Seen::BorrowedError(e as *const dyn std::error::Error as *const u8))
    }
}

/// Whether the visitor saw the captured value as its own kind
pub fn saw(s: Seen, v: Val, t: Text) -> bool {
    match (s, v) {
        (Seen::Val(Val::None), Val::None) => true,
        (Seen::Val(Val::U(a)), Val::U(b)) => a == b,
        (Seen::Val(Val::I(a)), Val::I(b)) => a == b,
        (Seen::Val(Val::BU(a)), Val::BU(b)) => a == b,
        (Seen::Val(Val::BI(a)), Val::BI(b)) => a == b,
        (Seen::Val(Val::F(a)), Val::F(b)) => same_f64(a, b),
        (Seen::Val(Val::B(a)), Val::B(b)) => a == b,
        (Seen::Val(Val::C(a)), Val::C(b)) => a == b,
        (Seen::BorrowedStr(p, n, c), Val::S(e)) => match t {
            Text::Same => p == e.as_ptr() && n == e.len(),
            Text::Borrowed => n == e.len() && c == probed(e),
            Text::Owned => false,
        },
        (Seen::Str(_, n, c), Val::S(e)) => t == Text::Owned && n == e.len() && c == probed(e),
        (Seen::Any, Val::Opaque) => true,
        _ => false,
    }
}

/// Visiting makes one callback, the right one, and returns what it returned
pub fn visits(b: &ValueBag, v: Val, t: Text) {
    let fail = crate::nd::bool();
    let mut r = Rec::new(fail);
    let ok = crate::is_ok(b.visit(&mut r));
    assert!(r.calls == 1, "exactly one callback");
    assert!(saw(r.seen, v, t), "the right callback with the captured value");
    assert!(ok != fail, "the visitor's result is the visit's result");
}

/// A writer that keeps the length and the probed byte
pub struct Wr {
    pub n: usize,
    pub got: u8,
}
impl Wr {
    pub fn new() -> Self { Wr { n: 0, got: 0 } }
    /// The text written so far is `s`
    pub fn wrote(&self, s: &str) -> bool { self.n == s.len() && self.got == probed(s) }
}
impl std::fmt::Write for Wr {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let k = crate::st::probe();
        if k >= self.n && k < self.n + s.len() {
            self.got = s.as_bytes()[k - self.n];
        }
        self.n += s.len();
        Ok(())
    }
}

/// Every kind of captured value through `$f(v)`, one triple per kind
macro_rules! per_kind {
    ($n:literal $f:expr) => {
        cases! { $n;
            none { ($f)(Val::None) }
            u64 { ($f)(Val::U(st::set_u64())) }
            i64 { ($f)(Val::I(st::set_i64())) }
            u128 { ($f)(Val::BU(st::set_u128())) }
            i128 { ($f)(Val::BI(st::set_i128())) }
            f64 { ($f)(Val::F(st::set_f64())) }
            bool { ($f)(Val::B(st::set_bool())) }
            char { ($f)(Val::C(st::set_char())) }
            str { st::set_text(5); ($f)(Val::S(st::text(0, 5))) }
            str_empty { st::set_text(5); ($f)(Val::S(st::text(3, 0))) }
            opaque { st::set_text(4); ($f)(Val::Opaque) }
        }
    };
}
pub(crate) use per_kind;
