//! Inputs held in statics.
//!
//! Captured objects are zero-sized types that read these, so the verifier never
//! has to read an input through a pointer it has lost track of.

use crate::nd;

pub const TXT: usize = 96;

static mut U64: [u64; 4] = [0; 4];
static mut I64: i64 = 0;
static mut U128: u128 = 0;
static mut I128: i128 = 0;
static mut F64: f64 = 0.0;
static mut BOOL: bool = false;
static mut CHAR: char = '\0';
static mut BYTES: [u8; TXT] = [0; TXT];
static mut PROBE: usize = 0;

macro_rules! get_set {
    ($($get:ident $set:ident $S:ident $t:ty;)*) => { $(
        pub fn $get() -> $t { unsafe { $S } }
        pub fn $set() -> $t { let v = nd::$get(); unsafe { $S = v }; v }
    )* };
}
get_set! {
    i64 set_i64 I64 i64;
    u128 set_u128 U128 u128;
    i128 set_i128 I128 i128;
    f64 set_f64 F64 f64;
    bool set_bool BOOL bool;
    char set_char CHAR char;
}
pub fn u64() -> u64 { unsafe { U64[0] } }
pub fn u64_at(i: usize) -> u64 { unsafe { U64[i] } }
pub fn set_u64() -> u64 { let v = nd::u64(); unsafe { U64[0] = v }; v }
pub fn set_u64s() { unsafe { U64[0] = nd::u64(); U64[1] = nd::u64(); U64[2] = nd::u64(); U64[3] = nd::u64(); } }
pub fn u64s(n: usize) -> &'static [u64] { unsafe { std::slice::from_raw_parts(&raw const U64 as *const u64, n) } }
pub fn u128_ref() -> &'static u128 { unsafe { &*(&raw const U128) } }
pub fn i128_ref() -> &'static i128 { unsafe { &*(&raw const I128) } }

/// Fill the text bytes, and pick an arbitrary position below `n` to look at
pub fn set_text(n: usize) {
    let b = nd::bytes::<TXT>();
    let k = nd::u8() as usize;
    nd::assume(k < n);
    unsafe {
        BYTES = b;
        PROBE = k;
    }
    nd::assume(byte(k) < 0x80);
}
pub fn set_probe(n: usize) {
    let k = nd::u8() as usize;
    nd::assume(k < n);
    unsafe { PROBE = k }
}
pub fn byte(i: usize) -> u8 { unsafe { BYTES[i] } }
pub fn probe() -> usize { unsafe { PROBE } }
pub fn text(off: usize, n: usize) -> &'static str {
    unsafe {
        let p = &raw const BYTES as *const u8;
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(p.add(off), n))
    }
}
static mut KEPT: [u8; TXT] = [0; TXT];
/// Change every input after it has been captured, keeping a copy of the text
pub fn scribble() {
    unsafe {
        KEPT = BYTES;
        BYTES = [b'#'; TXT];
        U64 = [1; 4];
        U128 = 1;
        I128 = 1;
    }
}
/// The text as it was before the last change
pub fn kept(off: usize, n: usize) -> &'static str {
    unsafe {
        let p = &raw const KEPT as *const u8;
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(p.add(off), n))
    }
}
