//! Input values: symbolic under the verifier, recorded or random in a replay.

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 { kani::any() }
    pub fn u16() -> u16 { kani::any() }
    pub fn u32() -> u32 { kani::any() }
    pub fn u64() -> u64 { kani::any() }
    pub fn u128() -> u128 { kani::any() }
    pub fn bytes<const N: usize>() -> [u8; N] { kani::any() }
    pub fn assume(b: bool) { kani::assume(b) }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;

    pub enum Source {
        /// Values recorded from the verifier's counterexample, in call order
        Tape(Vec<Vec<u8>>, usize),
        /// Boundary-biased pseudo-random values
        Random(u64),
    }

    pub struct Skip;

    thread_local! {
        static SRC: RefCell<Source> = const { RefCell::new(Source::Random(1)) };
        static LOG: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
    }

    pub fn set(s: Source) {
        SRC.with(|c| *c.borrow_mut() = s);
        LOG.with(|c| c.borrow_mut().clear());
    }

    pub fn log() -> Vec<Vec<u8>> { LOG.with(|c| c.borrow().clone()) }

    fn next(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    fn scalar(n: usize) -> u128 {
        let v = SRC.with(|c| match &mut *c.borrow_mut() {
            Source::Tape(t, i) => {
                let mut v = 0u128;
                if let Some(e) = t.get(*i) {
                    for (k, b) in e.iter().take(16).enumerate() { v |= (*b as u128) << (8 * k); }
                }
                *i += 1;
                v
            }
            Source::Random(s) => {
                let bits = 8 * n as u32;
                let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
                let r = ((next(s) as u128) << 64) | next(s) as u128;
                let k = next(s) % bits as u64;
                let near = 1u128 << k;
                let v = match next(s) % 10 {
                    0 => 0,
                    1 => mask,
                    2 => near,
                    3 => near.wrapping_sub(1),
                    4 => near.wrapping_add(1),
                    5 => near.wrapping_neg(),
                    6 => near.wrapping_neg().wrapping_sub(1),
                    7 => next(s) as u128 % 130,
                    8 => r >> k,
                    _ => r,
                };
                v & mask
            }
        });
        LOG.with(|c| c.borrow_mut().push(v.to_le_bytes()[..n].to_vec()));
        v
    }

    pub fn u8() -> u8 { scalar(1) as u8 }
    pub fn u16() -> u16 { scalar(2) as u16 }
    pub fn u32() -> u32 { scalar(4) as u32 }
    pub fn u64() -> u64 { scalar(8) as u64 }
    pub fn u128() -> u128 { scalar(16) }

    pub fn bytes<const N: usize>() -> [u8; N] {
        // The verifier records one entry per array element
        let mut r = [0; N];
        for b in r.iter_mut() { *b = (scalar(1) as u8) & 0x7f; }
        r
    }

    pub fn assume(b: bool) {
        if !b { std::panic::panic_any(Skip) }
    }
}

pub use imp::*;

/// Below `n`
pub fn pick(n: u8) -> u8 {
    let k = u8();
    #[cfg(kani)]
    kani::assume(k < n);
    k % n
}
pub fn bool() -> bool { let v = u8(); assume(v < 2); v == 1 }
pub fn i8() -> i8 { u8() as i8 }
pub fn i16() -> i16 { u16() as i16 }
pub fn i32() -> i32 { u32() as i32 }
pub fn i64() -> i64 { u64() as i64 }
pub fn i128() -> i128 { u128() as i128 }
pub fn usize() -> usize { u64() as usize }
pub fn isize() -> isize { u64() as isize }
pub fn f32() -> f32 { f32::from_bits(u32()) }
pub fn f64() -> f64 { f64::from_bits(u64()) }
pub fn char() -> char {
    let v = u32();
    assume(v < 0xD800 || (v > 0xDFFF && v <= 0x10FFFF));
    unsafe { char::from_u32_unchecked(v) }
}
