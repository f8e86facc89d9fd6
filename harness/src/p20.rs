//! P20: unsafe code stays within bounds and types.
//!
//! The verifier's own memory obligations are part of every case here.

use crate::{nd, spec::*, st};
use std::{
    fmt::{self, Write},
    mem::forget,
};
use value_bag::ValueBag;

fn kept(b: ValueBag, v: Val) {
    reads_num(&b, v);
    assert!(same(b.to_bool(), if let Val::B(b) = v { Some(b) } else { None }), "bool");
    assert!(same(b.to_char(), if let Val::C(c) = v { Some(c) } else { None }), "char");
    forget(b);
}
fn same<T: PartialEq>(a: Option<T>, b: Option<T>) -> bool { a == b }

/// Each capturable type is only ever read as itself
pub mod typed {
    use super::*;
    macro_rules! types {
        ($m:ident $($t:ident $v:ident $c:ty, $some:ident $none:ident;)*) => {
            pub mod $m {
                use super::*;
                cases! { 2;
                    $($t { let x = nd::$t(); kept(ValueBag::try_capture(&x).unwrap(), Val::$v(x as $c)) }
                    $some { let x = Some(nd::$t()); kept(ValueBag::try_capture(&x).unwrap(), Val::$v(x.unwrap() as $c)) }
                    $none { let x: Option<$t> = None; kept(ValueBag::try_capture(&x).unwrap(), Val::None) })*
                }
            }
        };
    }
    types! { unsigned
        u8 U u64, some_u8 none_u8;
        u16 U u64, some_u16 none_u16;
        u32 U u64, some_u32 none_u32;
        u64 U u64, some_u64 none_u64;
        usize U u64, some_usize none_usize;
        u128 BU u128, some_u128 none_u128;
    }
    types! { signed
        i8 I i64, some_i8 none_i8;
        i16 I i64, some_i16 none_i16;
        i32 I i64, some_i32 none_i32;
        i64 I i64, some_i64 none_i64;
        isize I i64, some_isize none_isize;
        i128 BI i128, some_i128 none_i128;
    }
    types! { others
        f32 F f64, some_f32 none_f32;
        f64 F f64, some_f64 none_f64;
        bool B bool, some_bool none_bool;
        char C char, some_char none_char;
    }
}

/// Types of the size and layout of a capturable one aren't captured as it
pub mod untyped {
    use super::*;
    #[repr(transparent)]
    #[derive(Clone, Copy)]
    struct Like<T>(T);
    macro_rules! like {
        ($($t:ident $a:ident)*) => {
            cases! { 2;
                $($t { let x = Like(nd::$t()); assert!(ValueBag::try_capture(&x).is_none(), "not captured") }
                $a { let x = [nd::$t()]; assert!(ValueBag::try_capture(&x).is_none(), "not captured") })*
                str { st::set_text(4); let x = Like(st::text(0, 4)); assert!(ValueBag::try_capture(&x).is_none(), "not captured") }
                boxed { let x: &'static [u8] = st::text(0, 4).as_bytes(); assert!(ValueBag::try_capture(&x).is_none(), "not captured") }
                slice { let x: &'static [u8] = st::text(0, 4).as_bytes(); assert!(ValueBag::try_capture::<[u8]>(x).is_none(), "not captured") }
                none { let x: Option<Like<u64>> = None; assert!(ValueBag::try_capture(&x).is_none(), "not captured") }
            }
        };
    }
    like! { u8 u8s u32 u32s u64 u64s i64 i64s u128 u128s i128 i128s f64 f64s bool bools char chars }
}

/// A sequence is borrowed for exactly its elements
#[cfg(feature = "seq")]
pub mod seq {
    use super::*;
    /// Keeps the number of elements, and the value of the probed one
    struct Col;
    static mut N: usize = 0;
    static mut AT: usize = 0;
    static mut GOT: Option<u64> = None;
    impl Default for Col {
        fn default() -> Self { Col }
    }
    impl Extend<Option<u64>> for Col {
        fn extend<I: IntoIterator<Item = Option<u64>>>(&mut self, i: I) {
            for v in i {
                unsafe {
                    if N == AT { GOT = v }
                    N += 1;
                }
            }
        }
    }
    struct Short(usize);
    impl AsRef<[u64]> for Short {
        fn as_ref(&self) -> &[u64] { st::u64s(self.0) }
    }
    fn f(b: ValueBag, n: usize, at: impl Fn(usize) -> u64) {
        let k = nd::u8() as usize;
        nd::assume(k < 4);
        unsafe { (N, AT, GOT) = (0, k, None) }
        assert!(b.to_u64_seq::<Col>().is_some(), "a sequence");
        unsafe {
            assert!(N == n, "every element");
            assert!(if k < n { GOT == Some(at(k)) } else { GOT.is_none() }, "the element");
        }
        forget(b);
    }
    pub mod lengths {
        use super::*;
        cases! { 6;
            any { st::set_u64s(); let n = nd::u8() as usize; nd::assume(n <= 4); f(ValueBag::from_seq_slice::<Short, u64>(&Short(n)), n, st::u64_at) }
        }
    }
    pub mod inline {
        use super::*;
        cases! { 6;
            one { let x = [nd::u64()]; f(ValueBag::from_seq_slice::<_, u64>(&x), 1, |i| x[i]) }
            four { let x = [nd::u64(), nd::u64(), nd::u64(), nd::u64()]; f(ValueBag::from_seq_slice::<_, u64>(&x), 4, |i| x[i]) }
            slice { let x = [nd::u64(), nd::u64(), nd::u64()]; let s = &x[1..]; f(ValueBag::from_seq_slice::<_, u64>(&s), 2, |i| x[i + 1]) }
            bytes { let x = [nd::u8(), nd::u8(), nd::u8()]; f(ValueBag::from_seq_slice::<_, u8>(&x), 3, |i| x[i] as u64) }
        }
    }
    #[cfg(not(kani))]
    pub fn table() -> Vec<(&'static str, fn())> { [lengths::TABLE, inline::TABLE].concat() }
}

/// The small-text buffer itself, for every length that fits
#[cfg(all(value_bag_verif, feature = "owned", feature = "inline-str"))]
pub mod buffer {
    use super::*;
    use value_bag::verif::inline_str::{InlineStr, MAX_INLINE_LEN};
    fn len(hi: usize) -> usize {
        let n = nd::u8() as usize;
        nd::assume(n > 0 && n <= hi);
        st::set_text(n);
        n
    }
    fn prefix<const N: usize>(s: &InlineStr<N>, n: usize) {
        assert!(s.len() == n && s.get().len() == n, "the length");
        assert!(s.get().as_bytes()[st::probe()] == st::byte(st::probe()), "the text");
    }
    fn copied<const N: usize>() {
        let n = len(N);
        prefix::<N>(&InlineStr::copy_from(st::text(0, n)), n);
    }
    fn unchecked<const N: usize>() {
        let n = len(N);
        prefix::<N>(&unsafe { InlineStr::copy_from_unchecked(st::text(0, n)) }, n);
    }
    fn empty<const N: usize>() {
        let s = InlineStr::<N>::copy_from("");
        assert!(s.len() == 0 && s.get().is_empty(), "nothing");
    }
    static mut CUT: (usize, usize) = (0, 0);
    struct Two;
    impl fmt::Display for Two {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            let (a, b) = unsafe { CUT };
            f.write_str(st::text(0, a))?;
            f.write_str(st::text(a, b))
        }
    }
    fn formatted<const N: usize>() {
        let n = len(N);
        let a = nd::u8() as usize;
        nd::assume(a <= n);
        unsafe { CUT = (a, n - a) }
        match InlineStr::<N>::buffer(Two) {
            Ok(s) => prefix::<N>(&s, n),
            Err(s) => { forget(s); assert!(false, "it fits") }
        }
    }
    pub mod copies {
        use super::*;
        cases! { 2;
            copy_small { copied::<MAX_INLINE_LEN>() }
            copy_large { copied::<64>() }
            unchecked_small { unchecked::<MAX_INLINE_LEN>() }
            unchecked_large { unchecked::<64>() }
            empty_small { empty::<MAX_INLINE_LEN>() }
            empty_large { empty::<64>() }
        }
    }
    pub mod formats { use super::*; cases! { 4; large { formatted::<64>() } } }
    pub mod formats_small { use super::*; cases! { 4; small { formatted::<MAX_INLINE_LEN>() } } }
    #[cfg(not(kani))]
    pub fn table() -> Vec<(&'static str, fn())> { [copies::TABLE, formats::TABLE, formats_small::TABLE].concat() }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    #[allow(unused_mut)]
    let mut t = [typed::unsigned::TABLE, typed::signed::TABLE, typed::others::TABLE, untyped::TABLE].concat();
    #[cfg(feature = "seq")]
    t.extend(seq::table());
    #[cfg(all(value_bag_verif, feature = "owned", feature = "inline-str"))]
    t.extend(buffer::table());
    t
}
