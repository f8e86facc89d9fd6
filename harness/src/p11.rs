//! P11: sharing an owned value preserves it.

use crate::{is_ok, nd, spec::*, src::*, st};
use std::{
    fmt::{self, Write},
    mem::forget,
};
use value_bag::{OwnedValueBag, ValueBag};

pub mod into_shared {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let s = b.to_owned().into_shared();
        let r = s.by_ref();
        reads(&r, val::<K>(), Text::Borrowed);
        empties(&r, val::<K>());
        forget(r);
        forget(s);
        forget(b);
    }
    per_src!(6 f);
}
pub mod to_shared {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let s = b.to_shared();
        let c = s.clone().into_shared();
        let r = c.by_ref();
        reads(&r, val::<K>(), Text::Borrowed);
        empties(&r, val::<K>());
        forget(r);
        forget(c);
        forget(s);
        forget(b);
    }
    per_src!(6 f);
}
pub mod text {
    use super::*;
    fn f<const N: usize>() {
        st::set_text(if N == 0 { 1 } else { N });
        let b = ValueBag::from_str(st::text(0, N));
        let s = b.to_shared();
        let c = s.clone();
        let r = c.by_ref();
        reads(&r, Val::S(st::text(0, N)), Text::Borrowed);
        forget(r);
        forget(c);
        forget(s);
        forget(b);
    }
    cases! { 2;
        len_0 { f::<0>() }
        len_22 { f::<22>() }
        len_23 { f::<23>() }
        len_46 { f::<46>() }
        len_47 { f::<47>() }
    }
}
/// Formatted values keep their text
pub mod formatted {
    use super::*;
    fn f(b: ValueBag, e: &str, debug: bool) {
        let s = b.to_shared();
        let c = s.clone().into_shared();
        let r = c.by_ref();
        let mut w = Wr::new();
        assert!((if debug { write!(w, "{:?}", r) } else { write!(w, "{}", r) }).is_ok(), "formats");
        assert!(w.wrote(e), "formats as before");
        assert!(!r.is_empty() && r.to_borrowed_str().is_none(), "reads as before");
        forget(r);
        forget(c);
        forget(s);
        forget(b);
    }
    cases! { 6;
        debug { st::set_text(4); f(ValueBag::capture_debug(&Src::<OPAQUE>), st::text(0, 3), true) }
        display { st::set_text(4); f(ValueBag::capture_display(&Src::<OPAQUE>), st::text(8, 4), false) }
        debug_displayed { st::set_text(4); f(ValueBag::from_debug(&Src::<OPAQUE>), st::text(0, 3), false) }
        display_debugged { st::set_text(4); f(ValueBag::from_display(&Src::<OPAQUE>), st::text(8, 4), true) }
    }
}

/// Counts how often it's released
pub struct Counted(u64);
static mut RELEASED: u32 = 0;
fn released() -> u32 { unsafe { RELEASED } }
impl Drop for Counted { fn drop(&mut self) { unsafe { RELEASED += 1 } } }
impl fmt::Debug for Counted { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(st::text(0, 3)) } }
impl fmt::Display for Counted { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(st::text(8, 4)) } }
impl std::error::Error for Counted {}
#[cfg(feature = "sval2")]
impl value_bag_sval2::lib::Value for Counted {
    fn stream<'s, S: value_bag_sval2::lib::Stream<'s> + ?Sized>(&'s self, s: &mut S) -> value_bag_sval2::lib::Result { s.u64(self.0) }
}
#[cfg(feature = "serde1")]
impl value_bag_serde1::lib::Serialize for Counted {
    fn serialize<S: value_bag_serde1::lib::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64(self.0) }
}
#[cfg(feature = "seq")]
impl AsRef<[u64]> for Counted { fn as_ref(&self) -> &[u64] { st::u64s(2) } }

/// The object is released after the last holder goes, and not before
fn release(b: ValueBag<'static>, first: bool) {
    unsafe { RELEASED = 0 }
    let c = b.clone();
    if first {
        drop(b);
        assert!(released() == 0, "released while still held");
        drop(c);
    } else {
        drop(c);
        assert!(released() == 0, "released while still held");
        drop(b);
    }
    assert!(released() == 1, "released exactly once");
}
/// An owned copy and its clone keep it too
fn release_owned(b: ValueBag<'static>) {
    unsafe { RELEASED = 0 }
    let o = b.to_owned();
    drop(b);
    assert!(released() == 0, "released while still held");
    let s = o.into_shared();
    let c = s.clone();
    drop(s);
    assert!(released() == 0, "released while still held");
    drop(c);
    assert!(released() == 1, "released exactly once");
}
pub mod released_fmt {
    use super::*;
    cases! { 2;
        debug_first { release(ValueBag::capture_shared_debug(Counted(nd::u64())), true) }
        debug_last { release(ValueBag::capture_shared_debug(Counted(nd::u64())), false) }
        debug_owned { release_owned(ValueBag::capture_shared_debug(Counted(nd::u64()))) }
        display_first { release(ValueBag::capture_shared_display(Counted(nd::u64())), true) }
        display_owned { release_owned(ValueBag::capture_shared_display(Counted(nd::u64()))) }
    }
}
/// Capturing as shared formats as the object, in every clone
pub mod captured {
    use super::*;
    fn f(b: ValueBag<'static>, debug: &str, display: &str) {
        let d = nd::bool();
        let c = b.clone();
        let o = c.to_owned();
        let r = o.by_ref();
        let mut w = Wr::new();
        assert!((if d { write!(w, "{:?}", r) } else { write!(w, "{}", r) }).is_ok(), "formats");
        assert!(w.wrote(if d { debug } else { display }), "formats as before");
        match (r.downcast_ref::<Counted>(), b.downcast_ref::<Counted>()) {
            (Some(x), Some(y)) => assert!(x as *const Counted == y as *const Counted, "the same object"),
            _ => assert!(false, "downcasts as before"),
        }
        forget(r);
        forget(o);
        forget(c);
        forget(b);
    }
    cases! { 4;
        debug { st::set_text(4); f(ValueBag::capture_shared_debug(Counted(nd::u64())), st::text(0, 3), st::text(0, 3)) }
        display { st::set_text(4); f(ValueBag::capture_shared_display(Counted(nd::u64())), st::text(8, 4), st::text(8, 4)) }
    }
    #[cfg(feature = "error")]
    pub mod error {
        use super::*;
        triples! { 4 error { st::set_text(4); f(ValueBag::capture_shared_error(Counted(nd::u64())), st::text(0, 3), st::text(8, 4)) } }
    }
}
#[cfg(feature = "error")]
pub mod error {
    use super::*;
    cases! { 2;
        first { release(ValueBag::capture_shared_error(Counted(nd::u64())), true) }
        owned { release_owned(ValueBag::capture_shared_error(Counted(nd::u64()))) }
    }
}
#[cfg(feature = "sval2")]
pub mod sval {
    use super::*;
    cases! { 2;
        first { release(ValueBag::capture_shared_sval2(Counted(nd::u64())), true) }
        owned { release_owned(ValueBag::capture_shared_sval2(Counted(nd::u64()))) }
        reading { let x = nd::u64(); let b = ValueBag::capture_shared_sval2(Counted(x)); let c = b.clone(); forget(b); reads_num(&c, Val::U(x)); forget(c); }
        owned_reading { let x = nd::u64(); let b = ValueBag::capture_shared_sval2(Counted(x)); let o = b.to_owned(); forget(b); let r = o.by_ref(); reads_num(&r, Val::U(x)); forget(r); forget(o); }
    }
}
#[cfg(feature = "serde1")]
pub mod serde {
    use super::*;
    cases! { 2;
        first { release(ValueBag::capture_shared_serde1(Counted(nd::u64())), true) }
        owned { release_owned(ValueBag::capture_shared_serde1(Counted(nd::u64()))) }
        reading { let x = nd::u64(); let b = ValueBag::capture_shared_serde1(Counted(x)); let c = b.clone(); forget(b); reads_num(&c, Val::U(x)); forget(c); }
    }
}
#[cfg(feature = "seq")]
pub mod seq {
    use super::*;
    cases! { 2;
        first { release(ValueBag::capture_shared_seq_slice::<_, u64>(Counted(nd::u64())), true) }
        owned { release_owned(ValueBag::capture_shared_seq_slice::<_, u64>(Counted(nd::u64()))) }
    }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut t = [into_shared::TABLE, to_shared::TABLE, text::TABLE, formatted::TABLE, released_fmt::TABLE, captured::TABLE].concat();
    #[cfg(feature = "error")]
    t.extend_from_slice(&[error::TABLE, captured::error::TABLE].concat());
    #[cfg(feature = "sval2")]
    t.extend_from_slice(sval::TABLE);
    #[cfg(feature = "serde1")]
    t.extend_from_slice(serde::TABLE);
    #[cfg(feature = "seq")]
    t.extend_from_slice(seq::TABLE);
    t
}
