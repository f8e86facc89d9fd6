//! P09: deferred values behave like the value they fill in.

use crate::{is_ok, nd, spec::*, src::*, st};
use std::{fmt::Write, mem::forget};
use value_bag::{
    fill::{Fill, Slot},
    Error, ValueBag,
};

pub mod any {
    use super::*;
    fn f<const K: u8>() {
        let b = ValueBag::from_fill(&Src::<K>);
        reads(&b, val::<K>(), Text::Same);
        visits(&b, val::<K>(), Text::Same);
        forget(b);
    }
    per_src!(2 f);
}
/// A closure is a filler too
pub mod closure {
    use super::*;
    fn f<const K: u8>() {
        let c = |slot: Slot| slot.fill_any(bag(val::<K>()));
        let b = ValueBag::from_fill(&c);
        reads(&b, val::<K>(), Text::Same);
        forget(b);
    }
    per_src! { 2 f u64 U64, i128 I128, str STR, none NONE, }
}
/// A filler that fills in a deferred value
pub mod nested {
    use super::*;
    struct Outer<const K: u8>;
    impl<const K: u8> Fill for Outer<K> {
        fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_any(ValueBag::from_fill(&Src::<K>)) }
    }
    fn f<const K: u8>() {
        let b = ValueBag::from_fill(&Outer::<K>);
        reads(&b, val::<K>(), Text::Same);
        visits(&b, val::<K>(), Text::Same);
        forget(b);
    }
    per_src! { 3 f u64 U64, i128 I128, bool BOOL, opaque OPAQUE, }
}

pub mod formatted {
    use super::*;
    struct Dbg;
    impl Fill for Dbg { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_debug(Formatted) } }
    struct Dsp;
    impl Fill for Dsp { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_display(Formatted) } }
    fn f(b: ValueBag, e: &str) {
        let mut w = Wr::new();
        let d = nd::bool();
        assert!((if d { write!(w, "{:?}", b) } else { write!(w, "{}", b) }).is_ok(), "formats");
        assert!(w.wrote(e), "formats as filled");
        reads(&b, Val::Opaque, Text::Same);
        visits(&b, Val::Opaque, Text::Same);
        forget(b);
    }
    cases! { 4;
        debug { st::set_text(4); f(ValueBag::from_fill(&Dbg), st::text(0, 3)) }
        display { st::set_text(4); f(ValueBag::from_fill(&Dsp), st::text(8, 4)) }
        text { st::set_text(5); let b = ValueBag::from_fill(&Src::<STR>); let mut w = Wr::new(); assert!(write!(w, "{}", b).is_ok()); assert!(w.wrote(st::text(0, 5)), "formats as filled"); forget(b); }
    }
}

/// A filler that fails
pub mod failing {
    use super::*;
    cases! { 4;
        reading { let b = ValueBag::from_fill(&Src::<FAIL>); reads(&b, Val::Opaque, Text::Same); forget(b); }
        visit { let b = ValueBag::from_fill(&Src::<FAIL>); let mut r = Rec::new(false); assert!(!is_ok(b.visit(&mut r)), "the visit reports the failure"); assert!(r.calls == 0, "no callback"); forget(b); }
        display { let b = ValueBag::from_fill(&Src::<FAIL>); let mut w = Wr::new(); assert!(write!(w, "{}", b).is_err(), "formatting reports the failure"); forget(b); }
        debug { let b = ValueBag::from_fill(&Src::<FAIL>); let mut w = Wr::new(); assert!(write!(w, "{:?}", b).is_err(), "formatting reports the failure"); forget(b); }
    }
}

#[cfg(feature = "error")]
pub mod error {
    use super::*;
    static E: Src<OPAQUE> = Src;
    struct Sized;
    impl Fill for Sized { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_error(E) } }
    struct Dyn;
    impl Fill for Dyn { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_dyn_error(&E) } }
    fn f(b: ValueBag) {
        let mut r = Rec::new(false);
        assert!(is_ok(b.visit(&mut r)) && r.calls == 1, "one callback");
        assert!(matches!(r.seen, Seen::Error(_)), "visited as an error");
        let mut w = Wr::new();
        let d = nd::bool();
        assert!((if d { write!(w, "{:?}", b) } else { write!(w, "{}", b) }).is_ok(), "formats");
        assert!(w.wrote(if d { st::text(0, 3) } else { st::text(8, 4) }), "formats as the error");
        forget(b);
    }
    cases! { 4;
        sized { st::set_text(4); f(ValueBag::from_fill(&Sized)) }
        dynamic { st::set_text(4); f(ValueBag::from_fill(&Dyn)) }
    }
}
#[cfg(feature = "sval2")]
pub mod sval {
    use super::*;
    struct Sval<const K: u8>;
    impl<const K: u8> Fill for Sval<K> where Src<K>: value_bag_sval2::lib::Value { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_sval2(Src::<K>) } }
    fn f<const K: u8>() where Src<K>: value_bag_sval2::lib::Value {
        let b = ValueBag::from_fill(&Sval::<K>);
        reads_num(&b, val::<K>());
        reads_other(&b, val::<K>(), Text::Owned);
        let mut r = Rec::new(false);
        assert!(is_ok(b.visit(&mut r)) && r.calls == 1 && saw(r.seen, val::<K>(), Text::Owned), "visited as filled");
        forget(b);
    }
    per_src! { 2 f u64 U64, i64 I64, u128 U128, f64 F64, bool BOOL, none NONE, seq SEQ, }
}
#[cfg(feature = "serde1")]
pub mod serde {
    use super::*;
    struct Serde<const K: u8>;
    impl<const K: u8> Fill for Serde<K> where Src<K>: value_bag_serde1::lib::Serialize { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_serde1(Src::<K>) } }
    fn f<const K: u8>() where Src<K>: value_bag_serde1::lib::Serialize {
        let b = ValueBag::from_fill(&Serde::<K>);
        reads_num(&b, val::<K>());
        let mut r = Rec::new(false);
        assert!(is_ok(b.visit(&mut r)) && r.calls == 1 && saw(r.seen, val::<K>(), Text::Owned), "visited as filled");
        forget(b);
    }
    per_src! { 2 f u64 U64, i64 I64, f64 F64, bool BOOL, none NONE, }
}
#[cfg(feature = "seq")]
pub mod seq {
    use super::*;
    #[derive(Default)]
    struct Got(usize, [Option<u64>; 2]);
    impl Extend<Option<u64>> for Got {
        fn extend<I: IntoIterator<Item = Option<u64>>>(&mut self, i: I) {
            let mut i = i.into_iter();
            if let Some(v) = i.next() { assert!(self.0 < 2); self.1[self.0] = v; self.0 += 1; }
        }
    }
    struct Two;
    impl AsRef<[u64]> for Two { fn as_ref(&self) -> &[u64] { st::u64s(2) } }
    struct Filler;
    impl Fill for Filler { fn fill(&self, slot: Slot) -> Result<(), Error> { slot.fill_seq_slice::<_, u64>(&Two) } }
    triples! {
        3 slice {
            st::set_u64s();
            let b = ValueBag::from_fill(&Filler);
            let g: Got = b.to_u64_seq().unwrap();
            assert!(g.0 == 2 && g.1[0] == Some(st::u64_at(0)) && g.1[1] == Some(st::u64_at(1)), "same elements");
            reads_num(&b, Val::Opaque);
            forget(b);
        }
    }
}
#[cfg(feature = "owned")]
pub mod owned {
    use super::*;
    fn f<const K: u8>() {
        let b = ValueBag::from_fill(&Src::<K>);
        let o = b.to_owned();
        let r = o.by_ref();
        reads(&r, val::<K>(), Text::Borrowed);
        empties(&r, val::<K>());
        forget(r);
        forget(o);
        forget(b);
    }
    per_src! { 6 f u64 U64, i64 I64, u128 U128, i128 I128, f64 F64, bool BOOL, char CHAR, none NONE, str STR, opaque OPAQUE, }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut t = [any::TABLE, closure::TABLE, nested::TABLE, formatted::TABLE, failing::TABLE].concat();
    #[cfg(feature = "error")]
    t.extend_from_slice(error::TABLE);
    #[cfg(feature = "sval2")]
    t.extend_from_slice(sval::TABLE);
    #[cfg(feature = "serde1")]
    t.extend_from_slice(serde::TABLE);
    #[cfg(feature = "seq")]
    t.extend_from_slice(seq::TABLE);
    #[cfg(feature = "owned")]
    t.extend_from_slice(owned::TABLE);
    t
}
