//! P08: re-borrowing or cloning a value changes nothing.

use crate::{is_ok, nd, spec::*, src::*, st};
use std::{fmt::Write, mem::forget};
use value_bag::ValueBag;

fn check<const K: u8>(b: &ValueBag) {
    let v = val::<K>();
    reads(b, v, Text::Same);
    empties(b, v);
    visits(b, v, Text::Same);
}

pub mod by_ref {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let r = b.by_ref();
        check::<K>(&r);
        forget(r);
        forget(b);
    }
    per_src!(2 f);
}
pub mod by_ref_twice {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let r = b.by_ref();
        let q = r.by_ref();
        check::<K>(&q);
        forget(q);
        forget(r);
        forget(b);
    }
    per_src!(2 f);
}
pub mod clone {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let r = b.clone();
        forget(b);
        check::<K>(&r);
        forget(r);
    }
    per_src!(2 f);
}

/// The three ways, for a value that formats as given
fn formats(b: &ValueBag, debug: &str, display: &str) {
    let d = nd::bool();
    let mut w = Wr::new();
    assert!((if d { write!(w, "{:?}", b) } else { write!(w, "{}", b) }).is_ok(), "formats");
    assert!(w.wrote(if d { debug } else { display }), "formats as captured");
}
fn three(b: ValueBag, debug: &str, display: &str, typed: bool) {
    let n = nd::u8();
    let one = |b: &ValueBag| {
        formats(b, debug, display);
        assert!(b.is::<Src<OPAQUE>>() == typed, "downcasts as captured");
        assert!(b.to_u64().is_none() && b.to_bool().is_none() && b.to_borrowed_str().is_none() && !b.is_empty(), "reads as nothing");
    };
    match n {
        0 => { let r = b.by_ref(); one(&r); forget(r); }
        1 => { let r = b.by_ref(); let q = r.by_ref(); one(&q); forget(q); forget(r); }
        _ => { let r = b.clone(); one(&r); forget(r); }
    }
    forget(b);
}
pub mod formatted {
    use super::*;
    cases! { 4;
        debug { st::set_text(4); three(ValueBag::capture_debug(&Src::<OPAQUE>), st::text(0, 3), st::text(0, 3), true) }
        display { st::set_text(4); three(ValueBag::capture_display(&Src::<OPAQUE>), st::text(8, 4), st::text(8, 4), true) }
        from_debug { st::set_text(4); three(ValueBag::from_debug(&Src::<OPAQUE>), st::text(0, 3), st::text(0, 3), false) }
        from_display { st::set_text(4); three(ValueBag::from_display(&Src::<OPAQUE>), st::text(8, 4), st::text(8, 4), false) }
    }
}
#[cfg(feature = "error")]
pub mod error {
    use super::*;
    static E: Src<OPAQUE> = Src;
    fn f(b: ValueBag, typed: bool) {
        match b.to_borrowed_error() {
            Some(e) => assert!(e as *const dyn std::error::Error as *const u8 == &E as *const _ as *const u8, "the captured error"),
            None => assert!(false, "not an error"),
        }
        three(b, st::text(0, 3), st::text(8, 4), typed)
    }
    cases! { 4;
        captured { st::set_text(4); let b = ValueBag::capture_error(&E); f(b.by_ref(), true); f(b.clone(), true); forget(b); }
        erased { st::set_text(4); let b = ValueBag::from_dyn_error(&E); f(b.by_ref(), false); f(b.clone(), false); forget(b); }
    }
}
#[cfg(feature = "sval2")]
pub mod sval {
    use super::*;
    fn by_ref<const K: u8>() where Src<K>: value_bag_sval2::lib::Value {
        let b = ValueBag::from_sval2(&Src::<K>);
        let r = b.by_ref();
        reads_num(&r, val::<K>());
        reads_other(&r, val::<K>(), Text::Same);
        forget(r);
        forget(b);
    }
    fn clone<const K: u8>() where Src<K>: value_bag_sval2::lib::Value {
        let b = ValueBag::capture_sval2(&Src::<K>);
        let r = b.clone();
        reads_num(&r, val::<K>());
        reads_other(&r, val::<K>(), Text::Same);
        assert!(r.is::<Src<K>>(), "downcasts as captured");
        forget(r);
        forget(b);
    }
    fn dynamic<const K: u8>() where Src<K>: value_bag_sval2::lib::Value {
        let b = ValueBag::from_dyn_sval2(&Src::<K>);
        let r = b.by_ref();
        reads_num(&r, val::<K>());
        reads_other(&r, val::<K>(), Text::Same);
        forget(r);
        forget(b);
    }
    per_src! { 2 by_ref u64 U64, str STR, seq SEQ, }
    pub mod cloned { use super::*; per_src! { 2 clone u64 U64, str STR, } }
    pub mod dyns { use super::*; per_src! { 2 dynamic u64 U64, str STR, } }
}
#[cfg(feature = "serde1")]
pub mod serde {
    use super::*;
    fn by_ref<const K: u8>() where Src<K>: value_bag_serde1::lib::Serialize {
        let b = ValueBag::from_serde1(&Src::<K>);
        let r = b.by_ref();
        reads_num(&r, val::<K>());
        forget(r);
        forget(b);
    }
    fn clone<const K: u8>() where Src<K>: value_bag_serde1::lib::Serialize {
        let b = ValueBag::capture_serde1(&Src::<K>);
        let r = b.clone();
        reads_num(&r, val::<K>());
        assert!(r.is::<Src<K>>(), "downcasts as captured");
        forget(r);
        forget(b);
    }
    per_src! { 2 by_ref u64 U64, none NONE, }
    pub mod cloned { use super::*; per_src! { 2 clone u64 U64, none NONE, } }
}
#[cfg(feature = "seq")]
pub mod seq {
    use super::*;
    #[derive(Default)]
    struct Got(usize, [Option<u64>; 2]);
    impl Extend<Option<u64>> for Got {
        fn extend<I: IntoIterator<Item = Option<u64>>>(&mut self, i: I) {
            let mut i = i.into_iter();
            if let Some(v) = i.next() { assert!(self.0 < 2); self.1[self.0] = v; self.0 += 1; }
        }
    }
    struct Two;
    impl AsRef<[u64]> for Two { fn as_ref(&self) -> &[u64] { st::u64s(2) } }
    fn f(b: ValueBag) {
        let g: Got = b.to_u64_seq().unwrap();
        assert!(g.0 == 2 && g.1[0] == Some(st::u64_at(0)) && g.1[1] == Some(st::u64_at(1)), "same elements");
        forget(b);
    }
    cases! { 3;
        by_ref { st::set_u64s(); let b = ValueBag::from_seq_slice::<_, u64>(&Two); f(b.by_ref()); forget(b); }
        clone { st::set_u64s(); let b = ValueBag::from_seq_slice::<_, u64>(&Two); f(b.clone()); forget(b); }
    }
}
pub mod fill {
    use super::*;
    fn f<const K: u8>() {
        let b = ValueBag::from_fill(&Src::<K>);
        { let r = b.by_ref(); reads(&r, val::<K>(), Text::Same); forget(r); }
        { let r = b.clone(); visits(&r, val::<K>(), Text::Same); forget(r); }
        forget(b);
    }
    per_src!(2 f);
}
#[cfg(feature = "owned")]
pub mod shared {
    use super::*;
    cases! { 4;
        debug { st::set_text(4); three(ValueBag::capture_shared_debug(Src::<OPAQUE>), st::text(0, 3), st::text(0, 3), true) }
        display { st::set_text(4); three(ValueBag::capture_shared_display(Src::<OPAQUE>), st::text(8, 4), st::text(8, 4), true) }
    }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut t = [by_ref::TABLE, by_ref_twice::TABLE, clone::TABLE, formatted::TABLE, fill::TABLE].concat();
    #[cfg(feature = "error")]
    t.extend_from_slice(error::TABLE);
    #[cfg(feature = "sval2")]
    t.extend_from_slice(sval::TABLE);
    #[cfg(feature = "sval2")]
    t.extend_from_slice(sval::cloned::TABLE);
    #[cfg(feature = "sval2")]
    t.extend_from_slice(sval::dyns::TABLE);
    #[cfg(feature = "serde1")]
    t.extend_from_slice(serde::TABLE);
    #[cfg(feature = "serde1")]
    t.extend_from_slice(serde::cloned::TABLE);
    #[cfg(feature = "seq")]
    t.extend_from_slice(seq::TABLE);
    #[cfg(feature = "owned")]
    t.extend_from_slice(shared::TABLE);
    t
}
