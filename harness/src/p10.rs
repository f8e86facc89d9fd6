//! P10: an owned copy reads like the original.

use crate::{is_ok, nd, spec::*, src::*, st};
use std::mem::forget;
use value_bag::{OwnedValueBag, ValueBag};

/// The value as it was captured, however the inputs change from here on
fn keep<const K: u8>() -> Val {
    let v = match val::<K>() {
        Val::S(e) => Val::S(if e.len() == 0 { "" } else { st::kept(0, e.len()) }),
        v => v,
    };
    st::scribble();
    v
}

pub mod copy {
    use super::*;
    fn f<const K: u8>() {
        let o = { let b = bag(val::<K>()); let o = b.to_owned(); forget(b); o };
        let v = keep::<K>();
        let r = o.by_ref();
        reads(&r, v, Text::Borrowed);
        empties(&r, v);
        forget(r);
        forget(o);
    }
    per_src! { 6 f none NONE, u64 U64, i64 I64, u128 U128, i128 I128, f64 F64, bool BOOL, char CHAR, str STR, str_empty STR_EMPTY, }
}
pub mod cloned {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let o = b.to_owned();
        let c = o.clone();
        let v = keep::<K>();
        let r = c.by_ref();
        reads(&r, v, Text::Borrowed);
        empties(&r, v);
        forget(r);
        forget(c);
        forget(o);
        forget(b);
    }
    per_src! { 6 f none NONE, u64 U64, i64 I64, u128 U128, i128 I128, f64 F64, bool BOOL, char CHAR, str STR, str_empty STR_EMPTY, }
}
/// A copy of a view of a copy
pub mod again {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let o = b.to_owned();
        let r = o.by_ref();
        let p = r.to_owned();
        let v = keep::<K>();
        let q = p.by_ref();
        reads(&q, v, Text::Borrowed);
        empties(&q, v);
        forget(q);
        forget(p);
        forget(r);
        forget(o);
        forget(b);
    }
    per_src! { 6 f none NONE, u64 U64, i64 I64, u128 U128, i128 I128, f64 F64, bool BOOL, char CHAR, str STR, str_empty STR_EMPTY, }
}
/// A view of a view of a copy, visited
pub mod viewed {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let o = b.to_owned();
        let v = keep::<K>();
        let r = o.by_ref();
        let q = r.by_ref();
        reads(&q, v, Text::Borrowed);
        let mut rec = Rec::new(false);
        assert!(is_ok(q.visit(&mut rec)) && rec.calls == 1, "visited");
        let wide = match v {
            Val::U(x) => Val::BU(x as u128),
            Val::I(x) => Val::BI(x as i128),
            v => v,
        };
        assert!(saw(rec.seen, v, Text::Borrowed) || saw(rec.seen, wide, Text::Borrowed), "visited with an equal value");
        forget(q);
        forget(r);
        forget(o);
        forget(b);
    }
    per_src! { 6 f none NONE, u64 U64, i64 I64, u128 U128, i128 I128, f64 F64, bool BOOL, char CHAR, str STR, str_empty STR_EMPTY, }
}

/// A formatted value reads as nothing, before and after
pub mod formatted {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let o = b.to_owned();
        let c = o.clone();
        let r = o.by_ref();
        let q = c.by_ref();
        reads(&r, Val::Opaque, Text::Borrowed);
        empties(&r, Val::Opaque);
        reads(&q, Val::Opaque, Text::Borrowed);
        forget((q, r));
        forget((c, o, b));
    }
    per_src! { 6 f opaque OPAQUE, }
}

/// Text on either side of each storage limit
pub mod text {
    use super::*;
    fn f<const N: usize>() {
        st::set_text(if N == 0 { 1 } else { N });
        let o = { let b = ValueBag::from_str(st::text(0, N)); let o = b.to_owned(); forget(b); o };
        st::scribble();
        let c = o.clone();
        let r = o.by_ref();
        reads(&r, Val::S(st::kept(0, N)), Text::Borrowed);
        empties(&r, Val::S(""));
        let q = c.by_ref();
        match q.to_borrowed_str() {
            Some(s) => assert!(equal_text(s, st::kept(0, N)), "text of the clone"),
            None => assert!(false, "text of the clone"),
        }
        forget(q);
        forget(r);
        forget(c);
        forget(o);
    }
    cases! { 2;
        len_0 { f::<0>() }
        len_1 { f::<1>() }
        len_2 { f::<2>() }
        len_21 { f::<21>() }
        len_22 { f::<22>() }
        len_23 { f::<23>() }
        len_24 { f::<24>() }
        len_45 { f::<45>() }
        len_46 { f::<46>() }
        len_47 { f::<47>() }
        len_64 { f::<64>() }
        len_90 { f::<90>() }
    }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    [copy::TABLE, cloned::TABLE, again::TABLE, viewed::TABLE, formatted::TABLE, text::TABLE].concat()
}
