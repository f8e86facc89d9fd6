//! P17: primitives captured through a framework stay inspectable.

use crate::{is_ok, spec::*, src::*, st};
use std::mem::forget;
use value_bag::{
    fill::{Fill, Slot},
    Error, ValueBag,
};

/// Visiting makes one callback, the one for the primitive
fn visited(b: &ValueBag, v: Val, t: Text) {
    let mut r = Rec::new(false);
    assert!(is_ok(b.visit(&mut r)), "visited");
    assert!(r.calls == 1, "exactly one callback");
    assert!(saw(r.seen, v, t), "the callback for the primitive");
}
fn nums(b: &ValueBag, v: Val, _: Text) {
    assert!(b.to_u64() == u64_of(v), "u64 read");
    assert!(b.to_i64() == i64_of(v), "i64 read");
    assert!(b.to_u128() == u128_of(v), "u128 read");
}
fn more_nums(b: &ValueBag, v: Val, _: Text) {
    assert!(b.to_i128() == i128_of(v), "i128 read");
    assert!(same_opt_f64(b.to_f64(), f64_of(v)), "f64 read");
    assert!(same_f64(b.as_f64(), as_f64_of(v)), "lenient f64 read");
}
fn others(b: &ValueBag, v: Val, t: Text) { reads_other(b, v, t) }

/// `$each!(name $f)` for each way to look at a value
macro_rules! views {
    ($each:ident) => {
        pub mod nums { use super::*; $each!(nums); }
        pub mod more_nums { use super::*; $each!(more_nums); }
        pub mod others { use super::*; $each!(others); }
        pub mod visited { use super::*; $each!(visited); }
        #[cfg(not(kani))]
        pub fn table() -> Vec<(&'static str, fn())> { [nums::TABLE, more_nums::TABLE, others::TABLE, visited::TABLE].concat() }
    };
}

#[cfg(feature = "sval2")]
pub mod sval {
    use super::*;
    use value_bag_sval2::{dynamic, lib::Value};
    fn sized<const K: u8>(f: fn(&ValueBag, Val, Text)) where Src<K>: Value {
        set::<K>();
        let b = ValueBag::from_sval2(&Src::<K>);
        f(&b, val::<K>(), Text::Same);
        forget(b);
    }
    fn captured<const K: u8>(f: fn(&ValueBag, Val, Text)) where Src<K>: Value {
        set::<K>();
        let b = ValueBag::capture_sval2(&Src::<K>);
        f(&b, val::<K>(), Text::Same);
        forget(b);
    }
    fn by_ref<const K: u8>(f: fn(&ValueBag, Val, Text)) where Src<K>: Value {
        set::<K>();
        let b = ValueBag::capture_sval2(&Src::<K>);
        let r = b.by_ref();
        f(&r, val::<K>(), Text::Same);
        forget(r);
        forget(b);
    }
    fn erased<const K: u8>(f: fn(&ValueBag, Val, Text)) where Src<K>: Value {
        set::<K>();
        let v: &'static dyn dynamic::Value = &Src::<K>;
        let b = ValueBag::from_dyn_sval2(v);
        f(&b, val::<K>(), Text::Same);
        forget(b);
    }
    macro_rules! each {
        ($f:ident) => {
            cases! { 6;
                none { sized::<NONE>($f) }
                u64 { sized::<U64>($f) }
                i64 { captured::<I64>($f) }
                u128 { sized::<U128>($f) }
                i128 { captured::<I128>($f) }
                f64 { sized::<F64>($f) }
                bool { erased::<BOOL>($f) }
                str { sized::<STR>($f) }
                str_empty { captured::<STR_EMPTY>($f) }
                u8 { erased::<U8>($f) }
                u16 { sized::<U16>($f) }
                u32 { captured::<U32>($f) }
                i8 { erased::<I8>($f) }
                i16 { by_ref::<I16>($f) }
                i32 { sized::<I32>($f) }
                f32 { by_ref::<F32>($f) }
                tagged { sized::<TAGGED>($f) }
                fail { captured::<FAIL>($f) }
                seq { sized::<SEQ>($f) }
                map { captured::<MAP>($f) }
            }
        };
    }
    views! { each }

    /// Text in pieces
    #[cfg(feature = "alloc")]
    pub mod text {
        use super::*;
        fn read<const K: u8>() where Src<K>: Value {
            set::<K>();
            let b = ValueBag::from_sval2(&Src::<K>);
            let s = b.to_str();
            match &s {
                Some(s) => assert!(equal_text(s, st::text(0, 5)), "the pieces in order"),
                None => assert!(false, "text not readable"),
            }
            forget(s);
            forget(b);
        }
        fn visit<const K: u8>() where Src<K>: Value {
            set::<K>();
            let b = ValueBag::from_sval2(&Src::<K>);
            let mut r = Rec::new(false);
            assert!(is_ok(b.visit(&mut r)) && r.calls == 1, "one callback");
            match r.seen {
                Seen::Str(_, n, c) | Seen::BorrowedStr(_, n, c) => assert!(n == 5 && c == probed(st::text(0, 5)), "the pieces in order"),
                _ => assert!(false, "the callback for text"),
            }
            forget(b);
        }
        fn filled<const K: u8>() where Src<K>: Value {
            set::<K>();
            let b = ValueBag::from_fill(&Filler::<K>);
            let s = b.to_str();
            match &s {
                Some(s) => assert!(equal_text(s, st::text(0, 5)), "the pieces in order"),
                None => assert!(false, "text not readable"),
            }
            forget(s);
            forget(b);
        }
        cases! { 7;
            computed { read::<STR_COMPUTED>() }
            two { read::<STR_TWO>() }
            two_computed { read::<STR_TWO_COMPUTED>() }
            mixed { read::<STR_MIXED>() }
            mixed_back { read::<STR_MIXED_BACK>() }
            computed_visit { visit::<STR_COMPUTED>() }
            two_visit { visit::<STR_TWO>() }
            two_computed_visit { visit::<STR_TWO_COMPUTED>() }
            mixed_visit { visit::<STR_MIXED>() }
            mixed_back_visit { visit::<STR_MIXED_BACK>() }
            fill { filled::<STR>() }
            two_fill { filled::<STR_TWO>() }
        }
    }

    /// Supplied to a slot
    struct Filler<const K: u8>;
    impl<const K: u8> Fill for Filler<K> where Src<K>: Value {
        fn fill(&self, s: Slot) -> Result<(), Error> { s.fill_sval2(Src::<K>) }
    }
    fn filled<const K: u8>(f: fn(&ValueBag, Val, Text)) where Src<K>: Value {
        set::<K>();
        let b = ValueBag::from_fill(&Filler::<K>);
        f(&b, val::<K>(), Text::Owned);
        forget(b);
    }
    macro_rules! each_filled {
        ($f:ident) => {
            cases! { 6;
                none { filled::<NONE>($f) }
                u64 { filled::<U64>($f) }
                i64 { filled::<I64>($f) }
                u128 { filled::<U128>($f) }
                i128 { filled::<I128>($f) }
                f64 { filled::<F64>($f) }
                bool { filled::<BOOL>($f) }
                seq { filled::<SEQ>($f) }
                map { filled::<MAP>($f) }
            }
        };
    }
    pub mod fill { use super::*; views! { each_filled } }

    #[cfg(feature = "owned")]
    pub mod shared {
        use super::*;
        fn shared<const K: u8>(f: fn(&ValueBag, Val, Text)) where Src<K>: Value {
            set::<K>();
            let o = ValueBag::capture_shared_sval2(Src::<K>);
            let r = o.by_ref();
            f(&r, val::<K>(), Text::Same);
            forget(r);
            forget(o);
        }
        macro_rules! each {
            ($f:ident) => {
                cases! { 6;
                    none { shared::<NONE>($f) }
                    u64 { shared::<U64>($f) }
                    i128 { shared::<I128>($f) }
                    f64 { shared::<F64>($f) }
                    bool { shared::<BOOL>($f) }
                    map { shared::<MAP>($f) }
                }
            };
        }
        views! { each }
    }
}

#[cfg(feature = "serde1")]
pub mod serde {
    use super::*;
    use value_bag_serde1::lib::Serialize;
    fn sized<const K: u8>(f: fn(&ValueBag, Val, Text)) where Src<K>: Serialize {
        set::<K>();
        let b = ValueBag::from_serde1(&Src::<K>);
        f(&b, val::<K>(), Text::Owned);
        forget(b);
    }
    fn captured<const K: u8>(f: fn(&ValueBag, Val, Text)) where Src<K>: Serialize {
        set::<K>();
        let b = ValueBag::capture_serde1(&Src::<K>);
        f(&b, val::<K>(), Text::Owned);
        forget(b);
    }
    fn by_ref<const K: u8>(f: fn(&ValueBag, Val, Text)) where Src<K>: Serialize {
        set::<K>();
        let b = ValueBag::capture_serde1(&Src::<K>);
        let r = b.by_ref();
        f(&r, val::<K>(), Text::Owned);
        forget(r);
        forget(b);
    }
    macro_rules! each {
        ($f:ident) => {
            cases! { 6;
                none { sized::<NONE>($f) }
                unit { captured::<UNIT>($f) }
                some { sized::<SOME>($f) }
                u64 { sized::<U64>($f) }
                i64 { captured::<I64>($f) }
                u128 { sized::<U128>($f) }
                i128 { captured::<I128>($f) }
                f64 { sized::<F64>($f) }
                bool { captured::<BOOL>($f) }
                char { sized::<CHAR>($f) }
                str { sized::<STR>($f) }
                str_empty { captured::<STR_EMPTY>($f) }
                u8 { by_ref::<U8>($f) }
                u16 { sized::<U16>($f) }
                u32 { captured::<U32>($f) }
                i8 { by_ref::<I8>($f) }
                i16 { by_ref::<I16>($f) }
                i32 { sized::<I32>($f) }
                f32 { by_ref::<F32>($f) }
                fail { captured::<FAIL>($f) }
                seq { sized::<SEQ>($f) }
                map { captured::<MAP>($f) }
            }
        };
    }
    views! { each }

    /// Supplied to a slot
    struct Filler<const K: u8>;
    impl<const K: u8> Fill for Filler<K> where Src<K>: Serialize {
        fn fill(&self, s: Slot) -> Result<(), Error> { s.fill_serde1(Src::<K>) }
    }
    fn filled<const K: u8>(f: fn(&ValueBag, Val, Text)) where Src<K>: Serialize {
        set::<K>();
        let b = ValueBag::from_fill(&Filler::<K>);
        f(&b, val::<K>(), Text::Owned);
        forget(b);
    }
    macro_rules! each_filled {
        ($f:ident) => {
            cases! { 6;
                none { filled::<NONE>($f) }
                u64 { filled::<U64>($f) }
                i128 { filled::<I128>($f) }
                f64 { filled::<F64>($f) }
                char { filled::<CHAR>($f) }
                str { filled::<STR>($f) }
                map { filled::<MAP>($f) }
            }
        };
    }
    pub mod fill { use super::*; views! { each_filled } }

    #[cfg(feature = "owned")]
    pub mod shared {
        use super::*;
        fn shared<const K: u8>(f: fn(&ValueBag, Val, Text)) where Src<K>: Serialize {
            set::<K>();
            let o = ValueBag::capture_shared_serde1(Src::<K>);
            let r = o.by_ref();
            f(&r, val::<K>(), Text::Owned);
            forget(r);
            forget(o);
        }
        macro_rules! each {
            ($f:ident) => {
                cases! { 6;
                    none { shared::<NONE>($f) }
                    u64 { shared::<U64>($f) }
                    i128 { shared::<I128>($f) }
                    f64 { shared::<F64>($f) }
                    char { shared::<CHAR>($f) }
                    map { shared::<MAP>($f) }
                }
            };
        }
        views! { each }
    }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut t = Vec::new();
    #[cfg(feature = "sval2")]
    {
        t.extend(sval::table());
        t.extend(sval::fill::table());
        #[cfg(feature = "alloc")]
        t.extend(sval::text::TABLE);
        #[cfg(feature = "owned")]
        t.extend(sval::shared::table());
    }
    #[cfg(feature = "serde1")]
    {
        t.extend(serde::table());
        t.extend(serde::fill::table());
        #[cfg(feature = "owned")]
        t.extend(serde::shared::table());
    }
    t
}
