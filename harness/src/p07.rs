//! P07: visiting calls the one right callback with the right value.

use crate::{is_ok, nd, spec::*, src::*, st};
use std::mem::forget;
use value_bag::{visit::Visit, Error, ValueBag};

/// One call on a visitor that handles every kind
pub mod specific {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        visits(&b, val::<K>(), Text::Same);
        forget(b);
    }
    per_src!(2 f);
}

/// A visitor that only has the general callback
struct General<const K: u8> {
    calls: u32,
    fail: bool,
}
impl<'v, const K: u8> Visit<'v> for General<K> {
    fn visit_any(&mut self, b: ValueBag) -> Result<(), Error> {
        self.calls += 1;
        match val::<K>() {
            Val::C(c) => {
                let mut buf = [0; 4];
                let n = c.encode_utf8(&mut buf).len();
                match b.to_borrowed_str() {
                    Some(s) => {
                        let k = nd::u8() as usize;
                        nd::assume(k < n);
                        assert!(s.len() == n && s.as_bytes()[k] == buf[k], "a character falls back to its text");
                    }
                    None => assert!(b.to_char() == Some(c), "a character falls back to itself"),
                }
            }
            v => {
                reads_num(&b, v);
                assert!(b.to_bool() == bool_of(v) && b.to_char() == char_of(v), "an equal value");
                match (b.to_borrowed_str(), v) {
                    (Some(s), Val::S(e)) => assert!(same_str(s, e), "equal text"),
                    (Some(_), _) | (None, Val::S(_)) => assert!(false, "equal text"),
                    _ => (),
                }
                assert!(b.is_empty() == matches!(v, Val::None), "equal emptiness");
            }
        }
        forget(b);
        if self.fail { Err(Error::msg("failed by the visitor")) } else { Ok(()) }
    }
}
pub mod fallback {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        let fail = nd::bool();
        let mut g = General::<K> { calls: 0, fail };
        let ok = is_ok(b.visit(&mut g));
        assert!(g.calls == 1, "one callback");
        assert!(ok != fail, "the visitor's result is the visit's result");
        forget(b);
    }
    per_src!(5 f);
}

/// Formatted values reach the general callback and still format as they did
pub mod formatted {
    use super::*;
    use std::fmt::Write;
    struct Text(u32, Wr, bool);
    impl<'v> Visit<'v> for Text {
        fn visit_any(&mut self, b: ValueBag) -> Result<(), Error> {
            self.0 += 1;
            assert!((if self.2 { write!(self.1, "{:?}", b) } else { write!(self.1, "{}", b) }).is_ok());
            forget(b);
            Ok(())
        }
    }
    fn f(b: ValueBag, debug: &str, display: &str) {
        let d = nd::bool();
        let mut t = Text(0, Wr::new(), d);
        assert!(is_ok(b.visit(&mut t)), "visited");
        assert!(t.0 == 1, "one callback");
        assert!(t.1.wrote(if d { debug } else { display }), "formats as captured");
        forget(b);
    }
    cases! { 4;
        debug { st::set_text(4); f(ValueBag::capture_debug(&Src::<OPAQUE>), st::text(0, 3), st::text(0, 3)) }
        display { st::set_text(4); f(ValueBag::capture_display(&Src::<OPAQUE>), st::text(8, 4), st::text(8, 4)) }
        from_debug { st::set_text(4); f(ValueBag::from_debug(&Src::<OPAQUE>), st::text(0, 3), st::text(0, 3)) }
        from_display { st::set_text(4); f(ValueBag::from_display(&Src::<OPAQUE>), st::text(8, 4), st::text(8, 4)) }
    }
}

#[cfg(feature = "error")]
pub mod error {
    use super::*;
    fn f(b: ValueBag, p: *const u8, borrowed: bool) {
        let fail = nd::bool();
        let mut r = Rec::new(fail);
        let ok = is_ok(b.visit(&mut r));
        assert!(r.calls == 1, "one callback");
        match r.seen {
            Seen::BorrowedError(q) => assert!(borrowed && p == q, "the captured error"),
            Seen::Error(q) => assert!(!borrowed && p == q, "the captured error"),
            _ => assert!(false, "another callback"),
        }
        assert!(ok != fail, "the visitor's result is the visit's result");
        forget(b);
    }
    static E: Src<OPAQUE> = Src;
    fn e() -> *const u8 { &E as *const _ as *const u8 }
    cases! { 2;
        captured { f(ValueBag::capture_error(&E), e(), true) }
        erased { f(ValueBag::from_dyn_error(&E), e(), true) }
        by_ref { let b = ValueBag::capture_error(&E); f(b.by_ref(), e(), true); forget(b); }
    }
}

#[cfg(feature = "seq")]
pub mod seq {
    use super::*;
    cases! { 3;
        slice { st::set_u64s(); let a = [st::u64_at(0), st::u64_at(1)]; let b = ValueBag::from_seq_slice(&a); visits(&b, Val::Opaque, Text::Same); forget(b); }
        array { let a = [nd::bool(); 2]; let b = ValueBag::from(&a); visits(&b, Val::Opaque, Text::Same); forget(b); }
    }
}

#[cfg(feature = "owned")]
pub mod shared {
    use super::*;
    cases! { 2;
        debug { let b = ValueBag::capture_shared_debug(Src::<OPAQUE>); visits(&b, Val::Opaque, Text::Same); forget(b); }
        display { let b = ValueBag::capture_shared_display(Src::<OPAQUE>); let r = b.by_ref(); visits(&r, Val::Opaque, Text::Same); forget(r); forget(b); }
    }
}

/// A visitor that refuses a number captured through a framework
#[cfg(any(feature = "sval2", feature = "serde1"))]
pub mod refused {
    use super::*;
    fn f(b: ValueBag) {
        let mut r = Rec::new(true);
        assert!(!is_ok(b.visit(&mut r)), "the result of the visitor");
        assert!(r.calls == 1, "one callback");
        forget(b);
    }
    #[cfg(feature = "sval2")]
    pub mod sval { use super::*; triples! { 4 number { st::set_u64(); f(ValueBag::capture_sval2(&Src::<U64>)) } } }
    #[cfg(feature = "serde1")]
    pub mod serde { use super::*; triples! { 4 number { st::set_u64(); f(ValueBag::capture_serde1(&Src::<U64>)) } } }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut t = [specific::TABLE, fallback::TABLE, formatted::TABLE].concat();
    #[cfg(feature = "error")]
    t.extend_from_slice(error::TABLE);
    #[cfg(feature = "seq")]
    t.extend_from_slice(seq::TABLE);
    #[cfg(feature = "owned")]
    t.extend_from_slice(shared::TABLE);
    #[cfg(feature = "sval2")]
    t.extend_from_slice(refused::sval::TABLE);
    #[cfg(feature = "serde1")]
    t.extend_from_slice(refused::serde::TABLE);
    t
}
