//! P18: captured errors keep their identity and causes.

use crate::{is_ok, nd, spec::*, src::*, st};
use std::{
    error::Error as StdError,
    fmt::{self, Write},
    mem::forget,
};
use value_bag::{
    fill::{Fill, Slot},
    Error, ValueBag,
};

/// An error with `D` causes, each with text of its own
struct Link<const D: u8>;
fn text(d: u8) -> &'static str { st::text(d as usize * 5, 4) }
/// The text as it was when the error was buffered
fn kept(d: u8) -> &'static str { st::kept(d as usize * 5, 4) }
fn set_link() { st::set_text(4) }
macro_rules! links {
    ($($d:literal $s:expr;)*) => { $(
        impl fmt::Debug for Link<$d> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(st::text(40, 3)) }
        }
        impl fmt::Display for Link<$d> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(text($d)) }
        }
        impl StdError for Link<$d> {
            fn source(&self) -> Option<&(dyn StdError + 'static)> { $s }
        }
    )* };
}
links! {
    0 None;
    1 Some(&Link::<0>);
    2 Some(&Link::<1>);
    3 Some(&Link::<2>);
}
fn at(e: &(dyn StdError + 'static)) -> *const u8 { e as *const dyn StdError as *const u8 }

/// The very error captured
pub mod borrowed {
    use super::*;
    static E: Link<1> = Link;
    fn same(b: &ValueBag) {
        match b.to_borrowed_error() {
            Some(e) => {
                assert!(at(e) == at(&E), "the error captured");
                let mut w = Wr::new();
                assert!(write!(w, "{}", e).is_ok() && w.wrote(text(1)), "the error's text");
                assert!(e.source().is_some(), "the error's cause");
            }
            None => assert!(false, "the error is gone"),
        }
    }
    fn f(b: ValueBag<'static>) {
        same(&b);
        let r = b.by_ref();
        same(&r);
        let c = r.clone();
        same(&c);
        forget((c, r));
        let e: Result<&(dyn StdError + 'static), _> = b.try_into();
        match &e {
            Ok(e) => assert!(at(*e) == at(&E), "the error captured"),
            Err(_) => assert!(false, "the error is gone"),
        }
        forget(e);
    }
    fn formats(b: ValueBag) {
        let d = nd::bool();
        let mut w = Wr::new();
        assert!((if d { write!(w, "{:?}", b) } else { write!(w, "{}", b) }).is_ok(), "formats");
        assert!(w.wrote(if d { st::text(40, 3) } else { text(1) }), "formats as the error does");
        forget(b);
    }
    cases! { 6;
        captured { set_link(); f(ValueBag::capture_error(&E)) }
        erased { set_link(); f(ValueBag::from_dyn_error(&E)) }
        converted { set_link(); let e: &'static (dyn StdError + 'static) = &E; f(ValueBag::from(e)) }
        option { set_link(); let e: &'static (dyn StdError + 'static) = &E; f(ValueBag::from(Some(e))) }
        none { let b = ValueBag::from(None::<&(dyn StdError + 'static)>); assert!(b.is_empty() && b.to_borrowed_error().is_none(), "no error"); forget(b); }
        downcast { let b = ValueBag::capture_error(&E); assert!(b.downcast_ref::<Link<1>>().is_some() && b.downcast_ref::<Link<0>>().is_none(), "the type captured"); forget(b); }
        formats_captured { set_link(); formats(ValueBag::capture_error(&E)) }
        formats_erased { set_link(); formats(ValueBag::from_dyn_error(&E)) }
    }
}

/// Nothing else gives an error
pub mod not_an_error {
    use super::*;
    fn f<const K: u8>() {
        let b = bag(val::<K>());
        assert!(b.to_borrowed_error().is_none(), "not an error");
        let r = b.by_ref();
        assert!(r.to_borrowed_error().is_none(), "not an error");
        forget(r);
        forget(b);
        let b = ValueBag::from_fill(&Src::<K>);
        assert!(b.to_borrowed_error().is_none(), "not an error");
        forget(b);
    }
    per_src!(2 f);
}

/// An error supplied to a slot
pub struct Filler<const D: u8>;
impl Fill for Filler<0> {
    fn fill(&self, s: Slot) -> Result<(), Error> { s.fill_error(Link::<0>) }
}
impl Fill for Filler<1> {
    fn fill(&self, s: Slot) -> Result<(), Error> { s.fill_dyn_error(&Link::<1>) }
}
pub mod filled {
    use super::*;
    struct Once(u32, bool, Wr);
    impl<'v> value_bag::visit::Visit<'v> for Once {
        fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> { self.0 += 1; Ok(()) }
        fn visit_error(&mut self, e: &(dyn StdError + 'static)) -> Result<(), Error> {
            self.0 += 1;
            self.1 = true;
            assert!(write!(self.2, "{}", e).is_ok());
            Ok(())
        }
    }
    fn f(b: ValueBag, d: u8) {
        let mut o = Once(0, false, Wr::new());
        assert!(is_ok(b.visit(&mut o)), "visited");
        assert!(o.0 == 1 && o.1, "visited as an error");
        assert!(o.2.wrote(text(d)), "the error's text");
        forget(b);
    }
    cases! { 4;
        plain { set_link(); f(ValueBag::from_fill(&Filler::<0>), 0) }
        erased { set_link(); f(ValueBag::from_fill(&Filler::<1>), 1) }
    }
}

#[cfg(feature = "owned")]
pub mod owned {
    use super::*;
    use value_bag::OwnedValueBag;
    fn one(e: &(dyn StdError + 'static), d: u8) {
        let mut w = Wr::new();
        assert!(write!(w, "{}", e).is_ok(), "formats");
        assert!(w.wrote(kept(d)), "the message kept");
    }
    /// The message of an owned copy, and of each of its causes
    fn chain(b: &ValueBag, d: u8) {
        match b.to_borrowed_error() {
            Some(e) => {
                one(e, d);
                let mut e = e.source();
                let mut i = d;
                while i > 0 {
                    i -= 1;
                    match e {
                        Some(s) => {
                            one(s, i);
                            e = s.source();
                        }
                        None => {
                            assert!(false, "a cause is gone");
                            return;
                        }
                    }
                }
                assert!(e.is_none(), "no more causes");
            }
            None => assert!(false, "no longer an error"),
        }
        assert!(b.to_borrowed_str().is_none() && b.to_u64().is_none() && !b.is_empty(), "reads as nothing else");
    }
    fn copy(b: ValueBag) -> OwnedValueBag {
        let o = b.to_owned();
        st::scribble();
        forget(b);
        o
    }
    fn f(o: OwnedValueBag, d: u8) {
        let r = o.by_ref();
        chain(&r, d);
        forget(r);
        forget(o);
    }
    cases! { 6;
        plain { set_link(); f(copy(ValueBag::capture_error(&Link::<0>)), 0) }
        one { set_link(); f(copy(ValueBag::capture_error(&Link::<1>)), 1) }
        two { set_link(); f(copy(ValueBag::from_dyn_error(&Link::<2>)), 2) }
        three { set_link(); f(copy(ValueBag::from_dyn_error(&Link::<3>)), 3) }
        filled { set_link(); f(copy(ValueBag::from_fill(&Filler::<1>)), 1) }
    }
    pub mod again {
        use super::*;
        cases! { 6;
            cloned { set_link(); let o = copy(ValueBag::capture_error(&Link::<2>)); let c = o.clone(); forget(o); f(c, 2) }
            copied { set_link(); let o = copy(ValueBag::capture_error(&Link::<2>)); let r = o.by_ref(); let c = r.to_owned(); forget(r); forget(o); f(c, 2) }
            shared { set_link(); let o = copy(ValueBag::capture_error(&Link::<2>)).into_shared(); f(o, 2) }
        }
    }
    pub mod formatted {
        use super::*;
        fn g(o: OwnedValueBag) {
            let mut w = Wr::new();
            assert!(write!(w, "{}", o).is_ok(), "formats");
            assert!(w.wrote(kept(1)), "formats as the error did");
            forget(o);
        }
        cases! { 6;
            owned { set_link(); g(copy(ValueBag::capture_error(&Link::<1>))) }
            shared { set_link(); g(copy(ValueBag::capture_error(&Link::<1>)).into_shared()) }
        }
    }
    /// Captured for sharing without a copy
    pub mod shared {
        use super::*;
        fn g(o: &ValueBag) {
            let r = o.by_ref();
            match r.to_borrowed_error() {
                Some(e) => {
                    let mut w = Wr::new();
                    assert!(write!(w, "{}", e).is_ok() && w.wrote(text(1)), "the error's text");
                    assert!(e.source().is_some(), "the error's cause");
                    assert!(e.is::<Link<1>>(), "the error captured");
                }
                None => assert!(false, "the error is gone"),
            }
            forget(r);
        }
        cases! { 6;
            captured { set_link(); let o = ValueBag::capture_shared_error(Link::<1>); g(&o); forget(o); }
            cloned { set_link(); let o = ValueBag::capture_shared_error(Link::<1>); let c = o.clone(); g(&c); forget(c); forget(o); }
            copied { set_link(); let o = ValueBag::capture_shared_error(Link::<1>); let r = o.by_ref(); let c = r.to_owned(); let v = c.by_ref(); g(&v); forget(v); forget(c); forget(r); forget(o); }
            into { set_link(); let b = ValueBag::capture_shared_error(Link::<1>); let o = b.to_shared(); let v = o.by_ref(); g(&v); forget(v); forget(o); forget(b); }
        }
    }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    #[allow(unused_mut)]
    let mut t = [borrowed::TABLE, not_an_error::TABLE, filled::TABLE].concat();
    #[cfg(feature = "owned")]
    t.extend([owned::TABLE, owned::again::TABLE, owned::formatted::TABLE, owned::shared::TABLE].concat());
    t
}
