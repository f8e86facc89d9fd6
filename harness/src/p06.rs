//! P06: downcasting returns the captured object or nothing.

use crate::{nd, spec::*, src::*, st};
use std::{fmt, mem::forget};
use value_bag::ValueBag;

/// The captured type
#[derive(Clone, Copy)]
pub struct A(pub u64);
/// A different type that looks the same
#[derive(Clone, Copy)]
pub struct B(pub u64);

macro_rules! formats {
    ($($t:ident)*) => { $(
        impl fmt::Debug for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("x") } }
        impl fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("x") } }
        impl std::error::Error for $t {}
        #[cfg(feature = "sval2")]
        impl value_bag_sval2::lib::Value for $t {
            fn stream<'s, S: value_bag_sval2::lib::Stream<'s> + ?Sized>(&'s self, s: &mut S) -> value_bag_sval2::lib::Result { s.u64(self.0) }
        }
        #[cfg(feature = "serde1")]
        impl value_bag_serde1::lib::Serialize for $t {
            fn serialize<S: value_bag_serde1::lib::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64(self.0) }
        }
    )* };
}
formats!(A B);

/// The bag holds exactly the object `a`
fn holds(b: &ValueBag, a: &A) {
    match b.downcast_ref::<A>() {
        Some(r) => assert!(r as *const A == a as *const A, "the captured object"),
        None => assert!(false, "not downcast to its own type"),
    }
    assert!(b.is::<A>(), "is its own type");
    not_other(b);
}
/// The bag holds some object equal to `a`
fn holds_equal(b: &ValueBag, a: u64) {
    match b.downcast_ref::<A>() {
        Some(r) => assert!(r.0 == a, "the captured object"),
        None => assert!(false, "not downcast to its own type"),
    }
    not_other(b);
}
fn not_other(b: &ValueBag) {
    assert!(b.downcast_ref::<B>().is_none(), "downcast to a look-alike");
    assert!(b.downcast_ref::<u64>().is_none(), "downcast to its content");
    assert!(b.downcast_ref::<&A>().is_none(), "downcast to a reference");
    assert!(!b.is::<B>() && !b.is::<()>(), "is another type");
}
fn holds_nothing(b: &ValueBag) {
    assert!(b.downcast_ref::<A>().is_none() && !b.is::<A>(), "downcast without its type");
    not_other(b);
}

pub mod borrowed {
    use super::*;
    fn f(a: &A, b: ValueBag) {
        holds(&b, a);
        { let r = b.by_ref(); holds(&r, a); forget(r); }
        { let r = b.clone(); holds(&r, a); forget(r); }
        forget(b);
    }
    cases! { 2;
        debug { let a = A(nd::u64()); f(&a, ValueBag::capture_debug(&a)) }
        display { let a = A(nd::u64()); f(&a, ValueBag::capture_display(&a)) }
    }
}
#[cfg(feature = "error")]
pub mod error {
    use super::*;
    cases! { 2;
        captured { let a = A(nd::u64()); let b = ValueBag::capture_error(&a); holds(&b, &a); forget(b); }
        by_ref { let a = A(nd::u64()); let b = ValueBag::capture_error(&a); let r = b.by_ref(); holds(&r, &a); forget(r); forget(b); }
        erased { let a = A(nd::u64()); let b = ValueBag::from_dyn_error(&a); holds_nothing(&b); forget(b); }
    }
}
#[cfg(feature = "sval2")]
pub mod sval {
    use super::*;
    cases! { 2;
        captured { let a = A(nd::u64()); let b = ValueBag::capture_sval2(&a); holds(&b, &a); forget(b); }
        by_ref { let a = A(nd::u64()); let b = ValueBag::capture_sval2(&a); let r = b.by_ref(); holds(&r, &a); forget(r); forget(b); }
        untyped { let a = A(nd::u64()); let b = ValueBag::from_sval2(&a); holds_nothing(&b); forget(b); }
        erased { let a = A(nd::u64()); let b = ValueBag::from_dyn_sval2(&a); holds_nothing(&b); forget(b); }
    }
}
#[cfg(feature = "serde1")]
pub mod serde {
    use super::*;
    cases! { 2;
        captured { let a = A(nd::u64()); let b = ValueBag::capture_serde1(&a); holds(&b, &a); forget(b); }
        by_ref { let a = A(nd::u64()); let b = ValueBag::capture_serde1(&a); let r = b.by_ref(); holds(&r, &a); forget(r); forget(b); }
        untyped { let a = A(nd::u64()); let b = ValueBag::from_serde1(&a); holds_nothing(&b); forget(b); }
    }
}

pub mod nothing {
    use super::*;
    cases! { 2;
        debug { let a = A(nd::u64()); let b = ValueBag::from_debug(&a); holds_nothing(&b); forget(b); }
        display { let a = A(nd::u64()); let b = ValueBag::from_display(&a); holds_nothing(&b); forget(b); }
        dyn_debug { let a = A(nd::u64()); let b = ValueBag::from_dyn_debug(&a); holds_nothing(&b); forget(b); }
        dyn_display { let a = A(nd::u64()); let b = ValueBag::from_dyn_display(&a); holds_nothing(&b); forget(b); }
        captured_primitive { let x = nd::u64(); let b = ValueBag::capture_debug(&x); holds_nothing(&b); forget(b); }
    }
}
pub mod primitives {
    use super::*;
    fn f(v: Val) {
        let b = bag(v);
        holds_nothing(&b);
        assert!(b.downcast_ref::<i64>().is_none() && b.downcast_ref::<&'static str>().is_none(), "a primitive downcast");
        assert!(b.downcast_ref::<bool>().is_none() && b.downcast_ref::<char>().is_none() && b.downcast_ref::<f64>().is_none(), "a primitive downcast");
        forget(b);
    }
    per_kind!(2 f);
}

#[cfg(feature = "owned")]
pub mod shared {
    use super::*;
    /// Every clone and view gives the same object
    fn f(b: ValueBag<'static>, a: u64) {
        holds_equal(&b, a);
        let p = b.downcast_ref::<A>().unwrap() as *const A;
        let c = b.clone();
        holds_equal(&c, a);
        assert!(c.downcast_ref::<A>().unwrap() as *const A == p, "the same object in a clone");
        let r = b.by_ref();
        holds_equal(&r, a);
        assert!(r.downcast_ref::<A>().unwrap() as *const A == p, "the same object in a view");
        let o = b.to_owned();
        let v = o.by_ref();
        holds_equal(&v, a);
        assert!(v.downcast_ref::<A>().unwrap() as *const A == p, "the same object in an owned copy");
        forget(v);
        forget(o);
        forget(r);
        forget(c);
        forget(b);
    }
    cases! { 2;
        debug { let a = nd::u64(); f(ValueBag::capture_shared_debug(A(a)), a) }
        display { let a = nd::u64(); f(ValueBag::capture_shared_display(A(a)), a) }
    }
    #[cfg(feature = "error")]
    pub mod error {
        use super::*;
        triples! { 2 error { let a = nd::u64(); f(ValueBag::capture_shared_error(A(a)), a) } }
    }
    #[cfg(feature = "sval2")]
    pub mod sval {
        use super::*;
        triples! { 2 sval { let a = nd::u64(); f(ValueBag::capture_shared_sval2(A(a)), a) } }
    }
    #[cfg(feature = "serde1")]
    pub mod serde {
        use super::*;
        triples! { 2 serde { let a = nd::u64(); f(ValueBag::capture_shared_serde1(A(a)), a) } }
    }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut t = [borrowed::TABLE, nothing::TABLE, primitives::TABLE].concat();
    #[cfg(feature = "error")]
    t.extend_from_slice(error::TABLE);
    #[cfg(feature = "sval2")]
    t.extend_from_slice(sval::TABLE);
    #[cfg(feature = "serde1")]
    t.extend_from_slice(serde::TABLE);
    #[cfg(feature = "owned")]
    t.extend_from_slice(shared::TABLE);
    #[cfg(all(feature = "owned", feature = "error"))]
    t.extend_from_slice(shared::error::TABLE);
    #[cfg(all(feature = "owned", feature = "sval2"))]
    t.extend_from_slice(shared::sval::TABLE);
    #[cfg(all(feature = "owned", feature = "serde1"))]
    t.extend_from_slice(shared::serde::TABLE);
    t
}
