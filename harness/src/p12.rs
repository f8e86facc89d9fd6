//! P12: buffered text is the whole text, whatever its length or pieces.

use crate::{is_ok, nd, spec::*, st};
use std::{
    fmt::{self, Write},
    mem::forget,
};
use value_bag::ValueBag;

static mut CUT: (usize, usize, usize) = (0, 0, 0);
fn cut(a: usize, b: usize, c: usize) {
    st::set_text(a + b + c);
    unsafe { CUT = (a, b, c) }
}

/// Writes its text in pieces of the chosen lengths
struct Pieces;
fn pieces(f: &mut fmt::Formatter) -> fmt::Result {
    let (a, b, c) = unsafe { CUT };
    f.write_str(st::text(0, a))?;
    if b > 0 { f.write_str(st::text(a, b))?; }
    if c > 0 { f.write_str(st::text(a + b, c))?; }
    Ok(())
}
impl fmt::Debug for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { pieces(f) }
}
impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { pieces(f) }
}

/// A writer that tests the probed byte and keeps the length
fn holds(b: &ValueBag, debug: bool, n: usize) {
    let mut w = Wr::new();
    assert!((if debug { write!(w, "{:?}", b) } else { write!(w, "{}", b) }).is_ok(), "formats");
    assert!(w.wrote(st::kept(0, n)), "the whole text");
    assert!(b.to_borrowed_str().is_none() && !b.is_empty(), "isn't plain text");
}
fn display(n: usize) {
    let o = { let b = ValueBag::from_display(&Pieces); let o = b.to_owned(); forget(b); o };
    st::scribble();
    let r = o.by_ref();
    holds(&r, false, n);
    forget(r);
    forget(o);
}
fn debug(n: usize) {
    let o = { let b = ValueBag::from_debug(&Pieces); let o = b.to_owned(); forget(b); o };
    st::scribble();
    let c = o.clone();
    forget(o);
    let r = c.by_ref();
    holds(&r, true, n);
    forget(r);
    forget(c);
}

macro_rules! lengths {
    ($($m:ident: $($name:ident $a:literal $b:literal $c:literal,)*;)*) => {
        pub mod displayed { use super::*; $(pub mod $m { use super::*; cases! { 4; $($name { cut($a, $b, $c); display($a + $b + $c) })* } })* }
        pub mod debugged { use super::*; $(pub mod $m { use super::*; cases! { 4; $($name { cut($a, $b, $c); debug($a + $b + $c) })* } })* }
        #[cfg(not(kani))]
        pub fn table() -> Vec<(&'static str, fn())> {
            [$(displayed::$m::TABLE, debugged::$m::TABLE,)*].concat()
        }
    };
}
lengths! {
    one:
        one_1 1 0 0,
        one_22 22 0 0,
        one_23 23 0 0,
        one_46 46 0 0,
        one_47 47 0 0,
        one_64 64 0 0,
        one_65 65 0 0,
    ;
    two:
        two_21 3 18 0,
        two_22 3 19 0,
        two_23 22 1 0,
        two_46 40 6 0,
        two_47 46 1 0,
        two_64 3 61 0,
        two_65 64 1 0,
        two_70 5 65 0,
    ;
    three:
        three_22 7 7 8,
        three_64 22 22 20,
        three_66 63 1 2,
        three_90 40 25 25,
    ;
}
