//! P03: a captured primitive answers only as its own kind.

use crate::{nd, spec::*, st};
use value_bag::ValueBag;

pub mod reads {
    use super::*;
    fn f(v: Val) {
        let b = bag(v);
        reads_num(&b, v);
        reads_other(&b, v, Text::Same);
        empties(&b, v);
        std::mem::forget(b);
    }
    per_kind!(2 f);
}

pub mod own {
    use super::*;
    contracts! {
        2 read_bool(x: bool = nd::bool()) -> Option<bool>, { ValueBag::from_bool(x).to_bool() } ensures |r| *r == Some(x);
        2 read_char(x: char = nd::char()) -> Option<char>, { ValueBag::from_char(x).to_char() } ensures |r| *r == Some(x);
    }
}

/// Text of many lengths is the captured slice
pub mod text {
    use super::*;
    fn f<const N: usize>() {
        st::set_text(96);
        let s = st::text(0, N);
        let b = ValueBag::from_str(s);
        reads_other(&b, Val::S(s), Text::Same);
        empties(&b, Val::S(s));
        std::mem::forget(b);
    }
    cases! { 2;
        len0 { f::<0>() }
        len1 { f::<1>() }
        len22 { f::<22>() }
        len23 { f::<23>() }
        len90 { f::<90>() }
    }
}

/// Formatted-only values and optionals
pub mod more {
    use super::*;
    cases! { 2;
        display { let b = ValueBag::from_display(&Formatted); reads(&b, Val::Opaque, Text::Same); empties(&b, Val::Opaque); std::mem::forget(b); }
        capture_debug { let b = ValueBag::capture_debug(&Formatted); reads(&b, Val::Opaque, Text::Same); empties(&b, Val::Opaque); std::mem::forget(b); }
        dyn_display { let b = ValueBag::from_dyn_display(&Formatted); reads(&b, Val::Opaque, Text::Same); empties(&b, Val::Opaque); std::mem::forget(b); }
        option { let x = if nd::bool() { Some(nd::bool()) } else { None };
            let v = match x { Some(x) => Val::B(x), None => Val::None };
            let b = ValueBag::from_option(x); reads_other(&b, v, Text::Same); empties(&b, v); std::mem::forget(b); }
    }
}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> { [reads::TABLE, own::TABLE, text::TABLE, more::TABLE].concat() }
