//! Proof harnesses for value-bag.
//!
//! Under `cargo kani` every harness is a proof; natively the same bodies are
//! plain functions that the `replay` binary runs on concrete inputs.

#![recursion_limit = "1024"]

pub mod ev;
pub mod nd;
pub mod spec;
pub mod src;
pub mod st;
#[cfg(kani)]
mod stubs;

#[cfg(not(kani))]
pub type Table = &'static [(&'static str, fn())];

/// `unwind name { body }`: pre- and postconditions as assumptions and assertions
macro_rules! triples {
    ($($n:literal $name:ident $b:block)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($n))]
            #[cfg_attr(kani, kani::stub(std::any::TypeId::of, crate::stubs::type_id_of))]
            #[cfg_attr(kani, kani::stub(std::any::TypeId::eq, crate::stubs::type_id_eq))]
            #[cfg_attr(kani, kani::stub(std::fmt::Arguments::as_str, crate::stubs::arguments_as_str))]
            pub fn $name() {
                { $b }
                #[cfg(kani)]
                kani::cover!(true, "end reached");
            }
        )*
        #[cfg(not(kani))]
        pub const TABLE: crate::Table = &[$((concat!(module_path!(), "::", stringify!($name)), $name),)*];
    };
}

/// `unwind; name { body } …`: one harness for several triples, of which one is picked
macro_rules! cases {
    ($n:literal; $($name:ident $b:block)*) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($n))]
        #[cfg_attr(kani, kani::stub(std::any::TypeId::of, crate::stubs::type_id_of))]
        #[cfg_attr(kani, kani::stub(std::any::TypeId::eq, crate::stubs::type_id_eq))]
        #[cfg_attr(kani, kani::stub(std::fmt::Arguments::as_str, crate::stubs::arguments_as_str))]
        pub fn any() { pick_case!($($name $b)*) }
        #[cfg(not(kani))]
        pub const TABLE: crate::Table = &[(concat!(module_path!(), "::any"), any)];
    };
}
macro_rules! pick_case {
    ($($name:ident $b:block)*) => {{
        let k = crate::nd::pick(0 $(+ { stringify!($name); 1 })*);
        let mut _i = 0;
        $(
            if k == _i {
                { $b }
                #[cfg(kani)]
                kani::cover(true, concat!(stringify!($name), ": end reached"));
                return;
            }
            _i += 1;
        )*
    }};
}

/// `unwind name (args) -> Ret { call } |r| post`: a forwarding function under contract
macro_rules! contracts {
    ($($n:literal $name:ident ($($a:ident: $t:ty = $i:expr),*) -> $r:ty $(, requires $pre:expr)?, { $call:expr } ensures |$o:ident| $post:expr;)*) => {
        pub mod shim {
            use super::*;
            $(
                #[cfg_attr(kani, kani::ensures(|$o: &$r| $post))]
                $(#[cfg_attr(kani, kani::requires($pre))])?
                pub fn $name($($a: $t),*) -> $r { $call }
            )*
        }
        pub mod spec {
            #[allow(unused)]
            use super::*;
            #[allow(unused)]
            use crate::spec::*;
            $(
                #[allow(unused)]
                #[cfg(not(kani))]
                pub fn $name($($a: $t,)* $o: &$r) -> bool { $post }
            )*
        }
        $(
            #[cfg_attr(kani, kani::proof_for_contract(shim::$name))]
            #[cfg_attr(kani, kani::unwind($n))]
            pub fn $name() {
                $(let $a: $t = $i;)*
                #[cfg(kani)]
                {
                    let _ = shim::$name($($a),*);
                    kani::cover!(true, "end reached");
                }
                #[cfg(not(kani))]
                {
                    $(nd::assume($pre);)?
                    let r = shim::$name($($a),*);
                    assert!(spec::$name($($a,)* &r), "postcondition of {}", stringify!($name));
                }
            }
        )*
        #[cfg(not(kani))]
        pub const TABLE: crate::Table = &[$((concat!(module_path!(), "::", stringify!($name)), $name),)*];
    };
}

/// Whether a result is a success, without running its destructor
pub fn is_ok<T, E>(r: Result<T, E>) -> bool {
    let ok = r.is_ok();
    std::mem::forget(r);
    ok
}

macro_rules! properties {
    ($($(#[$c:meta])* $m:ident;)*) => {
        $($(#[$c])* pub mod $m;)*
        #[cfg(not(kani))]
        pub fn table() -> Vec<(&'static str, fn())> {
            let mut t = Vec::new();
            $($(#[$c])* t.extend($m::table());)*
            t
        }
    };
}
properties! {
    p01;
    p02;
    p03;
    p04;
    p05;
    p06;
    p07;
    p08;
    p09;
    #[cfg(feature = "owned")]
    p10;
    #[cfg(feature = "owned")]
    p11;
    #[cfg(feature = "owned")]
    p12;
    p13;
    #[cfg(feature = "seq")]
    p14;
    #[cfg(feature = "sval2")]
    p15;
    #[cfg(feature = "serde1")]
    p16;
    #[cfg(any(feature = "sval2", feature = "serde1"))]
    p17;
    #[cfg(feature = "error")]
    p18;
    p19;
    p20;
    #[cfg(feature = "test")]
    p21;
}
