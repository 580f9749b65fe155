//! Proof harnesses over the public API of `ordinal-map`.
//!
//! Each harness is an ordinary function over symbolic inputs (`nd`). Kani/CBMC decides it for
//! every input within its bounds; the native `replay` binary runs the same function on the
//! concrete values the solver returned.
#![allow(clippy::all, unused, semicolon_in_expressions_from_macros)]

/// The type of a sparse map with these keys and values.
macro_rules! map {
    (OrdinalMap, $k:ty, $v:ty, $n:literal) => { ordinal_map::map::OrdinalMap<$k, $v> };
    (OrdinalArrayMap, $k:ty, $v:ty, $n:literal) => { ordinal_map::map::OrdinalArrayMap<$k, $v, $n> };
}

pub mod keys;
pub mod nd;
pub mod model;

/// Declares proof harnesses: `#[unwind(N)] fn name() { .. }`.
///
/// Each gets a reachability witness at its end: a run in which it cannot be satisfied is
/// vacuous and the checker refuses it.
#[macro_export]
macro_rules! harnesses {
    ($( #[unwind($u:tt)] fn $name:ident() $body:block )*) => {
        $(
            #[cfg_attr(kani, kani::proof, kani::unwind($u))]
            pub fn $name() {
                #[allow(unused_braces)]
                let () = $body;
                #[cfg(kani)]
                kani::cover!(true, "harness end reached");
            }
        )*
        /// The harnesses of this module: name, body, unwinding bound.
        pub const LIST: &[(&str, fn(), u32)] = &[
            $( (concat!(module_path!(), "::", stringify!($name)), $name as fn(), $u) ),*
        ];
        pub const LISTS: &[&[(&str, fn(), u32)]] = &[LIST];
    };
}

/// A module whose harnesses walk several iterators in every way, next to plain harnesses.
/// `$mac!(walk, args..)` builds one iterator and its model and calls the walk on them.
macro_rules! walks {
    ($mac:ident, #[unwind($u:tt)] { $($suite:ident($($arg:tt)*);)* } { $($plain:tt)* }) => {
        pub mod plain {
            use super::*;
            crate::harnesses! { $($plain)* }
        }
        $( pub mod $suite {
            use super::*;
            crate::harnesses! {
                #[unwind($u)] fn ends() { $mac!(walk_ends, $($arg)*) }
                #[unwind($u)] fn nth() { $mac!(walk_nth, $($arg)*) }
                #[unwind($u)] fn nth_back() { $mac!(walk_nth_back, $($arg)*) }
                #[unwind($u)] fn count() { $mac!(walk_count, $($arg)*) }
                #[unwind($u)] fn last() { $mac!(walk_last, $($arg)*) }
                #[unwind($u)] fn fold() { $mac!(walk_fold, $($arg)*) }
                #[unwind($u)] fn rfold() { $mac!(walk_rfold, $($arg)*) }
            }
        } )*
        pub const LISTS: &[&[(&str, fn(), u32)]] = &[plain::LIST, $( $suite::LIST ),*];
    };
}

macro_rules! modules {
    ($($m:ident),* $(,)?) => {
        $( pub mod $m; )*
        pub const ALL: &[&[&[(&str, fn(), u32)]]] = &[ $( $m::LISTS ),* ];
    };
}

modules! { p01, p02, p03, p04, p05, p06, p07, p08, p09, p10, p11, p12, p13, p14, p15, p16, p17, p18, p19, p20, t03, t09, t10, t12, t19 }
