//! Harnesses: each is one function over `Gen`, checked symbolically by Kani and replayed natively.
#![allow(clippy::all)]
#![allow(dead_code)]

pub mod ev;
pub mod gen;

pub use ev::*;
pub use gen::Gen;

pub struct Harness {
    pub prop: &'static str,
    pub name: &'static str,
    /// "complete": loop free or fully unwound over the full input domain; "bounded": stated bound; "none": not run by Kani.
    pub kani: &'static str,
    pub bound: &'static str,
    pub run: fn(&mut Gen),
    /// Native exploration: how many random cases at the quick tier, and whether choices are also enumerated.
    pub random: u64,
    pub exhaustive: bool,
}

#[macro_export]
macro_rules! harnesses {
    ($($(#[doc = $doc:expr])* [$prop:expr, $kani:tt, unwind $u:expr, random $r:expr, exhaustive $x:expr, $bound:expr] fn $name:ident($g:ident) $body:block)*) => {
        $( $(#[doc = $doc])* pub fn $name($g: &mut $crate::Gen) $body )*
        pub const TABLE: &[$crate::Harness] = &[ $( $crate::Harness {
            prop: $prop, name: stringify!($name), kani: stringify!($kani), bound: $bound,
            run: $name, random: $r, exhaustive: $x,
        } ),* ];
        #[cfg(kani)]
        mod kani_proofs {
            $( $crate::kani_proof!($kani, $u, $name); )*
        }
    };
}

#[macro_export]
macro_rules! kani_proof {
    (none, $u:expr, $name:ident) => {};
    ($kani:ident, $u:expr, $name:ident) => {
        #[kani::proof]
        #[kani::unwind($u)]
        fn $name() {
            let mut g = $crate::Gen::kani();
            super::$name(&mut g);
            kani::cover!(true, "the harness runs to completion");
        }
    };
}

#[cfg(not(kani))]
pub mod derive_catalogue;
pub mod core_props;
#[cfg(not(kani))]
pub mod tree;
#[cfg(not(kani))]
pub mod json_props;
#[cfg(not(kani))]
pub mod buffer_props;
#[cfg(not(kani))]
pub mod data_props;
#[cfg(not(kani))]
pub mod fmt_props;
#[cfg(not(kani))]
pub mod flatten_props;
#[cfg(not(kani))]
pub mod nested_props;
#[cfg(not(kani))]
pub mod serde_props;
#[cfg(not(kani))]
pub mod derive_props;
#[cfg(not(kani))]
pub mod convert_props;

#[cfg(not(kani))]
pub fn all() -> impl Iterator<Item = &'static Harness> {
    [core_props::TABLE, json_props::TABLE, buffer_props::TABLE, data_props::TABLE, fmt_props::TABLE, flatten_props::TABLE, nested_props::TABLE, serde_props::TABLE, derive_props::TABLE, convert_props::TABLE].into_iter().flatten()
}
