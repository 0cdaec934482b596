//! Symbolic harnesses for shogi_core.
//!
//! Every harness is one function over nondeterministic values (`nd`).  Under `cargo kani` it is a proof
//! harness; natively it can be run on the values of a counterexample (`src/bin/replay.rs`).
#![allow(deprecated, unused_imports, unused_macros, unused_variables)]

pub mod nd;

/// Assertion: the property violated is named by the message.
#[macro_export]
macro_rules! ck {
    ($c:expr, $($m:tt)*) => { assert!($c, $($m)*) };
}
/// Reachability witness: the solver has to find a run that satisfies it, or the check counts as vacuous.
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        let _ = $c;
    }};
}

/// `[property tier unwind] fn name() { .. }`: tier `quick` runs in both tiers, `thorough` only in the thorough one.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$a:meta])* [$prop:ident $tier:ident $unwind:literal $($opt:ident)*] fn $name:ident() $body:block )*) => {
        $(
            $(#[$a])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}

pub mod model;
pub mod sfen;

macro_rules! modules {
    ($($m:ident),* $(,)?) => {
        $(pub mod $m;)*
        #[cfg(not(kani))]
        pub fn find(name: &str) -> Option<fn()> {
            let tables: &[&[(&str, fn())]] = &[$($m::TABLE),*];
            for t in tables {
                for (n, f) in t.iter() {
                    if *n == name {
                        return Some(*f);
                    }
                }
            }
            None
        }
    };
}

modules!(h_square, h_bitboard, h_piece, h_hand, h_mv, h_bridge, h_position, h_history, h_sfen, h_game, h_cmp, h_c, h_legal, h_safe);
