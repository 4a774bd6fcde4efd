//! The two sides of every equation as functions: `api::NAME::l` is the code, `api::NAME::r` the specification.
#![allow(unused_imports, unused_variables, clippy::all)]
pub use crate::dump::*;
pub use crate::eqs::*;
pub use pddl::*;
pub use pddl::parsers::preamble::UnwrapValue;
pub use std::borrow::Borrow;
pub use std::ops::Deref;
pub use std::str::FromStr;

macro_rules! sides {
    ($($n:ident ($($a:ident : $t:ty),*) { $($l:tt)* } { $($r:tt)* })*) => {
        $(
            pub mod $n {
                use super::*;
                pub fn l($($a: $t),*) -> T { $($l)* }
                pub fn r($($a: $t),*) -> T { $($r)* }
            }
        )*
    };
}
crate::with_equations!(sides);
