//! A facade of `std` in which `HashMap`, `HashSet`, `Vec` and `VecDeque` are
//! bounded models whose layout a bounded model checker can digest.
//!
//! The scratch copy of daab is compiled with `extern crate vstd as std;`, so
//! every `std::collections::HashMap` in its unmodified source text resolves
//! here. Everything else is the real standard library.
//!
//! A state outside the model (more keys than slots, a key that is not one of
//! the harness's builder addresses, a longer vector) panics with `VSTD-LIMIT`,
//! which the runner reports as inconclusive, never as a pass or a violation.
#![allow(clippy::all)]
pub use ::std::*;

#[cfg(feature = "fmt_model")]
pub mod fmtmodel;
/// Output whose errors are plain: the real `io::Error` cannot be encoded.
#[cfg(feature = "fmt_model")]
pub mod io {
    pub use ::std::io::*;
    #[derive(Debug)]
    pub struct Error;
    pub type Result<T> = ::std::result::Result<T, Error>;
    pub trait Write {
        fn write(&mut self, b: &[u8]) -> Result<usize>;
        fn write_all(&mut self, b: &[u8]) -> Result<()> { self.write(b).map(|_| ()) }
        fn flush(&mut self) -> Result<()>;
    }
}
/// Type names do not matter.
#[cfg(feature = "fmt_model")]
pub mod any {
    pub use ::std::any::*;
    pub fn type_name<T: ?Sized>() -> &'static str { "T" }
}
pub mod model;
pub mod seq;

pub mod collections {
    pub use ::std::collections::*;
    pub use crate::model::{HashMap, HashSet};
    pub use crate::seq::VecDeque;
    pub mod hash_map {
        pub use ::std::collections::hash_map::{DefaultHasher, RandomState};
        pub use crate::model::{Entry, HashMap, OccupiedEntry, VacantEntry, MapIter as Iter, MapIterMut as IterMut, Keys, Values, ValuesMut, MapIntoIter as IntoIter, MapDrain as Drain};
    }
    pub mod hash_set {
        pub use crate::model::{HashSet, SetIter as Iter, SetIntoIter as IntoIter, SetIntoIter as Drain};
    }
}

pub mod vec {
    pub use ::std::vec::*;
    pub use crate::seq::{Vec, SeqIntoIter as IntoIter};
}

#[macro_export]
macro_rules! vec {
    () => { $crate::seq::Vec::new() };
    ($x:expr; $n:expr) => {{ let mut v = $crate::seq::Vec::new(); for _ in 0..$n { v.push(::core::clone::Clone::clone(&$x)); } v }};
    ($($x:expr),+ $(,)?) => {{ let mut v = $crate::seq::Vec::new(); $( v.push($x); )+ v }};
}

#[doc(hidden)]
#[macro_export]
macro_rules! __vec {
    ($($x:tt)*) => { $crate::vec![$($x)*] };
}

/// The `Debug` text of everything that is neither number nor string (0: none).
pub static mut DEBUG_TEXT: (u8, u64) = (0, 0x7e47_7e47_7e47_7e47);

/// Formatting is outside the model: every formatted text is empty. Only used
/// in configurations marked `nofmt`, `fmtmodel` has its own.
#[cfg(not(feature = "fmt_model"))]
#[macro_export]
macro_rules! format {
    ($($x:tt)*) => { $crate::string::String::new() };
}

/// What is appended to each source file that does not import these itself.
pub mod shadow {
    pub use crate::seq::Vec;
}
pub mod shadow_macro {
    pub use crate::__vec as vec;
}
