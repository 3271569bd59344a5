//! One copy of the collector and the hash code, with what they need from
//! the rest of the interpreter.
pub mod alloc;
pub mod gc;
pub mod natives;
pub mod poll_flag;
pub mod rhash;
pub mod value;

pub use value::*;

pub use rubymap::{RubyEql, RubyHash};
pub use std::hash::{Hash, Hasher};
