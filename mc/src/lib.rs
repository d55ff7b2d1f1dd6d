//! A small stateless model checker for sequential unsafe Rust code.
//!
//! Everything here is single threaded on purpose. Compiles with rustc 1.52.1 and later.
#![allow(clippy::all)]
#![cfg_attr(feature = "nightly", feature(allocator_api, exact_size_is_empty))]

pub mod alloc;
pub mod engine;
pub mod guard;
pub mod ops;
pub mod spy;
pub mod stores;
pub mod sys;
pub mod tok;
pub mod walk;
pub mod world;

pub use crate::alloc::{allocs, lib, off, Stat};
pub use engine::{choose, fault, flag, obs, pick, run_main, state, step, violation, Group, Tier};
pub use tok::{Elem, Injected};
pub use world::{attempt, must, owned, same, same1, settle, Outcome, M, W};

/// Reports a broken property and ends the process.
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { $crate::engine::fail_fmt(format_args!($($t)*)) };
}

/// Checks a fact of the property.
#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !($c) { $crate::fail!($($t)*) } };
}

/// Adds a line to the readable trace (replays only).
#[macro_export]
macro_rules! log {
    ($($t:tt)*) => { if $crate::engine::verbose() { $crate::engine::log_fmt(format_args!($($t)*)) } };
}

/// Announces the operation about to be performed; `{}` in the template stand for the numbers.
#[macro_export]
macro_rules! op {
    ($t:expr $(, $n:expr)* $(,)?) => { $crate::engine::op($t, &[$($n as isize),*]) };
}
