//! Entry points for the verifier: each function calls exactly one operation of
//! the crate under test (or a composition a property speaks of) on arbitrary
//! arguments. Nothing here contains logic of its own.
#![allow(clippy::all, unused, dead_code)]
pub mod sys;
pub mod pos;
pub mod agent;
pub mod misc;
pub mod list;
pub mod time;
pub mod analysis;
pub mod text;
