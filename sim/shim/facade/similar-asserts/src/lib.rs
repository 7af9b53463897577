#![allow(clippy::all, unused, deprecated)]
pub use std::{assert_eq, assert_ne};
