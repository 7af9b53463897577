#![allow(clippy::all, unused, deprecated)]
pub use node::timers::Delay;
