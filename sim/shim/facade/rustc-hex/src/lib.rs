#![allow(clippy::all, unused, deprecated)]
pub use hex::{FromHex, ToHex as ToHex_};
pub trait ToHex { fn to_hex<T: std::iter::FromIterator<char>>(&self) -> T; }
impl<U: AsRef<[u8]> + ?Sized> ToHex for U { fn to_hex<T: std::iter::FromIterator<char>>(&self) -> T { hex::encode(self.as_ref()).chars().collect() } }
