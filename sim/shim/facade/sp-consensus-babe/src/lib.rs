#![allow(clippy::all, unused, deprecated)]
pub type AuthorityId = sp_core::sr25519::Public;
