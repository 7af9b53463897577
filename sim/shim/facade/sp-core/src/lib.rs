#![allow(clippy::all, unused, deprecated)]
pub use substrate::core_::*; pub use substrate::bounded::{self as bounded_like, ConstBool, ConstU8, ConstU16, ConstU32, ConstU64, ConstU128, Get, GetDefault, BoundedVec, BoundedBTreeMap, TypedGet}; pub use substrate::bounded_vec; pub use frame_macros::{RuntimeDebug, hex as hex2array};
