//! scale-info (shim): metadata is irrelevant to behaviour, every type has it.
pub use scale_info_derive::TypeInfo;
pub trait TypeInfo {}
impl<T: ?Sized> TypeInfo for T {}
pub trait StaticTypeInfo: 'static {}
impl<T: ?Sized + 'static> StaticTypeInfo for T {}
pub mod prelude { pub use std::*; }
