#![allow(clippy::all, unused, deprecated)]
pub use node::rpc::SubscriptionSink;
pub mod core { pub use node::rpc::{Error, RpcResult}; pub use frame_macros::identity as async_trait; }
pub mod proc_macros { pub use frame_macros::rpc; }
pub mod types { pub use node::rpc::SubscriptionEmptyError; }
