//! pallet_session: only the traits used by the repository.
pub use substrate::misc::sp_session::*;
