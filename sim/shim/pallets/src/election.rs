//! not modelled.
pub struct NoElection<X>(std::marker::PhantomData<X>);
