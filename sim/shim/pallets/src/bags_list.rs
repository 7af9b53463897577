//! not modelled.
