//! Helpers shared by the single-chain simulations.
use substrate::io::TestExternalities;

/// The durable state of a node: what is left after a crash.
#[derive(Clone)]
pub struct Snapshot(pub std::collections::BTreeMap<Vec<u8>, Vec<u8>>);
pub fn snapshot(e: &TestExternalities) -> Snapshot {
	Snapshot(e.snapshot())
}
pub fn restore(e: &mut TestExternalities, s: &Snapshot) {
	*e = e.with_map(s.0.clone());
}
