pub use digest::Digest;
use digest::{consts::U20, FixedOutput, HashMarker, Output, OutputSizeUser, Update};
#[derive(Clone, Default)]
pub struct Ripemd160(Vec<u8>);
impl HashMarker for Ripemd160 {}
impl OutputSizeUser for Ripemd160 {
	type OutputSize = U20;
}
impl Update for Ripemd160 {
	fn update(&mut self, d: &[u8]) {
		self.0.extend_from_slice(d)
	}
}
impl FixedOutput for Ripemd160 {
	fn finalize_into(self, out: &mut Output<Self>) {
		out.copy_from_slice(&simcrypto::ripemd160(&self.0))
	}
}
