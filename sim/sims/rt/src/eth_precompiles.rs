//! Ethereum's own precompiles are not simulated.
use fp_evm::{ExitError, Precompile, PrecompileFailure, PrecompileHandle, PrecompileResult};
macro_rules! absent {
	($($n:ident),*) => { $(
		pub struct $n;
		impl Precompile for $n {
			fn execute(_h: &mut impl PrecompileHandle) -> PrecompileResult {
				Err(PrecompileFailure::Error { exit_status: ExitError::Other("not simulated".into()) })
			}
		}
	)* };
}
absent!(Blake2F, Bn128Add, Bn128Mul, Bn128Pairing, Modexp, Sha3FIPS256, ECRecover, ECRecoverPublicKey, Identity, Ripemd160, Sha256);
