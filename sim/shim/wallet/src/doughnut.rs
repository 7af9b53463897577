//! doughnut-rs: certificates that allow a holder to act for an issuer.
use crate::pact::{types::PactType, Contract};
use codec::{Decode, Encode, Error, Input, Output};
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum VerifyError {
	Invalid,
	UnsupportedVersion,
	BadSignatureFormat,
	BadPublicKeyFormat,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ValidationError {
	HolderIdentityMismatched,
	Premature,
	Expired,
	Conversion,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SigningError {
	InvalidSecretKey,
}
pub mod traits {
	use super::*;
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	#[repr(u8)]
	pub enum FeeMode {
		ISSUER = 0,
		HOLDER = 1,
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	#[repr(u16)]
	pub enum PayloadVersion {
		V0 = 0,
		V1 = 1,
	}
	pub trait DoughnutApi {
		type PublicKey: AsRef<[u8]>;
		fn holder(&self) -> Self::PublicKey;
		fn issuer(&self) -> Self::PublicKey;
		fn fee_payer(&self) -> Self::PublicKey;
		fn expiry(&self) -> u32;
		fn not_before(&self) -> u32;
		fn payload(&self) -> Vec<u8>;
		fn get_topping(&self, domain: &str) -> Option<&[u8]>;
		fn validate<Q: AsRef<[u8]>, R: TryInto<u32>>(&self, who: Q, now: R) -> Result<(), ValidationError> {
			if self.holder().as_ref() != who.as_ref() {
				return Err(ValidationError::HolderIdentityMismatched);
			}
			let now: u32 = now.try_into().map_err(|_| ValidationError::Conversion)?;
			if now < self.not_before() {
				return Err(ValidationError::Premature);
			}
			if now >= self.expiry() {
				return Err(ValidationError::Expired);
			}
			Ok(())
		}
	}
	pub trait DoughnutVerify {
		fn verify(&self) -> Result<(), VerifyError>;
	}
	pub trait Signing {
		fn sign_ecdsa(&mut self, secret: &[u8; 32]) -> Result<[u8; 65], SigningError>;
		fn sign_eip191(&mut self, secret: &[u8; 32]) -> Result<[u8; 65], SigningError>;
	}
}
use traits::*;
pub mod signature {
	use super::*;
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	#[repr(u8)]
	pub enum SignatureVersion {
		Sr25519 = 0,
		Ed25519 = 1,
		ECDSA = 2,
		EIP191 = 3,
	}
	pub mod crypto {
		use super::*;
		fn hash(version: u8, m: &[u8]) -> Option<[u8; 32]> {
			if version == SignatureVersion::ECDSA as u8 {
				return Some(simcrypto::blake2_256(m));
			}
			if version == SignatureVersion::EIP191 as u8 {
				let mut v = format!("\x19Ethereum Signed Message:\n{}", m.len()).into_bytes();
				v.extend_from_slice(m);
				return Some(simcrypto::keccak_256(&v));
			}
			None
		}
		pub fn sign_ecdsa(secret: &[u8; 32], m: &[u8]) -> Result<[u8; 65], SigningError> {
			simcrypto::secp256k1::sign(secret, &hash(2, m).unwrap()).ok_or(SigningError::InvalidSecretKey)
		}
		pub fn sign_eip191(secret: &[u8; 32], m: &[u8]) -> Result<[u8; 65], SigningError> {
			simcrypto::secp256k1::sign(secret, &hash(3, m).unwrap()).ok_or(SigningError::InvalidSecretKey)
		}
		/// the half order of the group: signatures above it are the mirrored form of another
		const HALF: [u8; 32] = [0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x5d, 0x57, 0x6e, 0x73, 0x57, 0xa4, 0x50, 0x1d, 0xdf, 0xe9, 0x2f, 0x46, 0x68, 0x1b, 0x20, 0xa0];
		pub fn verify_signature(version: u8, sig: &[u8], signer: &[u8], m: &[u8]) -> Result<(), VerifyError> {
			let h = hash(version, m).ok_or(VerifyError::UnsupportedVersion)?;
			let s: [u8; 65] = sig.try_into().map_err(|_| VerifyError::BadSignatureFormat)?;
			let p: [u8; 33] = signer.try_into().map_err(|_| VerifyError::BadPublicKeyFormat)?;
			if s[32..64] > HALF[..] || s[64] > 1 {
				return Err(VerifyError::BadSignatureFormat);
			}
			let u = simcrypto::secp256k1::recover(&s, &h).map_err(|_| VerifyError::Invalid)?;
			if simcrypto::secp256k1::compress(&u) != p {
				return Err(VerifyError::Invalid);
			}
			Ok(())
		}
	}
}
use signature::{crypto::*, SignatureVersion};
pub mod doughnut {
	pub use super::{Doughnut, DoughnutV0, DoughnutV1};
	pub mod topping {
		pub use super::super::{Topping, TrnnutError};
		pub mod method {
			pub use crate::doughnut::Method;
		}
		pub mod module {
			pub use crate::doughnut::Module;
		}
	}
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DoughnutV0 {
	pub issuer: [u8; 32],
	pub holder: [u8; 32],
	pub toppings: Vec<(String, Vec<u8>)>,
	pub expiry: u32,
	pub not_before: u32,
	pub payload_version: u16,
	pub signature_version: u8,
	pub signature: Sig64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sig64(pub [u8; 64]);
impl Default for Sig64 {
	fn default() -> Self {
		Sig64([0; 64])
	}
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DoughnutV1 {
	pub issuer: [u8; 33],
	pub holder: [u8; 33],
	pub fee_mode: u8,
	pub toppings: Vec<(String, Vec<u8>)>,
	pub expiry: u32,
	pub not_before: u32,
	pub payload_version: u16,
	pub signature_version: u8,
	pub signature: [u8; 65],
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Doughnut {
	V0(DoughnutV0),
	V1(DoughnutV1),
}
fn names(v: &mut Vec<u8>, t: &[(String, Vec<u8>)]) {
	for (n, p) in t {
		let mut name = [0u8; 16];
		for (i, b) in n.bytes().take(16).enumerate() {
			name[i] = b;
		}
		v.extend_from_slice(&name);
		v.extend_from_slice(&(p.len() as u16).to_le_bytes());
	}
	for (_, p) in t {
		v.extend_from_slice(p);
	}
}
fn read<const N: usize, I: Input>(i: &mut I) -> Result<[u8; N], Error> {
	let mut b = [0; N];
	i.read(&mut b)?;
	Ok(b)
}
fn read_toppings<I: Input>(n: usize, i: &mut I) -> Result<Vec<(String, Vec<u8>)>, Error> {
	let mut heads = vec![];
	for _ in 0..n {
		let name: [u8; 16] = read(i)?;
		let len = u16::from_le_bytes(read(i)?);
		let name = String::from_utf8(name.to_vec()).map_err(|_| Error::from("topping name is not utf8"))?;
		heads.push((name.trim_matches(char::from(0)).to_string(), len));
	}
	let mut out = vec![];
	for (name, len) in heads {
		let mut p = vec![0; len as usize];
		i.read(&mut p)?;
		out.push((name, p));
	}
	Ok(out)
}
impl DoughnutApi for DoughnutV1 {
	type PublicKey = [u8; 33];
	fn holder(&self) -> [u8; 33] {
		self.holder
	}
	fn issuer(&self) -> [u8; 33] {
		self.issuer
	}
	fn fee_payer(&self) -> [u8; 33] {
		if self.fee_mode == FeeMode::ISSUER as u8 {
			self.issuer
		} else {
			self.holder
		}
	}
	fn expiry(&self) -> u32 {
		self.expiry
	}
	fn not_before(&self) -> u32 {
		self.not_before
	}
	fn payload(&self) -> Vec<u8> {
		let mut v = vec![];
		v.extend_from_slice(&self.payload_version.to_le_bytes());
		v.push(((self.toppings.len() as u8).wrapping_sub(1) << 1) | (self.not_before > 0) as u8);
		v.extend_from_slice(&self.issuer);
		v.extend_from_slice(&self.holder);
		v.push(self.fee_mode);
		v.extend_from_slice(&self.expiry.to_le_bytes());
		if self.not_before > 0 {
			v.extend_from_slice(&self.not_before.to_le_bytes());
		}
		names(&mut v, &self.toppings);
		v
	}
	fn get_topping(&self, domain: &str) -> Option<&[u8]> {
		self.toppings.iter().find(|(n, _)| n == domain).map(|(_, p)| &p[..])
	}
}
impl DoughnutVerify for DoughnutV1 {
	fn verify(&self) -> Result<(), VerifyError> {
		verify_signature(self.signature_version, &self.signature, &self.issuer, &self.payload())
	}
}
impl Signing for DoughnutV1 {
	fn sign_ecdsa(&mut self, secret: &[u8; 32]) -> Result<[u8; 65], SigningError> {
		self.signature_version = SignatureVersion::ECDSA as u8;
		self.signature = sign_ecdsa(secret, &self.payload())?;
		Ok(self.signature)
	}
	fn sign_eip191(&mut self, secret: &[u8; 32]) -> Result<[u8; 65], SigningError> {
		self.signature_version = SignatureVersion::EIP191 as u8;
		self.signature = sign_eip191(secret, &self.payload())?;
		Ok(self.signature)
	}
}
impl Encode for Doughnut {
	fn encode_to<T: Output + ?Sized>(&self, d: &mut T) {
		match self {
			Doughnut::V1(x) => {
				d.write(&x.payload());
				d.write(&[x.signature_version]);
				d.write(&x.signature);
			},
			Doughnut::V0(x) => {
				let mut v = vec![];
				v.extend_from_slice(&x.payload_version.to_le_bytes());
				v.push((x.toppings.len() as u8).wrapping_sub(1) << 1 | 1);
				v.extend_from_slice(&x.issuer);
				v.extend_from_slice(&x.holder);
				v.extend_from_slice(&x.expiry.to_le_bytes());
				v.extend_from_slice(&x.not_before.to_le_bytes());
				names(&mut v, &x.toppings);
				v.push(x.signature_version);
				v.extend_from_slice(&x.signature.0);
				d.write(&v);
			},
		}
	}
}
impl Decode for Doughnut {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let payload_version = u16::from_le_bytes(read(i)?);
		let flags: [u8; 1] = read(i)?;
		let count = (flags[0] >> 1) as usize + 1;
		match payload_version {
			0 => {
				let (issuer, holder) = (read(i)?, read(i)?);
				let expiry = u32::from_le_bytes(read(i)?);
				let not_before = u32::from_le_bytes(read(i)?);
				let toppings = read_toppings(count, i)?;
				let s: [u8; 1] = read(i)?;
				Ok(Doughnut::V0(DoughnutV0 { issuer, holder, toppings, expiry, not_before, payload_version, signature_version: s[0], signature: Sig64(read(i)?) }))
			},
			1 => {
				let (issuer, holder) = (read(i)?, read(i)?);
				let fee: [u8; 1] = read(i)?;
				let expiry = u32::from_le_bytes(read(i)?);
				let not_before = if flags[0] & 1 == 1 { u32::from_le_bytes(read(i)?) } else { 0 };
				let toppings = read_toppings(count, i)?;
				let s: [u8; 1] = read(i)?;
				Ok(Doughnut::V1(DoughnutV1 { issuer, holder, fee_mode: fee[0], toppings, expiry, not_before, payload_version, signature_version: s[0], signature: read(i)? }))
			},
			_ => Err("unsupported version".into()),
		}
	}
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub struct Method {
	pub name: String,
	pub block_cooldown: Option<u32>,
	pub constraints: Option<Vec<u8>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub struct Module {
	pub name: String,
	pub block_cooldown: Option<u32>,
	pub methods: Vec<Method>,
}
/// what the holder may call
#[derive(Clone, Debug, Default, PartialEq, Eq, Encode, Decode)]
pub struct Topping {
	pub modules: Vec<Module>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TrnnutError {
	NoPermission,
}
impl Topping {
	pub fn validate_module(&self, module: &str, method: &str, args: &[PactType]) -> Result<(), TrnnutError> {
		let no = TrnnutError::NoPermission;
		let m = self.modules.iter().find(|m| m.name == module).or_else(|| self.modules.iter().find(|m| m.name == "*")).ok_or(no.clone())?;
		let f = m.methods.iter().find(|m| m.name == method).or_else(|| m.methods.iter().find(|m| m.name == "*")).ok_or(no.clone())?;
		match &f.constraints {
			None => Ok(()),
			Some(c) => match Contract::decode(&mut &c[..]) {
				Ok(c) if c.allows(args) => Ok(()),
				_ => Err(no),
			},
		}
	}
}
pub mod error {
	pub use super::{SigningError, ValidationError, VerifyError};
}
