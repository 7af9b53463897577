//! XRPL's types, as far as transactions' common fields need them.
use crate::xrpl_binary_codec::serializer::Serializer;
pub mod serialize {
	use super::*;
	pub trait Serialize {
		fn serialize(&self, s: &mut Serializer) -> Result<(), &'static str>;
	}
}
pub mod types {
	pub use super::{Memo, TransactionCommon};
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Blob(pub Vec<u8>);
impl Blob {
	pub fn from_hex(s: &str) -> Result<Self, &'static str> {
		hex::decode(s).map(Blob).map_err(|_| "hex")
	}
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Hash256(pub [u8; 32]);
impl Hash256 {
	pub fn from_hex(s: &str) -> Result<Self, &'static str> {
		hex::decode(s).ok().and_then(|v| v.try_into().ok()).map(Hash256).ok_or("hex")
	}
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct AccountId(pub [u8; 20]);
const ALPHABET: &[u8; 58] = b"rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz";
fn checksum(b: &[u8]) -> [u8; 4] {
	simcrypto::sha2_256(&simcrypto::sha2_256(b))[..4].try_into().unwrap()
}
impl AccountId {
	pub fn to_address(&self) -> String {
		let mut b = vec![0u8];
		b.extend_from_slice(&self.0);
		let c = checksum(&b);
		b.extend_from_slice(&c);
		let zeros = b.iter().take_while(|x| **x == 0).count();
		let mut digits: Vec<u8> = vec![];
		for x in &b {
			let mut carry = *x as u32;
			for d in digits.iter_mut() {
				carry += (*d as u32) << 8;
				*d = (carry % 58) as u8;
				carry /= 58;
			}
			while carry > 0 {
				digits.push((carry % 58) as u8);
				carry /= 58;
			}
		}
		let mut s: Vec<u8> = vec![ALPHABET[0]; zeros];
		s.extend(digits.iter().rev().map(|d| ALPHABET[*d as usize]));
		String::from_utf8(s).unwrap()
	}
	pub fn from_address(s: &str) -> Result<Self, &'static str> {
		let zeros = s.bytes().take_while(|x| *x == ALPHABET[0]).count();
		let mut bytes: Vec<u8> = vec![];
		for ch in s.bytes() {
			let mut carry = ALPHABET.iter().position(|a| *a == ch).ok_or("alphabet")? as u32;
			for b in bytes.iter_mut() {
				carry += *b as u32 * 58;
				*b = carry as u8;
				carry >>= 8;
			}
			while carry > 0 {
				bytes.push(carry as u8);
				carry >>= 8;
			}
		}
		let mut b = vec![0u8; zeros];
		b.extend(bytes.iter().rev());
		if b.len() != 25 || b[0] != 0 || checksum(&b[..21]) != b[21..] {
			return Err("address");
		}
		Ok(AccountId(b[1..21].try_into().unwrap()))
	}
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Memo {
	pub memo_data: Blob,
	pub memo_type: Blob,
	pub memo_format: Option<Blob>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct TransactionCommon {
	pub account: AccountId,
	pub account_txn_id: Option<Hash256>,
	pub memos: Vec<Memo>,
	pub signing_pub_key: Option<Blob>,
}
impl serialize::Serialize for TransactionCommon {
	fn serialize(&self, s: &mut Serializer) -> Result<(), &'static str> {
		if let Some(h) = &self.account_txn_id {
			s.field(5, 9);
			s.out.extend_from_slice(&h.0);
		}
		if let Some(k) = &self.signing_pub_key {
			s.field(7, 3);
			s.sized(&k.0);
		}
		s.field(8, 1);
		s.sized(&self.account.0);
		if !self.memos.is_empty() {
			s.field(15, 9);
			for m in &self.memos {
				s.field(14, 10);
				s.field(7, 12);
				s.sized(&m.memo_type.0);
				s.field(7, 13);
				s.sized(&m.memo_data.0);
				if let Some(f) = &m.memo_format {
					s.field(7, 14);
					s.sized(&f.0);
				}
				s.field(14, 1);
			}
			s.field(15, 1);
		}
		Ok(())
	}
}
