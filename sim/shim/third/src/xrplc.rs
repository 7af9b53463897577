//! xrpl-codec (futureverse): canonical XRPL binary serialisation of the transaction kinds the bridge
//! emits, plus a small decoder the simulator uses to act as the XRP ledger.
use std::collections::BTreeMap;
pub mod utils {
	pub fn sha512_half(d: &[u8]) -> [u8; 32] {
		simcrypto::sha2_512(d)[..32].try_into().unwrap()
	}
	/// Multi-sign digest: HASH_PREFIX_TRANSACTION_MULTISIGN ++ blob ++ signer account id.
	pub fn digest_for_multi_signing_pre(blob: &[u8], public_key: [u8; 33]) -> [u8; 32] {
		let mut v = vec![0x53, 0x4D, 0x54, 0x00];
		v.extend_from_slice(blob);
		v.extend_from_slice(&simcrypto::ripemd160(&simcrypto::sha2_256(&public_key)));
		sha512_half(&v)
	}
}
pub mod traits {
	pub trait BinarySerialize {
		fn binary_serialize(&self, for_signing: bool) -> Vec<u8>;
	}
}
pub mod field {
	#[derive(Clone, Debug, PartialEq)]
	pub struct Amount(pub super::types::AmountType);
}
pub mod types {
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct AccountIdType(pub [u8; 20]);
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum CurrencyCodeType {
		Standard([u8; 3]),
		NonStandard([u8; 20]),
	}
	impl CurrencyCodeType {
		pub fn is_valid(&self) -> bool {
			match self {
				CurrencyCodeType::Standard(c) => {
					let ok = |b: &u8| b.is_ascii_alphanumeric() || b"?!@#$%^&*<>(){}[]|".contains(b);
					c != b"XRP" && c.iter().all(ok)
				},
				CurrencyCodeType::NonStandard(c) => c[0] != 0,
			}
		}
		pub fn bytes(&self) -> [u8; 20] {
			match self {
				CurrencyCodeType::Standard(c) => {
					let mut r = [0u8; 20];
					r[12..15].copy_from_slice(c);
					r
				},
				CurrencyCodeType::NonStandard(c) => *c,
			}
		}
	}
	/// A normalised issued value: mantissa in 10^15..10^16 (or zero), exponent in -96..=80.
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct IssuedValueType {
		pub mantissa: i64,
		pub exponent: i8,
	}
	const MIN_M: i64 = 1_000_000_000_000_000;
	const MAX_M: i64 = 9_999_999_999_999_999;
	impl IssuedValueType {
		pub fn from_mantissa_exponent(mantissa: i64, exponent: i8) -> Result<Self, ()> {
			let neg = mantissa < 0;
			let mut m = mantissa.checked_abs().ok_or(())?;
			let mut e = exponent as i16;
			if m == 0 {
				return Ok(Self { mantissa: 0, exponent: -99 });
			}
			while m < MIN_M && e > -97 {
				m *= 10;
				e -= 1;
			}
			while m > MAX_M {
				if e >= 80 {
					return Err(());
				}
				m /= 10;
				e += 1;
			}
			if e < -96 || m < MIN_M {
				return Ok(Self { mantissa: 0, exponent: -99 });
			}
			if e > 80 {
				return Err(());
			}
			Ok(Self { mantissa: if neg { -m } else { m }, exponent: e as i8 })
		}
		pub fn word(&self) -> u64 {
			if self.mantissa == 0 {
				return 0x8000_0000_0000_0000;
			}
			let mut w: u64 = 1 << 63;
			if self.mantissa > 0 {
				w |= 1 << 62;
			}
			w |= ((self.exponent as i64 + 97) as u64) << 54;
			w | self.mantissa.unsigned_abs()
		}
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct IssuedAmountType {
		pub value: IssuedValueType,
		pub currency: CurrencyCodeType,
		pub issuer: AccountIdType,
	}
	impl IssuedAmountType {
		pub fn from_issued_value(value: IssuedValueType, currency: CurrencyCodeType, issuer: AccountIdType) -> Result<Self, ()> {
			if !currency.is_valid() {
				return Err(());
			}
			Ok(Self { value, currency, issuer })
		}
	}
	#[derive(Clone, Copy, Debug, PartialEq)]
	pub enum AmountType {
		Drops(u64),
		Issued(IssuedAmountType),
	}
	impl AmountType {
		pub fn bytes(&self) -> Vec<u8> {
			match self {
				AmountType::Drops(d) => (d | 0x4000_0000_0000_0000).to_be_bytes().to_vec(),
				AmountType::Issued(i) => {
					let mut v = i.value.word().to_be_bytes().to_vec();
					v.extend(i.currency.bytes());
					v.extend(i.issuer.0);
					v
				},
			}
		}
	}
}
use types::*;
/// (type code, field code) -> encoded payload (without VL prefix)
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Fields(pub BTreeMap<(u8, u8), Vec<u8>>);
fn field_id(t: u8, f: u8, o: &mut Vec<u8>) {
	match (t < 16, f < 16) {
		(true, true) => o.push(t << 4 | f),
		(true, false) => o.extend([t << 4, f]),
		(false, true) => o.extend([f, t]),
		(false, false) => o.extend([0, t, f]),
	}
}
impl Fields {
	fn set(&mut self, t: u8, f: u8, v: Vec<u8>) {
		self.0.insert((t, f), v);
	}
	pub fn ser(&self, for_signing: bool) -> Vec<u8> {
		let mut o = vec![];
		for ((t, f), v) in &self.0 {
			if for_signing && (*t, *f) == (7, 4) {
				continue;
			}
			field_id(*t, *f, &mut o);
			if *t == 7 || *t == 8 {
				o.push(v.len() as u8);
			}
			o.extend(v);
		}
		o
	}
	fn common(tt: u16, flags: u32, account: [u8; 20], nonce: u32, ticket: u32, fee: u64, source_tag: u32, spk: Option<[u8; 33]>) -> Self {
		let mut s = Self::default();
		s.set(1, 2, tt.to_be_bytes().to_vec());
		if flags != 0 {
			s.set(2, 2, flags.to_be_bytes().to_vec());
		}
		s.set(2, 3, source_tag.to_be_bytes().to_vec());
		s.set(2, 4, nonce.to_be_bytes().to_vec());
		s.set(2, 41, ticket.to_be_bytes().to_vec());
		s.set(6, 8, AmountType::Drops(fee).bytes());
		s.set(7, 3, spk.map(|k| k.to_vec()).unwrap_or_default());
		s.set(8, 1, account.to_vec());
		s
	}
}
pub mod transaction {
	use super::traits::BinarySerialize;
	use super::*;
	macro_rules! tx { ($($n:ident),*) => { $( #[derive(Clone, Debug, PartialEq)] pub struct $n(pub Fields); impl BinarySerialize for $n { fn binary_serialize(&self, fs: bool) -> Vec<u8> { self.0.ser(fs) } } )* } }
	tx!(Payment, PaymentWithDestinationTag, PaymentAltCurrency, PaymentAltCurrencyWithDestinationTag, SignerListSet, NFTokenAcceptOffer, NFTokenCreateOffer);
	const CANON: u32 = 0x8000_0000;
	impl Payment {
		pub fn new(account: [u8; 20], destination: [u8; 20], amount: u64, nonce: u32, ticket: u32, fee: u64, source_tag: u32, spk: Option<[u8; 33]>) -> Self {
			let mut f = Fields::common(0, CANON, account, nonce, ticket, fee, source_tag, spk);
			f.set(6, 1, AmountType::Drops(amount).bytes());
			f.set(8, 3, destination.to_vec());
			Self(f)
		}
	}
	impl PaymentWithDestinationTag {
		pub fn new(account: [u8; 20], destination: [u8; 20], amount: u64, nonce: u32, ticket: u32, fee: u64, source_tag: u32, dt: u32, spk: Option<[u8; 33]>) -> Self {
			let mut f = Payment::new(account, destination, amount, nonce, ticket, fee, source_tag, spk).0;
			f.set(2, 14, dt.to_be_bytes().to_vec());
			Self(f)
		}
	}
	impl PaymentAltCurrency {
		pub fn new(account: [u8; 20], destination: [u8; 20], amount: super::field::Amount, nonce: u32, ticket: u32, fee: u64, source_tag: u32, spk: Option<[u8; 33]>) -> Self {
			let mut f = Fields::common(0, CANON, account, nonce, ticket, fee, source_tag, spk);
			f.set(6, 1, amount.0.bytes());
			f.set(8, 3, destination.to_vec());
			Self(f)
		}
	}
	impl PaymentAltCurrencyWithDestinationTag {
		pub fn new(account: [u8; 20], destination: [u8; 20], amount: super::field::Amount, nonce: u32, ticket: u32, fee: u64, source_tag: u32, dt: u32, spk: Option<[u8; 33]>) -> Self {
			let mut f = PaymentAltCurrency::new(account, destination, amount, nonce, ticket, fee, source_tag, spk).0;
			f.set(2, 14, dt.to_be_bytes().to_vec());
			Self(f)
		}
	}
	impl SignerListSet {
		pub fn new(account: [u8; 20], fee: u64, nonce: u32, ticket: u32, quorum: u32, entries: Vec<([u8; 20], u16)>, source_tag: u32, spk: Option<[u8; 33]>) -> Self {
			let mut f = Fields::common(12, CANON, account, nonce, ticket, fee, source_tag, spk);
			f.set(2, 35, quorum.to_be_bytes().to_vec());
			let mut v = vec![];
			for (a, w) in entries {
				v.push(0xEB);
				v.push(0x13);
				v.extend(w.to_be_bytes());
				v.extend([0x81, 0x14]);
				v.extend(a);
				v.push(0xE1);
			}
			v.push(0xF1);
			f.set(15, 4, v);
			Self(f)
		}
	}
	impl NFTokenAcceptOffer {
		pub fn new(account: [u8; 20], sell_offer: [u8; 32], nonce: u32, ticket: u32, fee: u64, source_tag: u32, spk: Option<[u8; 33]>) -> Self {
			let mut f = Fields::common(29, CANON, account, nonce, ticket, fee, source_tag, spk);
			f.set(5, 29, sell_offer.to_vec());
			Self(f)
		}
	}
	impl NFTokenCreateOffer {
		pub fn new(account: [u8; 20], destination: [u8; 20], nftoken_id: [u8; 32], amount: u64, nonce: u32, ticket: u32, fee: u64, source_tag: u32, spk: Option<[u8; 33]>) -> Self {
			let mut f = Fields::common(27, 1, account, nonce, ticket, fee, source_tag, spk);
			f.set(5, 10, nftoken_id.to_vec());
			f.set(6, 1, AmountType::Drops(amount).bytes());
			f.set(8, 3, destination.to_vec());
			Self(f)
		}
	}
}
/// Simulator side: decode a serialised transaction back into its fields.
pub fn parse(b: &[u8]) -> Option<Fields> {
	let mut r = Fields::default();
	let mut i = 0;
	let mut last = (0u8, 0u8);
	while i < b.len() {
		let (mut t, mut f) = (b[i] >> 4, b[i] & 15);
		i += 1;
		if t == 0 {
			t = *b.get(i)?;
			i += 1;
		}
		if f == 0 {
			f = *b.get(i)?;
			i += 1;
		}
		if (t, f) <= last {
			return None;
		}
		last = (t, f);
		let n = match t {
			1 => 2,
			2 => 4,
			5 => 32,
			6 => {
				if *b.get(i)? & 0x80 == 0 { 8 } else { 48 }
			},
			7 | 8 => {
				let n = *b.get(i)? as usize;
				i += 1;
				n
			},
			15 => b.len() - i,
			_ => return None,
		};
		r.0.insert((t, f), b.get(i..i + n)?.to_vec());
		i += n;
	}
	Some(r)
}
