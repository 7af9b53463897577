//! libsecp256k1 0.7 over simcrypto's secp256k1.
use simcrypto::secp256k1 as s;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error {
	InvalidSignature,
	InvalidPublicKey,
	InvalidSecretKey,
	InvalidRecoveryId,
	InvalidMessage,
	InvalidInputLength,
	TweakOutOfRange,
	InvalidAffine,
}
impl std::fmt::Display for Error {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "{:?}", self)
	}
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PublicKeyFormat {
	Compressed,
	Full,
	Raw,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct PublicKey([u8; 64]);
impl PublicKey {
	pub fn from_secret_key(k: &SecretKey) -> Self {
		PublicKey(s::public(&k.0).expect("valid secret"))
	}
	pub fn parse_slice(p: &[u8], format: Option<PublicKeyFormat>) -> Result<Self, Error> {
		let f = match (p.len(), format) {
			(65, None) | (65, Some(PublicKeyFormat::Full)) => PublicKeyFormat::Full,
			(33, None) | (33, Some(PublicKeyFormat::Compressed)) => PublicKeyFormat::Compressed,
			(64, None) | (64, Some(PublicKeyFormat::Raw)) => PublicKeyFormat::Raw,
			_ => return Err(Error::InvalidInputLength),
		};
		match f {
			PublicKeyFormat::Full => Self::parse(p.try_into().unwrap()),
			PublicKeyFormat::Compressed => Self::parse_compressed(p.try_into().unwrap()),
			PublicKeyFormat::Raw => {
				let u: [u8; 64] = p.try_into().unwrap();
				if s::on_curve(&u) { Ok(PublicKey(u)) } else { Err(Error::InvalidPublicKey) }
			},
		}
	}
	pub fn parse(p: &[u8; 65]) -> Result<Self, Error> {
		if p[0] != 4 {
			return Err(Error::InvalidPublicKey);
		}
		let u: [u8; 64] = p[1..].try_into().unwrap();
		if s::on_curve(&u) { Ok(PublicKey(u)) } else { Err(Error::InvalidPublicKey) }
	}
	pub fn parse_compressed(p: &[u8; 33]) -> Result<Self, Error> {
		s::decompress(p).map(PublicKey).ok_or(Error::InvalidPublicKey)
	}
	pub fn serialize(&self) -> [u8; 65] {
		let mut r = [4u8; 65];
		r[1..].copy_from_slice(&self.0);
		r
	}
	pub fn serialize_compressed(&self) -> [u8; 33] {
		s::compress(&self.0)
	}
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct SecretKey([u8; 32]);
impl SecretKey {
	pub fn parse(p: &[u8; 32]) -> Result<Self, Error> {
		s::public(p).map(|_| SecretKey(*p)).ok_or(Error::InvalidSecretKey)
	}
	pub fn parse_slice(p: &[u8]) -> Result<Self, Error> {
		Self::parse(p.try_into().map_err(|_| Error::InvalidInputLength)?)
	}
	pub fn serialize(&self) -> [u8; 32] {
		self.0
	}
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Message(pub [u8; 32]);
impl Message {
	pub fn parse(p: &[u8; 32]) -> Self {
		Message(*p)
	}
	pub fn parse_slice(p: &[u8]) -> Result<Self, Error> {
		Ok(Message(p.try_into().map_err(|_| Error::InvalidInputLength)?))
	}
	pub fn serialize(&self) -> [u8; 32] {
		self.0
	}
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct RecoveryId(u8);
impl RecoveryId {
	pub fn parse(p: u8) -> Result<Self, Error> {
		if p < 4 { Ok(RecoveryId(p)) } else { Err(Error::InvalidRecoveryId) }
	}
	pub fn serialize(&self) -> u8 {
		self.0
	}
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Signature(pub [u8; 64]);
const N: [u8; 32] = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41];
fn sub(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
	let mut r = [0u8; 32];
	let mut br = 0i16;
	for i in (0..32).rev() {
		let mut d = a[i] as i16 - b[i] as i16 - br;
		br = if d < 0 { d += 256; 1 } else { 0 };
		r[i] = d as u8;
	}
	r
}
#[derive(Debug, Clone)]
pub struct SignatureArray(Vec<u8>);
impl AsRef<[u8]> for SignatureArray {
	fn as_ref(&self) -> &[u8] {
		&self.0
	}
}
impl Signature {
	pub fn parse_standard(p: &[u8; 64]) -> Result<Self, Error> {
		let r: &[u8; 32] = p[..32].try_into().unwrap();
		let ss: &[u8; 32] = p[32..].try_into().unwrap();
		if r >= &N || ss >= &N {
			return Err(Error::InvalidSignature);
		}
		Ok(Signature(*p))
	}
	pub fn parse_standard_slice(p: &[u8]) -> Result<Self, Error> {
		Self::parse_standard(p.try_into().map_err(|_| Error::InvalidInputLength)?)
	}
	pub fn parse_der(p: &[u8]) -> Result<Self, Error> {
		fn int(p: &[u8]) -> Option<([u8; 32], &[u8])> {
			if p.len() < 2 || p[0] != 2 {
				return None;
			}
			let l = p[1] as usize;
			if l == 0 || l > 33 || p.len() < 2 + l {
				return None;
			}
			let mut b = &p[2..2 + l];
			if b[0] & 0x80 != 0 {
				return None;
			}
			if b.len() > 1 && b[0] == 0 && b[1] & 0x80 == 0 {
				return None;
			}
			if b[0] == 0 {
				b = &b[1..];
			}
			if b.len() > 32 {
				return None;
			}
			let mut r = [0u8; 32];
			r[32 - b.len()..].copy_from_slice(b);
			Some((r, &p[2 + l..]))
		}
		if p.len() < 2 || p[0] != 0x30 || p[1] as usize != p.len() - 2 {
			return Err(Error::InvalidSignature);
		}
		let (r, rest) = int(&p[2..]).ok_or(Error::InvalidSignature)?;
		let (ss, rest) = int(rest).ok_or(Error::InvalidSignature)?;
		if !rest.is_empty() {
			return Err(Error::InvalidSignature);
		}
		let mut o = [0u8; 64];
		o[..32].copy_from_slice(&r);
		o[32..].copy_from_slice(&ss);
		Self::parse_standard(&o)
	}
	pub fn serialize(&self) -> [u8; 64] {
		self.0
	}
	pub fn serialize_der(&self) -> SignatureArray {
		fn int(b: &[u8]) -> Vec<u8> {
			let mut b: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect();
			if b.is_empty() || b[0] & 0x80 != 0 {
				b.insert(0, 0);
			}
			let mut r = vec![2, b.len() as u8];
			r.extend(b);
			r
		}
		let mut body = int(&self.0[..32]);
		body.extend(int(&self.0[32..]));
		let mut r = vec![0x30, body.len() as u8];
		r.extend(body);
		SignatureArray(r)
	}
	pub fn normalize_s(&mut self) {
		let ss: [u8; 32] = self.0[32..].try_into().unwrap();
		let neg = sub(&N, &ss);
		if neg < ss {
			self.0[32..].copy_from_slice(&neg);
		}
	}
}
pub fn verify(m: &Message, sig: &Signature, p: &PublicKey) -> bool {
	s::verify_rs(&sig.0, &m.0, &p.0)
}
pub fn sign(m: &Message, k: &SecretKey) -> (Signature, RecoveryId) {
	let r = s::sign(&k.0, &m.0).expect("valid");
	(Signature(r[..64].try_into().unwrap()), RecoveryId(r[64]))
}
pub fn recover(m: &Message, sig: &Signature, r: &RecoveryId) -> Result<PublicKey, Error> {
	let mut b = [0u8; 65];
	b[..64].copy_from_slice(&sig.0);
	b[64] = r.0;
	s::recover(&b, &m.0).map(PublicKey).map_err(|_| Error::InvalidSignature)
}
