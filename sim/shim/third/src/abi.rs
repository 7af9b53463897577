//! ethabi 18: encode / decode of `Token`s (strict head/tail layout, padded words).
pub use primitive_types::{H160, H256, U256};
pub type Address = H160;
pub type Bytes = Vec<u8>;
pub type FixedBytes = Vec<u8>;
pub type Uint = U256;
pub type Int = U256;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
	InvalidName(String),
	InvalidData,
	Other(String),
}
impl std::fmt::Display for Error {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "{:?}", self)
	}
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ParamType {
	Address,
	Bytes,
	Int(usize),
	Uint(usize),
	Bool,
	String,
	Array(Box<ParamType>),
	FixedBytes(usize),
	FixedArray(Box<ParamType>, usize),
	Tuple(Vec<ParamType>),
}
impl ParamType {
	pub fn is_dynamic(&self) -> bool {
		match self {
			ParamType::Bytes | ParamType::String | ParamType::Array(_) => true,
			ParamType::FixedArray(e, _) => e.is_dynamic(),
			ParamType::Tuple(p) => p.iter().any(|p| p.is_dynamic()),
			_ => false,
		}
	}
	fn head(&self) -> usize {
		match self {
			_ if self.is_dynamic() => 32,
			ParamType::FixedArray(e, n) => e.head() * n,
			ParamType::Tuple(p) => p.iter().map(|p| p.head()).sum(),
			_ => 32,
		}
	}
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Token {
	Address(Address),
	FixedBytes(FixedBytes),
	Bytes(Bytes),
	Int(Int),
	Uint(Uint),
	Bool(bool),
	String(String),
	FixedArray(Vec<Token>),
	Array(Vec<Token>),
	Tuple(Vec<Token>),
}
macro_rules! into { ($($f:ident $v:ident $t:ty),*) => { $( pub fn $f(self) -> Option<$t> { match self { Token::$v(x) => Some(x), _ => None } } )* } }
impl Token {
	into!(into_address Address Address, into_fixed_bytes FixedBytes Vec<u8>, into_bytes Bytes Vec<u8>, into_int Int U256, into_uint Uint U256, into_bool Bool bool, into_string String String, into_fixed_array FixedArray Vec<Token>, into_array Array Vec<Token>, into_tuple Tuple Vec<Token>);
	pub fn is_dynamic(&self) -> bool {
		match self {
			Token::Bytes(_) | Token::String(_) | Token::Array(_) => true,
			Token::FixedArray(t) | Token::Tuple(t) => t.iter().any(|t| t.is_dynamic()),
			_ => false,
		}
	}
	fn enc(&self, o: &mut Vec<u8>) {
		match self {
			Token::Address(a) => {
				o.extend([0u8; 12]);
				o.extend(a.as_bytes());
			},
			Token::Int(u) | Token::Uint(u) => o.extend(word(*u)),
			Token::Bool(b) => o.extend(word(U256::from(*b as u64))),
			Token::FixedBytes(b) => pad(b, o),
			Token::Bytes(b) => {
				o.extend(word(U256::from(b.len() as u64)));
				pad(b, o);
			},
			Token::String(s) => {
				o.extend(word(U256::from(s.len() as u64)));
				pad(s.as_bytes(), o);
			},
			Token::Array(t) => {
				o.extend(word(U256::from(t.len() as u64)));
				o.extend(encode(t));
			},
			Token::FixedArray(t) | Token::Tuple(t) => o.extend(encode(t)),
		}
	}
}
fn word(u: U256) -> [u8; 32] {
	let mut b = [0u8; 32];
	u.to_big_endian(&mut b);
	b
}
fn pad(b: &[u8], o: &mut Vec<u8>) {
	o.extend(b);
	let r = b.len() % 32;
	if r != 0 {
		o.extend(std::iter::repeat(0u8).take(32 - r));
	}
}
pub fn encode(t: &[Token]) -> Bytes {
	let mut parts: Vec<(bool, Vec<u8>)> = vec![];
	let mut head_len = 0;
	for x in t {
		let mut v = vec![];
		x.enc(&mut v);
		let d = x.is_dynamic();
		head_len += if d { 32 } else { v.len() };
		parts.push((d, v));
	}
	let mut head = vec![];
	let mut tail = vec![];
	for (d, v) in parts {
		if d {
			head.extend(word(U256::from((head_len + tail.len()) as u64)));
			tail.extend(v);
		} else {
			head.extend(v);
		}
	}
	head.extend(tail);
	head
}
fn peek(d: &[u8], o: usize, n: usize) -> Result<&[u8]> {
	let e = o.checked_add(n).ok_or(Error::InvalidData)?;
	if e > d.len() {
		Err(Error::InvalidData)
	} else {
		Ok(&d[o..e])
	}
}
fn us(d: &[u8], o: usize) -> Result<usize> {
	let w = peek(d, o, 32)?;
	if !w[..28].iter().all(|x| *x == 0) {
		return Err(Error::InvalidData);
	}
	Ok(u32::from_be_bytes([w[28], w[29], w[30], w[31]]) as usize)
}
pub fn decode(types: &[ParamType], data: &[u8]) -> Result<Vec<Token>> {
	let empty_allowed = types.iter().all(|t| matches!(t, ParamType::FixedBytes(0) | ParamType::FixedArray(_, 0)));
	if !empty_allowed && data.is_empty() {
		return Err(Error::InvalidName("please ensure the contract and method you're calling exist! failed to decode empty bytes. if you're using jsonrpc this is likely due to jsonrpc returning `0x` in case contract or method don't exist".into()));
	}
	let mut r = vec![];
	let mut o = 0;
	for t in types {
		let (x, n) = dec(t, data, o)?;
		o = n;
		r.push(x);
	}
	Ok(r)
}
pub fn decode_whole(types: &[ParamType], data: &[u8]) -> Result<Vec<Token>> {
	let r = decode(types, data)?;
	if encode(&r).len() != data.len() {
		return Err(Error::InvalidData);
	}
	Ok(r)
}
fn dec(t: &ParamType, d: &[u8], o: usize) -> Result<(Token, usize)> {
	Ok(match t {
		ParamType::Address => (Token::Address(H160::from_slice(&peek(d, o, 32)?[12..])), o + 32),
		ParamType::Int(_) => (Token::Int(U256::from_big_endian(peek(d, o, 32)?)), o + 32),
		ParamType::Uint(_) => (Token::Uint(U256::from_big_endian(peek(d, o, 32)?)), o + 32),
		ParamType::Bool => {
			let w = peek(d, o, 32)?;
			if !w[..31].iter().all(|x| *x == 0) {
				return Err(Error::InvalidData);
			}
			(Token::Bool(w[31] == 1), o + 32)
		},
		ParamType::FixedBytes(n) => (Token::FixedBytes(peek(d, o, *n)?.to_vec()), o + 32),
		ParamType::Bytes => {
			let p = us(d, o)?;
			let n = us(d, p)?;
			(Token::Bytes(peek(d, p + 32, n)?.to_vec()), o + 32)
		},
		ParamType::String => {
			let p = us(d, o)?;
			let n = us(d, p)?;
			(Token::String(String::from_utf8_lossy(peek(d, p + 32, n)?).into_owned()), o + 32)
		},
		ParamType::Array(e) => {
			let p = us(d, o)?;
			let n = us(d, p)?;
			let tail = &d[(p + 32).min(d.len())..];
			let mut v = vec![];
			let mut q = 0;
			for _ in 0..n {
				let (x, nq) = dec(e, tail, q)?;
				q = nq;
				v.push(x);
			}
			(Token::Array(v), o + 32)
		},
		ParamType::FixedArray(e, n) => {
			let (dd, mut q) = if t.is_dynamic() { (&d[us(d, o)?.min(d.len())..], 0) } else { (d, o) };
			let mut v = vec![];
			for _ in 0..*n {
				let (x, nq) = dec(e, dd, q)?;
				q = nq;
				v.push(x);
			}
			(Token::FixedArray(v), if t.is_dynamic() { o + 32 } else { q })
		},
		ParamType::Tuple(p) => {
			let (dd, mut q) = if t.is_dynamic() { (&d[us(d, o)?.min(d.len())..], 0) } else { (d, o) };
			let mut v = vec![];
			for e in p {
				let (x, nq) = dec(e, dd, q)?;
				q = nq;
				v.push(x);
			}
			(Token::Tuple(v), if t.is_dynamic() { o + 32 } else { q })
		},
	})
}
pub mod token {
	pub use super::Token;
}
pub mod ethereum_types {
	pub use super::{Address, H160, H256, U256};
}
pub fn short_signature(name: &str, params: &[ParamType]) -> [u8; 4] {
	fn s(p: &ParamType) -> String {
		match p {
			ParamType::Address => "address".into(),
			ParamType::Bytes => "bytes".into(),
			ParamType::Int(n) => format!("int{n}"),
			ParamType::Uint(n) => format!("uint{n}"),
			ParamType::Bool => "bool".into(),
			ParamType::String => "string".into(),
			ParamType::Array(e) => format!("{}[]", s(e)),
			ParamType::FixedBytes(n) => format!("bytes{n}"),
			ParamType::FixedArray(e, n) => format!("{}[{n}]", s(e)),
			ParamType::Tuple(p) => format!("({})", p.iter().map(s).collect::<Vec<_>>().join(",")),
		}
	}
	let sig = format!("{name}({})", params.iter().map(s).collect::<Vec<_>>().join(","));
	let h = simcrypto::keccak_256(sig.as_bytes());
	[h[0], h[1], h[2], h[3]]
}
