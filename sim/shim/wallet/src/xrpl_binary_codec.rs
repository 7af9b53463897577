//! XRPL's binary format: https://xrpl.org/docs/references/protocol/binary-format
pub mod serializer {
	pub mod field_id {
		#[derive(Clone, Copy, Debug, PartialEq, Eq)]
		pub enum TypeCode {
			UInt16 = 1,
			UInt32 = 2,
			Hash256 = 5,
			Amount = 6,
			Blob = 7,
			AccountId = 8,
			Object = 14,
			Array = 15,
		}
	}
	pub mod field_info {
		use super::field_id::TypeCode::{self, *};
		pub type FieldInfo = &'static [(u8, u8, TypeCode, &'static str)];
		/// the fields of transactions known here: type, field, type, name
		pub fn field_info_lookup() -> FieldInfo {
			&[
				(1, 2, UInt16, "TransactionType"),
				(2, 2, UInt32, "Flags"),
				(2, 3, UInt32, "SourceTag"),
				(2, 4, UInt32, "Sequence"),
				(2, 27, UInt32, "LastLedgerSequence"),
				(2, 41, UInt32, "TicketSequence"),
				(2, 14, UInt32, "DestinationTag"),
				(5, 9, Hash256, "AccountTxnID"),
				(6, 1, Amount, "Amount"),
				(6, 8, Amount, "Fee"),
				(7, 3, Blob, "SigningPubKey"),
				(7, 4, Blob, "TxnSignature"),
				(7, 12, Blob, "MemoType"),
				(7, 13, Blob, "MemoData"),
				(7, 14, Blob, "MemoFormat"),
				(8, 1, AccountId, "Account"),
				(8, 3, AccountId, "Destination"),
				(14, 10, Object, "Memo"),
				(15, 9, Array, "Memos"),
			]
		}
	}
	#[derive(Default)]
	pub struct Serializer {
		pub out: Vec<u8>,
	}
	impl Serializer {
		pub fn new() -> Self {
			Default::default()
		}
		pub fn field(&mut self, t: u8, f: u8) {
			match (t < 16, f < 16) {
				(true, true) => self.out.push(t << 4 | f),
				(false, true) => self.out.extend([f, t]),
				(true, false) => self.out.extend([t << 4, f]),
				_ => self.out.extend([0, t, f]),
			}
		}
		pub fn sized(&mut self, b: &[u8]) {
			let n = b.len();
			if n <= 192 {
				self.out.push(n as u8);
			} else if n <= 12480 {
				let k = n - 193;
				self.out.extend([193 + (k >> 8) as u8, k as u8]);
			} else {
				let k = n - 12481;
				self.out.extend([241 + (k >> 16) as u8, (k >> 8) as u8, k as u8]);
			}
			self.out.extend_from_slice(b);
		}
		pub fn into_bytes(self) -> Result<Vec<u8>, &'static str> {
			Ok(self.out)
		}
	}
}
pub mod deserializer {
	use super::serializer::field_id::TypeCode;
	use super::serializer::field_info::FieldInfo;
	use serde_json::{json, Map, Value};
	pub struct Deserializer {
		bytes: Vec<u8>,
		at: usize,
		fields: FieldInfo,
	}
	type R<T> = Result<T, &'static str>;
	impl Deserializer {
		pub fn new(bytes: Vec<u8>, fields: FieldInfo) -> Self {
			Deserializer { bytes, at: 0, fields }
		}
		fn take(&mut self, n: usize) -> R<Vec<u8>> {
			let end = self.at.checked_add(n).filter(|e| *e <= self.bytes.len()).ok_or("end of input")?;
			let v = self.bytes[self.at..end].to_vec();
			self.at = end;
			Ok(v)
		}
		fn byte(&mut self) -> R<u8> {
			Ok(self.take(1)?[0])
		}
		fn sized(&mut self) -> R<Vec<u8>> {
			let a = self.byte()? as usize;
			let n = match a {
				0..=192 => a,
				193..=240 => 193 + (a - 193) * 256 + self.byte()? as usize,
				241..=254 => {
					let b = self.byte()? as usize;
					12481 + (a - 241) * 65536 + b * 256 + self.byte()? as usize
				},
				_ => return Err("invalid length"),
			};
			self.take(n)
		}
		fn field(&mut self) -> R<(u8, u8)> {
			let b = self.byte()?;
			let (mut t, mut f) = (b >> 4, b & 15);
			if t == 0 {
				t = self.byte()?;
				if t < 16 {
					return Err("invalid field");
				}
			}
			if f == 0 {
				f = self.byte()?;
				if f < 16 {
					return Err("invalid field");
				}
			}
			Ok((t, f))
		}
		fn value(&mut self, t: TypeCode) -> R<Value> {
			let up = |b: Vec<u8>| Value::String(hex::encode_upper(b));
			Ok(match t {
				TypeCode::UInt16 => json!(u16::from_be_bytes(self.take(2)?.try_into().unwrap())),
				TypeCode::UInt32 => json!(u32::from_be_bytes(self.take(4)?.try_into().unwrap())),
				TypeCode::Hash256 => up(self.take(32)?),
				TypeCode::Amount => {
					let b: [u8; 8] = self.take(8)?.try_into().unwrap();
					let v = u64::from_be_bytes(b);
					if v >> 63 == 1 {
						return Err("issued amounts are not known here");
					}
					json!((v & ((1 << 62) - 1)).to_string())
				},
				TypeCode::Blob => up(self.sized()?),
				TypeCode::AccountId => {
					let b: [u8; 20] = self.sized()?.try_into().map_err(|_| "account id")?;
					json!(crate::xrpl_types::AccountId(b).to_address())
				},
				TypeCode::Object => self.object(true)?,
				TypeCode::Array => {
					let mut v = vec![];
					loop {
						let (t, f) = self.field()?;
						if (t, f) == (15, 1) {
							break;
						}
						let (name, ty) = self.known(t, f)?;
						if ty != TypeCode::Object {
							return Err("array of other than objects");
						}
						let mut m = Map::new();
						m.insert(name.into(), self.object(true)?);
						v.push(Value::Object(m));
					}
					Value::Array(v)
				},
			})
		}
		fn known(&self, t: u8, f: u8) -> R<(&'static str, TypeCode)> {
			self.fields.iter().find(|x| (x.0, x.1) == (t, f)).map(|x| (x.3, x.2)).ok_or("unknown field")
		}
		fn object(&mut self, inner: bool) -> R<Value> {
			let mut m = Map::new();
			while inner || self.at < self.bytes.len() {
				let (t, f) = self.field()?;
				if (t, f) == (14, 1) {
					if inner {
						break;
					}
					return Err("object end without object");
				}
				let (name, ty) = self.known(t, f)?;
				let v = self.value(ty)?;
				m.insert(name.into(), v);
			}
			Ok(Value::Object(m))
		}
		pub fn to_json(&mut self, t: &TypeCode, value: &[u8]) -> R<Value> {
			self.bytes = value.to_vec();
			self.at = 0;
			match t {
				TypeCode::Object => self.object(false),
				t => self.value(*t),
			}
		}
	}
}
