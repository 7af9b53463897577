//! trn-pact: conditions on the arguments of a call.
use codec::{Decode, Encode};
pub mod types {
	use codec::{Decode, Encode};
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
	pub struct Numeric(pub u64);
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
	pub struct StringLike(pub Vec<u8>);
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
	pub enum PactType {
		Numeric(Numeric),
		StringLike(StringLike),
	}
}
use types::*;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode)]
pub enum Comparator {
	Equal,
	LessThan,
	LessThanOrEqual,
	GreaterThan,
}
/// all clauses must hold: argument number, comparator, operand
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub struct Contract(pub Vec<(u8, Comparator, PactType)>);
impl Contract {
	pub fn allows(&self, args: &[PactType]) -> bool {
		self.0.iter().all(|(i, c, v)| match (args.get(*i as usize), v) {
			(Some(PactType::Numeric(Numeric(a))), PactType::Numeric(Numeric(b))) => match c {
				Comparator::Equal => a == b,
				Comparator::LessThan => a < b,
				Comparator::LessThanOrEqual => a <= b,
				Comparator::GreaterThan => a > b,
			},
			(Some(PactType::StringLike(a)), PactType::StringLike(b)) => *c == Comparator::Equal && a == b,
			_ => false,
		})
	}
}
