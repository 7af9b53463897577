//! A small EVM for the simulations: frames with nested storage layers, value transfers through the runtime's EVM
//! currency, static/delegate/callcode semantics, gas, logs, and the runtime's real precompile set.  Contracts are
//! scripts: the code stored for an address is the SCALE encoding of `Code`.
use crate::*;
use codec::{Decode, Encode};
use fp_evm::{Context, ExitError, ExitReason, ExitRevert, ExitSucceed, Log, PrecompileFailure, PrecompileHandle, PrecompileSet, Transfer};
use frame_support::storage::{with_transaction_unchecked, TransactionOutcome};
use frame_support::traits::{Currency, ExistenceRequirement, Get};
use sp_core::{H160, H256, U256};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode, serde::Serialize, serde::Deserialize)]
pub enum Kind {
	Call,
	Static,
	Delegate,
	CallCode,
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, serde::Serialize, serde::Deserialize)]
pub enum Act {
	/// call another contract; with `must`, its failure reverts this frame too
	Call { kind: Kind, to: [u8; 20], value: u128, input: Vec<u8>, must: bool },
	/// stop here, returning this
	Return(Vec<u8>),
	Revert,
	Burn(u64),
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub enum Code {
	/// always does this
	Fixed(Vec<Act>),
	/// does what the input says (SCALE encoding of the acts)
	Eval,
	/// has functions: what each does, by selector; anything else reverts
	Has(Vec<([u8; 4], Vec<Act>)>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Done {
	pub reason: ExitReason,
	pub output: Vec<u8>,
	pub gas_used: u64,
	pub logs: Vec<Log>,
	/// precompile calls made, in order: caller, code address, input, success
	pub calls: Vec<(H160, H160, Vec<u8>, bool)>,
	/// what happened to money, in order
	pub trace: Vec<Trace>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Trace {
	/// a frame was entered
	In,
	/// value was to move from one account to another; whether the currency did it
	Value(H160, H160, U256, bool),
	/// a precompile ran: caller, code address, input, success
	Pre(H160, H160, Vec<u8>, bool),
	/// a frame was left, keeping what it did or not
	Out(bool),
}
impl Done {
	pub fn ok(&self) -> bool {
		self.reason.is_succeed()
	}
}
type Set = <Runtime as pallet_evm::Config>::PrecompilesType;
struct Vm {
	set: Set,
	logs: Vec<Log>,
	calls: Vec<(H160, H160, Vec<u8>, bool)>,
	trace: Vec<Trace>,
	depth: usize,
}
struct Frame<'a> {
	vm: &'a mut Vm,
	code: H160,
	ctx: Context,
	input: Vec<u8>,
	is_static: bool,
	limit: u64,
	left: u64,
}
impl PrecompileHandle for Frame<'_> {
	fn call(&mut self, to: H160, transfer: Option<Transfer>, input: Vec<u8>, gas_limit: Option<u64>, is_static: bool, context: &Context) -> (ExitReason, Vec<u8>) {
		let gas = gas_limit.unwrap_or(self.left).min(self.left);
		let st = self.is_static || is_static;
		let (r, out, used) = run(self.vm, to, transfer, input, gas, st, context.clone());
		self.left -= used;
		(r, out)
	}
	fn record_cost(&mut self, cost: u64) -> Result<(), ExitError> {
		if cost > self.left {
			self.left = 0;
			return Err(ExitError::OutOfGas);
		}
		self.left -= cost;
		Ok(())
	}
	fn record_external_cost(&mut self, _ref_time: Option<u64>, _proof_size: Option<u64>) -> Result<(), ExitError> {
		Ok(())
	}
	fn refund_external_cost(&mut self, _ref_time: Option<u64>, _proof_size: Option<u64>) {}
	fn remaining_gas(&self) -> u64 {
		self.left
	}
	fn log(&mut self, address: H160, topics: Vec<H256>, data: Vec<u8>) -> Result<(), ExitError> {
		self.vm.logs.push(Log { address, topics, data });
		Ok(())
	}
	fn code_address(&self) -> H160 {
		self.code
	}
	fn input(&self) -> &[u8] {
		&self.input
	}
	fn context(&self) -> &Context {
		&self.ctx
	}
	fn is_static(&self) -> bool {
		self.is_static
	}
	fn gas_limit(&self) -> Option<u64> {
		Some(self.limit)
	}
}
/// one frame: result, output, gas used
fn run(vm: &mut Vm, code: H160, transfer: Option<Transfer>, input: Vec<u8>, gas: u64, is_static: bool, ctx: Context) -> (ExitReason, Vec<u8>, u64) {
	if vm.depth > 40 {
		return (ExitError::CallTooDeep.into(), vec![], 0);
	}
	let logs = vm.logs.len();
	vm.depth += 1;
	vm.trace.push(Trace::In);
	let r = with_transaction_unchecked(|| {
		let r = body(vm, code, transfer, input, gas, is_static, ctx);
		if r.0.is_succeed() {
			TransactionOutcome::Commit(r)
		} else {
			TransactionOutcome::Rollback(r)
		}
	});
	vm.depth -= 1;
	vm.trace.push(Trace::Out(r.0.is_succeed()));
	if !r.0.is_succeed() {
		vm.logs.truncate(logs);
	}
	r
}
fn body(vm: &mut Vm, code: H160, transfer: Option<Transfer>, input: Vec<u8>, gas: u64, is_static: bool, ctx: Context) -> (ExitReason, Vec<u8>, u64) {
	if let Some(t) = transfer {
		if !t.value.is_zero() {
			if is_static {
				return (ExitError::Other("static".into()).into(), vec![], gas);
			}
			let v: Option<u128> = t.value.try_into().ok();
			let moved = v.is_some_and(|v| <<Runtime as pallet_evm::Config>::Currency as Currency<_>>::transfer(&t.source.into(), &t.target.into(), v.into(), ExistenceRequirement::AllowDeath).is_ok());
			vm.trace.push(Trace::Value(t.source, t.target, t.value, moved));
			if !moved {
				return (ExitError::OutOfFund.into(), vec![], 0);
			}
		}
	}
	let (caller, inp) = (ctx.caller, input.clone());
	// the set keeps its own recursion counters, which must be shared by all frames of a transaction
	let set: *const Set = &vm.set;
	let mut f = Frame { vm, code, ctx, input, is_static, limit: gas, left: gas };
	// SAFETY: `vm.set` is never written and outlives every frame; its counters are in `RefCell`s
	let pre = unsafe { (*set).execute(&mut f) };
	if let Some(r) = pre {
		let used = gas - f.left;
		let r = match r {
			Ok(o) => (o.exit_status.into(), o.output, used),
			Err(PrecompileFailure::Revert { exit_status, output }) => (exit_status.into(), output, used),
			Err(PrecompileFailure::Error { exit_status }) => (exit_status.into(), vec![], gas),
			Err(PrecompileFailure::Fatal { exit_status }) => (exit_status.into(), vec![], gas),
		};
		let ok = ExitReason::is_succeed(&r.0);
		f.vm.trace.push(Trace::Pre(caller, code, inp.clone(), ok));
		f.vm.calls.push((caller, code, inp, ok));
		return r;
	}
	let script = pallet_evm::AccountCodes::<Runtime>::get(code);
	if script.is_empty() {
		return (ExitSucceed::Stopped.into(), vec![], 0);
	}
	let revert = (ExitRevert::Reverted.into(), vec![]);
	let acts = match Code::decode(&mut &script[..]) {
		Ok(Code::Fixed(a)) => a,
		Ok(Code::Has(v)) => match v.into_iter().find(|x| f.input.starts_with(&x.0)) {
			Some(x) => x.1,
			None => return (revert.0, revert.1, gas - f.left),
		},
		Ok(Code::Eval) if f.input.is_empty() => vec![],
		Ok(Code::Eval) => match Vec::<Act>::decode(&mut &f.input[..]) {
			Ok(a) => a,
			Err(_) => return (revert.0, revert.1, gas - f.left),
		},
		Err(_) => return (ExitError::InvalidCode.into(), vec![], gas),
	};
	let here = f.ctx.address;
	for a in acts {
		match a {
			Act::Return(o) => return (ExitSucceed::Returned.into(), o, gas - f.left),
			Act::Revert => return (revert.0, revert.1, gas - f.left),
			Act::Burn(n) => {
				if f.record_cost(n).is_err() {
					return (ExitError::OutOfGas.into(), vec![], gas);
				}
			},
			Act::Call { kind, to, value, input, must } => {
				if f.record_cost(700).is_err() {
					return (ExitError::OutOfGas.into(), vec![], gas);
				}
				let to = H160(to);
				let v = U256::from(value);
				if f.is_static && kind == Kind::Call && value > 0 {
					return (ExitError::Other("value in a static call".into()).into(), vec![], gas);
				}
				let (ctx, tr) = match kind {
					Kind::Call => (Context { address: to, caller: here, apparent_value: v }, Some(Transfer { source: here, target: to, value: v })),
					Kind::Static => (Context { address: to, caller: here, apparent_value: U256::zero() }, None),
					Kind::CallCode => (Context { address: here, caller: here, apparent_value: v }, Some(Transfer { source: here, target: here, value: v })),
					Kind::Delegate => (Context { address: here, caller: f.ctx.caller, apparent_value: f.ctx.apparent_value }, None),
				};
				let g = f.left - f.left / 64;
				let st = f.is_static || kind == Kind::Static;
				let (r, _, used) = run(f.vm, to, tr, input, g, st, ctx);
				f.left -= used;
				if must && !r.is_succeed() {
					return (revert.0, revert.1, gas - f.left);
				}
			},
		}
	}
	(ExitSucceed::Stopped.into(), vec![], gas - f.left)
}
/// A transaction of `source` as the stack runner executes it (the fee is not part of it).
pub fn transact(source: H160, target: H160, input: Vec<u8>, value: U256, gas: u64) -> Done {
	System::inc_account_nonce(&seed_primitives::AccountId::from(source));
	let mut vm = Vm { set: <Runtime as pallet_evm::Config>::PrecompilesValue::get(), logs: vec![], calls: vec![], trace: vec![], depth: 0 };
	let (reason, output, gas_used) = run(&mut vm, target, Some(Transfer { source, target, value }), input, gas, false, Context { address: target, caller: source, apparent_value: value });
	for log in &vm.logs {
		EVM::deposit_event(pallet_evm::Event::Log { log: log.clone() });
	}
	Done { reason, output, gas_used, logs: vm.logs, calls: vm.calls, trace: vm.trace }
}
/// a read-only call from outside (eth_call): nothing it does is kept
pub fn view(source: H160, target: H160, input: Vec<u8>) -> Done {
	with_transaction_unchecked(|| {
		let mut vm = Vm { set: <Runtime as pallet_evm::Config>::PrecompilesValue::get(), logs: vec![], calls: vec![], trace: vec![], depth: 0 };
		let (reason, output, gas_used) = run(&mut vm, target, None, input, 1 << 40, false, Context { address: target, caller: source, apparent_value: U256::zero() });
		TransactionOutcome::Rollback(Done { reason, output, gas_used, logs: vm.logs, calls: vm.calls, trace: vm.trace })
	})
}
/// a call made by a contract (or on its behalf) in a transaction that is already running
pub fn frame(source: H160, target: H160, input: Vec<u8>) -> Done {
	let mut vm = Vm { set: <Runtime as pallet_evm::Config>::PrecompilesValue::get(), logs: vec![], calls: vec![], trace: vec![], depth: 0 };
	let (reason, output, gas_used) = run(&mut vm, target, None, input, 1 << 40, false, Context { address: target, caller: source, apparent_value: U256::zero() });
	Done { reason, output, gas_used, logs: vm.logs, calls: vm.calls, trace: vm.trace }
}
/// the interpreter behind the runtime's EVM runner: every transaction that gets through it is executed by `transact`
pub fn install(log: std::rc::Rc<std::cell::RefCell<Vec<Done>>>) {
	pallet_evm::set_inner_handler(Some(Box::new(move |c: &pallet_evm::InnerCall| {
		if c.kind == "validate" {
			return pallet_evm::InnerOutcome::Ok;
		}
		let Some(t) = c.target else { return pallet_evm::InnerOutcome::Ok };
		let d = transact(c.source, t, c.input.clone(), c.value, c.gas_limit);
		let o = match &d.reason {
			ExitReason::Succeed(_) => pallet_evm::InnerOutcome::Ok,
			ExitReason::Revert(_) => pallet_evm::InnerOutcome::Revert,
			_ => pallet_evm::InnerOutcome::OutOfGas,
		};
		log.borrow_mut().push(d);
		o
	})));
}
pub fn deploy(at: H160, code: Code) {
	pallet_evm::Pallet::<Runtime>::create_account(at, code.encode());
}

/// ABI values
#[derive(Clone, Debug)]
pub enum Tok {
	U(U256),
	A(H160),
	B(bool),
	Raw([u8; 32]),
	Bytes(Vec<u8>),
	Arr(Vec<Tok>),
	/// a tuple (or fixed array)
	Tup(Vec<Tok>),
}
pub fn n(x: u128) -> Tok {
	Tok::U(x.into())
}
pub fn nums<T: Copy + Into<u128>>(x: &[T]) -> Tok {
	Tok::Arr(x.iter().map(|x| n((*x).into())).collect())
}
impl Tok {
	fn dynamic(&self) -> bool {
		match self {
			Tok::Bytes(_) | Tok::Arr(_) => true,
			Tok::Tup(v) => v.iter().any(|t| t.dynamic()),
			_ => false,
		}
	}
	fn enc(&self) -> Vec<u8> {
		match self {
			Tok::U(x) => {
				let mut w = [0; 32];
				x.to_big_endian(&mut w);
				w.to_vec()
			},
			Tok::A(a) => kit::aword(*a).to_vec(),
			Tok::B(b) => kit::word(*b as u128).to_vec(),
			Tok::Raw(b) => b.to_vec(),
			Tok::Bytes(b) => kit::abi_bytes(b),
			Tok::Arr(v) => {
				let mut o = kit::word(v.len() as u128).to_vec();
				o.extend(args(v));
				o
			},
			Tok::Tup(v) => args(v),
		}
	}
}
/// heads, then tails
pub fn args(v: &[Tok]) -> Vec<u8> {
	let e: Vec<Vec<u8>> = v.iter().map(|t| t.enc()).collect();
	let mut at: usize = v.iter().zip(&e).map(|(t, e)| if t.dynamic() { 32 } else { e.len() }).sum();
	let (mut heads, mut tails) = (vec![], Vec::<u8>::new());
	for (t, e) in v.iter().zip(&e) {
		if t.dynamic() {
			heads.extend(kit::word(at as u128));
			at += e.len();
			tails.extend(e);
		} else {
			heads.extend(e);
		}
	}
	heads.extend(tails);
	heads
}
/// call data: selector of the signature, then the arguments
pub fn abi(sig: &str, v: &[Tok]) -> Vec<u8> {
	let mut o = sp_io::hashing::keccak_256(sig.as_bytes())[..4].to_vec();
	o.extend(args(v));
	o
}
/// the selector of a function
pub fn selector(sig: &str) -> [u8; 4] {
	sp_io::hashing::keccak_256(sig.as_bytes())[..4].try_into().unwrap()
}
pub fn low(x: u64) -> H160 {
	H160::from_low_u64_be(x)
}
/// address of the precompile of an asset, collection or futurepass
pub fn prefixed(prefix: &[u8; 4], id: u32) -> H160 {
	let mut a = [0; 20];
	a[..4].copy_from_slice(prefix);
	a[4..8].copy_from_slice(&id.to_be_bytes());
	H160(a)
}
