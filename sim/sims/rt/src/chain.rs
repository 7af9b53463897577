//! One simulated node's chain: block by block execution of the real runtime, with crash, abandoned
//! block (reorganisation) and re-execution built in.
use crate::*;
use codec::Encode;
use frame_support::dispatch::{DispatchResultWithPostInfo, GetDispatchInfo};
use frame_support::traits::{OnFinalize, OnIdle, OnInitialize, UnfilteredDispatchable};
use frame_support::weights::Weight;
use seed_primitives::{AccountId, AssetId, Balance};
use simkit::{viol, Res, Stats};
use sp_runtime::traits::{Applyable, Dispatchable};
use sp_runtime::transaction_validity::TransactionValidityError;
use sp_runtime::{DispatchError, DispatchResult};
use std::collections::BTreeMap;
use std::rc::Rc;
use substrate::io::TestExternalities;

pub const ROOT: AssetId = 1;
pub const XRP: AssetId = 2;
pub const VTX: AssetId = 3;
/// account number `n`
pub fn acc(n: u64) -> AccountId {
	let mut b = [0u8; 20];
	b[0] = 0x11;
	b[12..].copy_from_slice(&n.to_be_bytes());
	AccountId::from(b)
}
pub fn h160(a: AccountId) -> sp_core::H160 {
	a.into()
}

#[derive(Clone)]
pub enum Step {
	/// dispatched with the runtime's call filter (as an extrinsic would be)
	Call(frame_system::RawOrigin<AccountId>, RuntimeCall),
	/// dispatched without the call filter
	Bypass(frame_system::RawOrigin<AccountId>, RuntimeCall),
	/// a signed extrinsic with all signed extensions
	Signed(AccountId, RuntimeCall, u32, Balance),
	/// the bytes of a transaction as they come over the network
	Raw(Vec<u8>),
	Unsigned(RuntimeCall),
	/// other code run inside the block
	Fn(Rc<dyn Fn() -> DispatchResult>),
}
/// outcome of a step; `Err(None)` means that the extrinsic was invalid
pub type Out = Result<(), Option<DispatchError>>;

fn run_step(s: &Step) -> Out {
	fn d(r: DispatchResultWithPostInfo) -> Out {
		r.map(|_| ()).map_err(|e| Some(e.error))
	}
	let xt = |who: Option<(AccountId, SignedExtra)>, call: RuntimeCall, len: usize| -> Out {
		use fp_self_contained::SelfContainedCall;
		let info = call.get_dispatch_info();
		let signed = match who {
			// wallet-signed calls are judged by what is inside, whatever envelope they come in
			_ if call.is_self_contained() => match call.check_self_contained() {
				Some(Ok(i)) => fp_self_contained::CheckedSignature::SelfContained(i),
				_ => return Err(None),
			},
			Some((w, e)) => fp_self_contained::CheckedSignature::Signed(w, e),
			None => fp_self_contained::CheckedSignature::Unsigned,
		};
		let c = CheckedExtrinsic { signed, function: call };
		// an invalid extrinsic leaves no trace: the author of the block skips it
		let r = frame_support::storage::with_transaction_unchecked(|| match c.apply::<Runtime>(&info, len) {
			Ok(r) => frame_support::storage::TransactionOutcome::Commit(Ok(r)),
			Err(e) => frame_support::storage::TransactionOutcome::Rollback(Err(e)),
		});
		let r = r.map_err(|_: TransactionValidityError| None)?;
		System::note_applied_extrinsic(&r, info);
		d(r)
	};
	match s {
		Step::Call(o, c) => d(c.clone().dispatch(o.clone().into())),
		Step::Bypass(o, c) => d(c.clone().dispatch_bypass_filter(o.clone().into())),
		Step::Signed(w, c, nonce, tip) => {
			let len = c.encoded_size() + 110;
			xt(Some((*w, extra(*nonce, *tip))), c.clone(), len)
		},
		Step::Unsigned(c) => {
			let len = c.encoded_size() + 10;
			xt(None, c.clone(), len)
		},
		Step::Raw(b) => match envelope(b) {
			Ok((c, info)) => {
				let r = frame_support::storage::with_transaction_unchecked(|| match c.apply::<Runtime>(&info, b.len()) {
					Ok(r) => frame_support::storage::TransactionOutcome::Commit(Ok(r)),
					Err(e) => frame_support::storage::TransactionOutcome::Rollback(Err(e)),
				});
				let r = r.map_err(|_: TransactionValidityError| None)?;
				System::note_applied_extrinsic(&r, info);
				d(r)
			},
			Err(_) => Err(None),
		},
		Step::Fn(f) => frame_support::storage::with_storage_layer(|| f()).map_err(Some),
	}
}
/// what the bytes of a transaction say, once its signature has been found good
pub fn envelope(b: &[u8]) -> Result<(CheckedExtrinsic, frame_support::dispatch::DispatchInfo), Option<TransactionValidityError>> {
	use sp_runtime::traits::Checkable;
	let xt = <UncheckedExtrinsic as codec::Decode>::decode(&mut &b[..]).map_err(|_| None)?;
	let c = xt.check(&<Runtime as frame_system::Config>::Lookup::default()).map_err(Some)?;
	let info = c.function.get_dispatch_info();
	Ok((c, info))
}
/// what the transaction pool of a node says about these bytes
pub fn pooled(b: &[u8]) -> Result<sp_runtime::transaction_validity::ValidTransaction, Option<TransactionValidityError>> {
	let (c, info) = envelope(b)?;
	c.validate::<Runtime>(sp_runtime::transaction_validity::TransactionSource::External, &info, b.len()).map_err(Some)
}
/// the parts of the runtime's list of signed extensions, whatever they are and in whatever order
pub trait Part {
	fn make(nonce: u32, tip: Balance, era: sp_runtime::generic::Era) -> Self;
}
macro_rules! part {
	($t:ty, $n:ident, $x:ident, $e:ident => $v:expr) => {
		impl Part for $t {
			fn make($n: u32, $x: Balance, $e: sp_runtime::generic::Era) -> Self {
				$v
			}
		}
	};
}
part!(frame_system::CheckNonZeroSender<Runtime>, _n, _t, _e => Self::new());
part!(frame_system::CheckSpecVersion<Runtime>, _n, _t, _e => Self::new());
part!(frame_system::CheckTxVersion<Runtime>, _n, _t, _e => Self::new());
part!(frame_system::CheckGenesis<Runtime>, _n, _t, _e => Self::new());
part!(frame_system::CheckEra<Runtime>, _n, _t, e => Self::from(e));
part!(frame_system::CheckNonce<Runtime>, n, _t, _e => Self::from(n));
part!(frame_system::CheckWeight<Runtime>, _n, _t, _e => Self::new());
part!(pallet_maintenance_mode::MaintenanceChecker<Runtime>, _n, _t, _e => Self::new());
part!(pallet_transaction_payment::ChargeTransactionPayment<Runtime>, _n, t, _e => Self::from(t));
macro_rules! parts {
	($($t:ident)*) => {
		impl<$($t: Part),*> Part for ($($t,)*) {
			fn make(n: u32, t: Balance, e: sp_runtime::generic::Era) -> Self {
				($($t::make(n, t, e),)*)
			}
		}
	};
}
parts!(A B C D E F);
parts!(A B C D E F G);
parts!(A B C D E F G H);
parts!(A B C D E F G H I);
parts!(A B C D E F G H I J);
pub fn extra(nonce: u32, tip: Balance) -> SignedExtra {
	Part::make(nonce, tip, sp_runtime::generic::Era::Immortal)
}

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;
pub struct Chain {
	pub ext: TestExternalities,
	pub n: u32,
	/// chain time in milliseconds
	pub now: u64,
	pub open: bool,
	parent: Map,
	parent_n: (u32, u64),
	steps: Vec<(Step, Out)>,
	/// re-execute each finished block on its parent state and compare
	pub reexec: bool,
	/// digests (logs) and events of the last finished block
	pub last_digest: Vec<sp_runtime::generic::DigestItem>,
	pub last_events: Vec<RuntimeEvent>,
	pub blocks: u64,
}

pub struct Cfg {
	pub accounts: u64,
	pub root_each: Balance,
	pub xrp_each: Balance,
}
impl Default for Cfg {
	fn default() -> Self {
		Cfg { accounts: 8, root_each: 1_000_000_000_000, xrp_each: 1_000_000_000_000 }
	}
}

impl Chain {
	pub fn new(cfg: Cfg) -> Self {
		let mut c = Chain {
			ext: TestExternalities::new_empty(),
			n: 0,
			now: 1_700_000_000_000,
			open: false,
			parent: Default::default(),
			parent_n: (0, 0),
			steps: vec![],
			reexec: false,
			last_digest: vec![],
			last_events: vec![],
			blocks: 0,
		};
		c.ext.execute_with(|| {
			System::initialize(&1, &Default::default(), &Default::default());
			System::set_block_number(0);
			pallet_timestamp::Now::<Runtime>::put(c.now);
			frame_support::traits::BuildGenesisConfig::build(&pallet_assets_ext::GenesisConfig::<Runtime>::default());
			let root = acc(1000);
			for (id, name, sym) in [(ROOT, "Root", "ROOT"), (XRP, "XRP", "XRP"), (VTX, "Vortex", "VTX")] {
				pallet_assets::Pallet::<Runtime>::force_create(RuntimeOrigin::root(), id, root, true, 1).unwrap();
				pallet_assets::Pallet::<Runtime>::force_set_metadata(RuntimeOrigin::root(), id, name.into(), sym.into(), 6, false).unwrap();
			}
			use frame_support::traits::fungibles::Mutate;
			for i in 1..=cfg.accounts {
				if cfg.xrp_each > 0 {
					AssetsExt::mint_into(XRP, &acc(i), cfg.xrp_each).unwrap();
				}
				if cfg.root_each > 0 {
					AssetsExt::mint_into(ROOT, &acc(i), cfg.root_each).unwrap();
				}
			}
			System::reset_events();
		});
		c
	}
	pub fn exec<R>(&mut self, f: impl FnOnce() -> R) -> R {
		self.ext.execute_with(f)
	}
	/// run `f` and roll back whatever it did
	pub fn peek<R>(&mut self, f: impl FnOnce() -> R) -> R {
		self.ext.execute_with(|| frame_support::storage::with_transaction_unchecked(|| frame_support::storage::TransactionOutcome::Rollback(f())))
	}
	fn open_block(ext: &mut TestExternalities, n: u32, now: u64) {
		ext.execute_with(|| {
			System::reset_events();
			let parent = sp_core::H256::from_low_u64_be(n as u64 - 1 + 0xb10c_0000);
			System::initialize(&n, &parent, &Default::default());
			let mut w = <AllPalletsWithSystem as OnInitialize<u32>>::on_initialize(n);
			let max = <Runtime as frame_system::Config>::BlockWeights::get().base_block;
			w = w.saturating_add(max);
			System::register_extra_weight_unchecked(w, frame_support::dispatch::DispatchClass::Mandatory);
			System::note_finished_initialize();
			pallet_timestamp::Now::<Runtime>::put(now);
			<Timestamp as OnTs>::poke(now);
		});
	}
	fn close_block(ext: &mut TestExternalities, n: u32, idle: Option<Weight>) -> (Vec<sp_runtime::generic::DigestItem>, Weight) {
		ext.execute_with(|| {
			System::note_finished_extrinsics();
			let mut used = Weight::zero();
			let max = <Runtime as frame_system::Config>::BlockWeights::get().max_block;
			let left = idle.unwrap_or_else(|| max.saturating_sub(System::block_weight().total()));
			if !left.is_zero() {
				used = <AllPalletsWithSystem as OnIdle<u32>>::on_idle(n, left);
				System::register_extra_weight_unchecked(used, frame_support::dispatch::DispatchClass::Mandatory);
			}
			<AllPalletsWithSystem as OnFinalize<u32>>::on_finalize(n);
			let d = System::digest().logs;
			let _ = System::finalize();
			(d, used)
		})
	}
	pub fn begin(&mut self, ms: u64) {
		assert!(!self.open);
		if self.reexec {
			self.parent = self.ext.snapshot();
		}
		self.parent_n = (self.n, self.now);
		self.n += 1;
		self.now += ms;
		self.blocks += 1;
		self.open = true;
		self.steps.clear();
		Self::open_block(&mut self.ext, self.n, self.now);
	}
	pub fn step(&mut self, s: Step) -> Out {
		assert!(self.open);
		let r = self.ext.execute_with(|| run_step(&s));
		if self.reexec {
			self.steps.push((s, r.clone()));
		}
		r
	}
	pub fn call(&mut self, who: AccountId, c: impl Into<RuntimeCall>) -> DispatchResult {
		self.step(Step::Call(frame_system::RawOrigin::Signed(who), c.into())).map_err(|e| e.unwrap_or(DispatchError::BadOrigin))
	}
	pub fn root(&mut self, c: impl Into<RuntimeCall>) -> DispatchResult {
		self.step(Step::Call(frame_system::RawOrigin::Root, c.into())).map_err(|e| e.unwrap_or(DispatchError::BadOrigin))
	}
	pub fn bypass(&mut self, who: AccountId, c: impl Into<RuntimeCall>) -> DispatchResult {
		self.step(Step::Bypass(frame_system::RawOrigin::Signed(who), c.into())).map_err(|e| e.unwrap_or(DispatchError::BadOrigin))
	}
	/// a signed extrinsic through all signed extensions, with the account's current nonce
	pub fn signed(&mut self, who: AccountId, c: impl Into<RuntimeCall>, tip: Balance) -> Out {
		let nonce = self.exec(|| System::account_nonce(&who));
		self.step(Step::Signed(who, c.into(), nonce, tip))
	}
	pub fn unsigned(&mut self, c: impl Into<RuntimeCall>) -> Out {
		self.step(Step::Unsigned(c.into()))
	}
	pub fn run(&mut self, f: impl Fn() -> DispatchResult + 'static) -> DispatchResult {
		self.step(Step::Fn(Rc::new(f))).map_err(|e| e.unwrap_or(DispatchError::BadOrigin))
	}
	/// Finish the open block. `idle`: weight left for idle processing (None: what the block left over).
	pub fn end(&mut self, idle: Option<Weight>) -> Result<Weight, simkit::Violation> {
		assert!(self.open);
		let (d, used) = Self::close_block(&mut self.ext, self.n, idle);
		self.open = false;
		self.last_digest = d;
		self.last_events = self.ext.execute_with(|| System::events().into_iter().map(|e| e.event).collect());
		if self.reexec {
			let mut e2 = self.ext.with_map(std::mem::take(&mut self.parent));
			Self::open_block(&mut e2, self.n, self.now);
			for (s, r) in &self.steps {
				let r2 = e2.execute_with(|| run_step(s));
				if r != &r2 {
					return Err(viol("R01", "outcome-differs", format!("block {}: a call answered {:?} and then {:?} on the same parent state", self.n, r, r2)));
				}
			}
			let (d2, used2) = Self::close_block(&mut e2, self.n, idle);
			if d2 != self.last_digest || used2 != used {
				return Err(viol("R01", "digest-or-weight-differs", format!("block {} re-executed gives another digest or weight", self.n)));
			}
			let (a, b) = (self.ext.snapshot(), e2.snapshot());
			if a != b {
				let k = a.iter().find(|(k, v)| b.get(*k) != Some(v)).map(|x| x.0).or_else(|| b.keys().find(|k| !a.contains_key(*k)));
				return Err(viol("R01", "state-differs", format!("block {} re-executed gives another state, first at key {:?}", self.n, k)));
			}
		}
		Ok(used)
	}
	/// The node crashes with the block unfinished: only the parent state survives, and the block
	/// is executed again from it, up to the same point.
	pub fn crash_and_redo(&mut self) -> Res {
		if !self.reexec || !self.open {
			return Ok(());
		}
		let before = self.ext.snapshot();
		self.ext = self.ext.with_map(self.parent.clone());
		Self::open_block(&mut self.ext, self.n, self.now);
		let steps = self.steps.clone();
		for (s, r) in &steps {
			let r2 = self.ext.execute_with(|| run_step(s));
			if r != &r2 {
				return Err(viol("R01", "outcome-differs", format!("block {}: a call answered {:?} and then {:?} after a crash", self.n, r, r2)));
			}
		}
		if before != self.ext.snapshot() {
			return Err(viol("R01", "state-differs", format!("block {} executed again after a crash gives another state", self.n)));
		}
		Ok(())
	}
	/// An abandoned fork: run `f` in a block that is then thrown away.
	pub fn abandoned_fork(&mut self, f: impl FnOnce(&mut Chain)) {
		assert!(!self.open);
		let (m, n, now, re) = (self.ext.snapshot(), self.n, self.now, self.reexec);
		self.reexec = false;
		self.begin(4000);
		f(self);
		if self.open {
			let _ = self.end(None);
		}
		self.ext = self.ext.with_map(m);
		self.n = n;
		self.now = now;
		self.reexec = re;
	}
	pub fn full_block(&mut self) -> Result<Weight, simkit::Violation> {
		self.begin(4000);
		self.end(None)
	}
	pub fn bal(&mut self, a: AssetId, w: &AccountId) -> Balance {
		let w = *w;
		self.exec(|| free(a, &w))
	}
	pub fn supply(&mut self, a: AssetId) -> Balance {
		self.exec(|| supply(a))
	}
	pub fn events_since(&mut self, from: usize) -> Vec<RuntimeEvent> {
		self.exec(|| System::events().into_iter().skip(from).map(|e| e.event).collect())
	}
	pub fn event_count(&mut self) -> usize {
		self.exec(|| System::events().len())
	}
	pub fn hash(&self) -> u64 {
		self.ext.state_hash()
	}
	/// `f` must leave the state as it was if it fails
	pub fn atomic(&mut self, prop: &str, key: &str, s: Step) -> Result<Out, simkit::Violation> {
		let before = state_no_meta(&self.ext);
		let r = self.step(s.clone());
		if r.is_err() {
			let after = state_no_meta(&self.ext);
			if before != after {
				return Err(viol(prop, key, format!("a failed call changed the state: {:?}", diff(&before, &after))));
			}
		}
		Ok(r)
	}
}
/// the state without what every extrinsic touches (events, extrinsic index, block weight)
pub fn state_no_meta(e: &TestExternalities) -> Map {
	let mut m = e.snapshot();
	let sys = substrate::io::hashing::twox_128(b"System");
	m.retain(|k, _| !(k.starts_with(&sys) && k.len() <= 32) && k != b":extrinsic_index");
	m
}
pub fn diff(a: &Map, b: &Map) -> Vec<String> {
	let mut o = vec![];
	for k in a.keys().chain(b.keys().filter(|k| !a.contains_key(*k))) {
		if a.get(k) != b.get(k) {
			o.push(format!("{}: {:?} -> {:?}", k.iter().map(|x| format!("{x:02x}")).collect::<String>(), a.get(k), b.get(k)));
		}
		if o.len() > 3 {
			break;
		}
	}
	o
}
/// what `who` could be charged (as the runtime reports it)
pub fn free(a: AssetId, who: &AccountId) -> Balance {
	use frame_support::traits::fungibles::Inspect;
	AssetsExt::balance(a, who)
}
pub fn supply(a: AssetId) -> Balance {
	use frame_support::traits::fungibles::Inspect;
	AssetsExt::total_issuance(a)
}
pub trait OnTs {
	fn poke(_n: u64) {}
}
impl OnTs for Timestamp {}
