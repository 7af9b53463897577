//! XRPL bridge: deposits (X01), withdrawals (X02), door tickets (X03).
use frame_support::weights::Weight;
use frame_system::RawOrigin;
use pallet_xrpl_bridge::types::*;
use rt::chain::*;
use rt::kit::*;
use rt::{Runtime, RuntimeCall, RuntimeEvent, System, XRPLBridge};
use seed_primitives::xrpl::{XrplAccountId, XrplTxHash};
use seed_primitives::{AccountId, AssetId, Balance};
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_core::H160;
use std::collections::{BTreeMap, BTreeSet};
use third::xrplc::parse;
simkit::interpose!();

type Call = pallet_xrpl_bridge::Call<Runtime>;
type D<V> = BTreeMap<(u8, u8), V>;
const BASE: u32 = 50_000_000;
const PERIOD: u32 = 150;
/// assets: XRP, ROOT and tokens with 0, 6, 18 and 30 decimals
const ASSETS: [(AssetId, u8); 6] = [(XRP, 6), (ROOT, 6), (5000, 0), (5001, 6), (5002, 18), (5003, 30)];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Block { idle: u8, fork: u8 },
	Skip(u32),
	Crash,
	Submit { by: u64, hash: u8, kind: u8, amount: u128, to: u64 },
	Challenge { by: u64, hash: u8 },
	Withdraw { by: u64, asset: u8, amount: u128, dest: u8, tag: Option<u32>, how: u8 },
	Delay { asset: u8, v: Option<(u128, u32)> },
	Relayer { who: u64, add: bool },
	Fee { nft: bool, fee: u64 },
	Tag(u32),
	Door { nft: bool, some: bool },
	Next { by: u64, nft: bool, start: i32, size: u32 },
	Current { nft: bool, gap: u32, before: u32, size: u32 },
	Prune { ledger: u32 },
	Reset { up: u32, shrink: u32, hash: Option<u8> },
	Map { asset: u8, some: bool },
	Accept { by: u64, id: u8 },
	Signers { n: u8 },
}
#[derive(Clone, Debug, PartialEq)]
enum St {
	Pending(u32),
	Settled,
	Failed,
}
#[derive(Clone, Debug)]
struct Rep {
	ledger: u32,
	asset: AssetId,
	cur: Option<XRPLCurrency>,
	amount: u128,
	to: u64,
	st: St,
}
#[derive(Clone, Debug)]
struct Owed {
	asset: u8,
	amount: u128,
	dest: u8,
	tag: Option<u32>,
	fee: u64,
	due: u32,
	cur: Option<XRPLCurrency>,
}
struct World {
	c: Chain,
	prop: String,
	users: u64,
	relayers: BTreeSet<u64>,
	reps: BTreeMap<u8, Rep>,
	order: Vec<u8>,
	challenged: BTreeSet<u8>,
	hs: u32,
	width: u32,
	map: BTreeMap<u8, XRPLCurrency>,
	delays: BTreeMap<u8, (u128, u32)>,
	owed: Vec<Owed>,
	fee: [u64; 2],
	tag: u32,
	door: [Option<u8>; 2],
	next_door: u8,
	cur_gen: u8,
	used: BTreeSet<(u8, u32)>,
	/// what was allocated for each door account
	buckets: Vec<(usize, u32, u32)>,
	/// per door: next ticket, current bucket, the bucket to come
	tick: [(u32, u32, u32, Option<(u32, u32)>); 2],
	/// tickets that accepted requests took
	handed: BTreeSet<(usize, u32)>,
	next: [Option<(u32, u32)>; 2],
	seen_logs: usize,
	seen_ids: BTreeSet<u64>,
	faults: bool,
}
fn door_acc(k: u8) -> [u8; 20] {
	let mut b = [0xD0; 20];
	b[19] = k;
	b
}
fn dest_acc(k: u8) -> [u8; 20] {
	let mut b = [0xE0; 20];
	b[19] = k;
	b
}
fn hash(h: u8) -> XrplTxHash {
	XrplTxHash::from_low_u64_be(0x5000 + h as u64)
}
impl World {
	fn ledger(&self, h: u8) -> u32 {
		BASE - 60 + (h as u32 * 37 % 24) * 12
	}
	fn currency(&self, asset: u8, g: u8) -> XRPLCurrency {
		let symbol = if asset % 2 == 0 { XRPLCurrencyType::Standard([b'A' + asset, b'B', b'A' + g % 26]) } else { let mut s = [0x21u8 + asset; 20]; s[19] = g; XRPLCurrencyType::NonStandard(s) };
		XRPLCurrency { symbol, issuer: XrplAccountId::from([0xC0 + asset; 20]) }
	}
	fn data(&self, kind: u8, amount: u128, to: u64) -> (XrplTxData, AssetId, Option<XRPLCurrency>) {
		let address: H160 = h160(acc(to));
		let k = kind % 6;
		if k == 0 {
			return (XrplTxData::Payment { amount, address }, XRP, None);
		}
		let currency = self.map.get(&k).copied().unwrap_or_else(|| self.currency(k, self.cur_gen));
		(XrplTxData::CurrencyPayment { amount, address, currency }, ASSETS[k as usize].0, Some(currency))
	}
	/// whether door `d` has a ticket left
	fn free_ticket(&self, d: usize) -> bool {
		let (seq, start, size, next) = self.tick[d];
		seq < start + size || next.is_some_and(|(s, _)| s != start && s >= seq)
	}
	/// an accepted request takes the next ticket of door `d`
	fn take_ticket(&mut self, d: usize) {
		let (seq, start, size, next) = self.tick[d];
		let t = if seq < start + size {
			self.tick[d].0 += 1;
			seq
		} else if let Some((s, z)) = next {
			self.tick[d] = (s + 1, s, z, None);
			s
		} else {
			return;
		};
		self.handed.insert((d, t));
	}
	/// signing requests made since the last look
	fn signed(&mut self) -> Result<Vec<third::xrplc::Fields>, Violation> {
		let l = self.c.logs();
		let new = l[self.seen_logs.min(l.len())..].to_vec();
		self.seen_logs = l.len();
		let mut o = vec![];
		for x in new {
			if let Log::Sign { eth: false, id, data } = x {
				check!("B03|X02", "proof-id-reused", self.seen_ids.insert(id), "event proof id {id} requested twice");
				let f = parse(&data);
				check!("X02", "unreadable", f.is_some(), "signing request {id} is not a well-formed XRPL transaction");
				let f = f.unwrap();
				self.ticket(&f)?;
				o.push(f);
			}
		}
		Ok(o)
	}
	fn ticket(&mut self, f: &third::xrplc::Fields) -> Res {
		let a = f.0.get(&(8, 1)).cloned().unwrap_or_default();
		let t = f.0.get(&(2, 41)).map(|x| be(x) as u32);
		let d = (0..self.next_door).find(|k| door_acc(*k)[..] == a[..]);
		check!("X02|X03", "foreign-account", d.is_some(), "signing request for an XRPL account {a:?} that never was a door");
		check!("X03", "no-ticket", t.is_some() && f.0.get(&(2, 4)).map(|x| be(x)) == Some(0), "signing request without ticket");
		let (d, t) = (d.unwrap(), t.unwrap());
		let which = d as usize % 2;
		check!("X03", "ticket-reused", self.used.insert((d, t)), "door account {d}: ticket {t} used for a second transaction");
		check!("X03", "ticket-not-allocated", self.buckets.iter().any(|(w, s, z)| *w == which && t >= *s && t < s + z), "door account {d}: ticket {t} is in none of the allocated buckets {:?}", self.buckets);
		check!("X03", "ticket-out-of-turn", self.handed.contains(&(which, t)), "door account {d}: ticket {t} was no accepted request's turn; next {:?}", self.tick[which]);
		Ok(())
	}
	fn matches(&self, o: &Owed, f: &third::xrplc::Fields) -> Result<(), String> {
		let g = |t, c| f.0.get(&(t, c)).cloned();
		let n = |t, c| g(t, c).map(|x| be(&x));
		let e = |what: &str, a: String, b: String| Err(format!("{what} is {a}, owed {b}"));
		if n(1, 2) != Some(0) {
			return e("type", format!("{:?}", n(1, 2)), "Payment".into());
		}
		let door = self.door[0].map(|d| door_acc(d).to_vec());
		if g(8, 1) != door {
			return e("account", format!("{:?}", g(8, 1)), format!("{door:?}"));
		}
		if g(8, 3) != Some(dest_acc(o.dest).to_vec()) {
			return e("destination", format!("{:?}", g(8, 3)), format!("{}", o.dest));
		}
		if n(2, 14) != o.tag.map(|x| x as u64) {
			return e("destination tag", format!("{:?}", n(2, 14)), format!("{:?}", o.tag));
		}
		if n(2, 3) != Some(self.tag as u64) {
			return e("source tag", format!("{:?}", n(2, 3)), format!("{}", self.tag));
		}
		if n(6, 8) != Some(o.fee as u64 | 1 << 62) {
			return e("fee", format!("{:?}", n(6, 8)), format!("{}", o.fee));
		}
		let a = g(6, 1).unwrap_or_default();
		match &o.cur {
			None => {
				if a.len() != 8 || be(&a) != (o.amount as u64 | 1 << 62) {
					return e("amount", format!("{a:?}"), format!("{} drops", o.amount));
				}
			},
			Some(c) => {
				if a.len() != 48 {
					return e("amount", format!("{a:?}"), "an issued amount".into());
				}
				let v = be(&a[..8]);
				let (m, x) = ((v & ((1 << 54) - 1)) as u128, ((v >> 54) & 0xff) as i32 - 97);
				// m * 10^x == amount / 10^decimals
				let dec = ASSETS[o.asset as usize].1 as i32;
				let (mut l, mut r, mut p) = (m, o.amount, x + dec);
				while p > 0 && l < u128::MAX / 10 {
					l *= 10;
					p -= 1;
				}
				while p < 0 && r < u128::MAX / 10 {
					r *= 10;
					p += 1;
				}
				while p < 0 && l % 10 == 0 && l > 0 {
					l /= 10;
					p += 1;
				}
				if p != 0 || l != r || v >> 62 != 3 {
					return e("amount", format!("{m}e{x}"), format!("{} units of a token with {dec} decimals", o.amount));
				}
				let mut sym = [0u8; 20];
				match c.symbol {
					XRPLCurrencyType::Standard(s) => sym[12..15].copy_from_slice(&s),
					XRPLCurrencyType::NonStandard(s) => sym = s,
				}
				let iss: [u8; 20] = c.issuer.into();
				if a[8..28] != sym || a[28..48] != iss {
					return e("currency", format!("{:?}", &a[8..]), format!("{c:?}"));
				}
			},
		}
		Ok(())
	}
	/// signing requests that idle processing made must be payments that are due
	fn settle_due(&mut self, st: &mut Stats) -> Res {
		for f in self.signed()? {
			let n = self.c.n;
			let m: Vec<_> = self.owed.iter().map(|o| self.matches(o, &f)).collect();
			match m.iter().position(|x| x.is_ok()) {
				Some(i) => {
					// the same payment may be owed several times: the earliest one is meant
					let i = (0..m.len()).filter(|j| m[*j].is_ok()).min_by_key(|j| self.owed[*j].due).unwrap_or(i);
					check!("X02", "paid-early", self.owed[i].due <= n, "delayed withdrawal {:?} was signed in block {n}", self.owed[i]);
					self.owed.remove(i);
					st.hit("X02");
					st.count("delayed withdrawal signed");
				},
				None => return Err(viol("X02", "unowed-payment", format!("a payment was signed that no withdrawal asked for ({:?}): {f:?}", m))),
			}
		}
		Ok(())
	}
	fn balances(&mut self) -> BTreeMap<(u64, AssetId), u128> {
		let u = self.users;
		self.c.exec(|| {
			let mut m = BTreeMap::new();
			for (a, _) in ASSETS {
				for w in 1..=u {
					m.insert((w, a), free(a, &acc(w)));
				}
				m.insert((0, a), supply(a));
				m.insert((9999, a), free(a, &pot()));
			}
			m
		})
	}
	fn expect(&mut self, prop: &str, key: &str, what: &str, before: BTreeMap<(u64, AssetId), u128>, deltas: &[((u64, AssetId), i128)]) -> Res {
		let mut e = before;
		for (k, d) in deltas {
			if let Some(x) = e.get_mut(k) {
				*x = (*x as i128 + d) as u128;
			}
		}
		let got = self.balances();
		for (k, v) in &e {
			if got[k] != *v {
				return Err(viol(prop, key, format!("{what}: asset {} of {}: {} instead of {}", k.1, match k.0 { 0 => "total supply".into(), 9999 => "bridge account".into(), n => format!("account {n}") }, got[k], v)));
			}
		}
		Ok(())
	}
	fn next_block(&mut self, idle: u8, st: &mut Stats) -> Res {
		let w = match idle % 4 {
			0 => None,
			1 => Some(Weight::zero()),
			_ => Some(Weight::from_parts(idle as u64 * 20_000_000, u64::MAX)),
		};
		if w.is_some() {
			st.fault("no or little weight left for idle processing");
		}
		let before = self.balances();
		// idle processing happens in end(); what it signs is in the block's digest
		self.c.end(w)?;
		self.expect("X02", "idle-moved-funds", "idle processing", before, &[])?;
		let l = logs(&self.c.last_digest.clone());
		let new: Vec<Log> = l[self.seen_logs.min(l.len())..].to_vec();
		self.seen_logs = 0;
		for x in new {
			if let Log::Sign { eth: false, id, data } = x {
				check!("B03|X02", "proof-id-reused", self.seen_ids.insert(id), "event proof id {id} requested twice");
				let f = parse(&data);
				check!("X02", "unreadable", f.is_some(), "signing request {id} is not a well-formed XRPL transaction");
				let f = f.unwrap();
				self.ticket(&f)?;
				let n = self.c.n;
				let m: Vec<_> = self.owed.iter().map(|o| self.matches(o, &f)).collect();
				match (0..m.len()).filter(|j| m[*j].is_ok()).min_by_key(|j| self.owed[*j].due) {
					Some(i) => {
						check!("X02", "paid-early", self.owed[i].due <= n, "delayed withdrawal {:?} was signed in block {n}", self.owed[i]);
						self.owed.remove(i);
						st.hit("X02");
						st.count("delayed withdrawal signed");
					},
					None => return Err(viol("X02", "unowed-payment", format!("a payment was signed that no withdrawal asked for ({m:?}): {f:?}"))),
				}
			}
		}
		Ok(())
	}
	fn begin(&mut self, st: &mut Stats) -> Res {
		let before = self.balances();
		self.c.begin(4000);
		st.time(4000);
		let n = self.c.n;
		// deposits due in this block, in the order of their submission
		let ev = self.c.events_since(0);
		let mut ok = BTreeSet::new();
		for e in &ev {
			if let RuntimeEvent::XRPLBridge(pallet_xrpl_bridge::Event::ProcessingOk(_, h)) = e {
				ok.insert(*h);
			}
		}
		let mut deltas: Vec<((u64, AssetId), i128)> = vec![];
		let mut root_left = before[&(9999, ROOT)];
		let mut hs = self.hs;
		for h in self.order.clone() {
			let r = self.reps.get_mut(&h).unwrap();
			if r.st != St::Pending(n) {
				continue;
			}
			let mapped = match &r.cur {
				None => true,
				Some(c) => self.map.values().any(|x| x == c),
			};
			let sure = !self.challenged.contains(&h) && mapped && r.amount > 0 && r.amount < 1 << 100 && (r.asset != ROOT || r.amount <= root_left);
			// a report that must not be credited, or one whose success is the pallet's to decide (zero, overflow)
			let may = !self.challenged.contains(&h) && mapped && (r.amount == 0 || r.amount >= 1 << 100);
			let said = ok.remove(&hash(h));
			let credit = sure || (may && said);
			st.hit("X01");
			st.count(if credit { "deposit credited" } else { "deposit not credited" });
			check!("X01", "settled-claim-differs", said == credit, "report {h} ({r:?}), challenged: {}, mapped: {mapped}: processed successfully: {said}", self.challenged.contains(&h));
			if credit {
				if r.asset == ROOT {
					root_left -= r.amount;
					deltas.push(((9999, ROOT), -(r.amount as i128)));
				} else {
					deltas.push(((0, r.asset), r.amount as i128));
				}
				deltas.push(((r.to, r.asset), r.amount as i128));
				hs = hs.max(r.ledger);
				r.st = St::Settled;
			} else {
				r.st = St::Failed;
			}
		}
		check!("X01", "unreported-processed", ok.is_empty(), "processed successfully in block {n} though not due: {ok:?}");
		self.hs = hs;
		self.expect("X01", "credit-differs", "deposits due", before, &deltas)?;
		check!("X02", "signed-at-start", self.signed()?.is_empty(), "a payment was signed by block initialisation");
		Ok(())
	}
	fn origin(&self, by: u64) -> AccountId {
		acc(by)
	}
}
fn pot() -> AccountId {
	use sp_runtime::traits::AccountIdConversion;
	<Runtime as pallet_xrpl_bridge::Config>::PalletId::get().into_account_truncating()
}
use frame_support::traits::Get;
fn drop_digits(mut a: u128) -> u128 {
	let mut p = 1;
	while a > 9_999_999_999_999_999 {
		a /= 10;
		p *= 10;
	}
	a * p
}

impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "xrpl";
	const PROPS: &'static [&'static str] = &["X01", "X02", "X03", "R01"];
	const REAL: &'static [&'static str] = &["pallet-xrpl-bridge", "pallet-ethy (signing requests)", "pallet-assets-ext", "runtime configuration", "seed-primitives"];
	const STUB: &'static [&'static str] = &["substrate (storage, executive, assets, balances)", "xrpl-codec", "XRPL itself", "validators (nobody signs)"];
	fn rule() -> &'static str {
		"an evaluation counts when a reported deposit came due, a withdrawal was accepted and its payment checked, or a ticket was taken"
	}
	fn panic_prop(&self) -> String {
		self.prop.clone()
	}
	fn quick_runs() -> u64 {
		6000
	}
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed);
		let users = r.range(2, 4);
		let mut c = Chain::new(Cfg { accounts: users, root_each: 1_000_000_000_000, xrp_each: *r.pick(&[5_000_000, 1_000_000_000_000]) });
		c.reexec = prop == "R01" || r.chance(1, 4);
		for (a, d) in &ASSETS[2..] {
			c.asset(*a, *d);
			for u in 1..=users {
				c.give(*a, acc(u), r.amount(&[10u128.pow(*d as u32), 123_456_789_012_345_678_901]).max(1) >> 2);
			}
		}
		let width = *r.pick(&[24, 60, 120, 300]);
		c.exec(|| {
			use pallet_xrpl_bridge::*;
			HighestSettledLedgerIndex::<Runtime>::put(BASE);
			SubmissionWindowWidth::<Runtime>::put(width);
			HighestPrunedLedgerIndex::<Runtime>::put(BASE - 400);
			DoorAddress::<Runtime>::insert(XRPLDoorAccount::Main, XrplAccountId::from(door_acc(0)));
			DoorAddress::<Runtime>::insert(XRPLDoorAccount::NFT, XrplAccountId::from(door_acc(1)));
		});
		let mut w = World {
			c,
			prop: prop.into(),
			users,
			relayers: Default::default(),
			reps: Default::default(),
			order: vec![],
			challenged: Default::default(),
			hs: BASE,
			width,
			map: Default::default(),
			delays: Default::default(),
			owed: vec![],
			fee: [1_000_000; 2],
			tag: 0,
			door: [Some(0), Some(1)],
			next_door: 2,
			cur_gen: 0,
			used: Default::default(),
			buckets: vec![],
			tick: [(0, 0, 0, None); 2],
			handed: Default::default(),
			next: [None; 2],
			seen_logs: 0,
			seen_ids: Default::default(),
			faults: !r.chance(1, 6),
		};
		for a in 1..6u8 {
			if r.chance(2, 3) {
				let cur = w.currency(a, 0);
				w.map.insert(a, cur);
				w.c.exec(|| XRPLBridge::set_xrpl_asset_map(RawOrigin::Root.into(), ASSETS[a as usize].0, Some(cur)).unwrap());
			}
		}
		for d in 0..2 {
			let (s, z) = (r.range(1, 60) as u32, r.range(1, 12) as u32);
			w.buckets.push((d, s, z));
			w.tick[d] = (s, s, z, None);
			let k = if d == 0 { XRPLDoorAccount::Main } else { XRPLDoorAccount::NFT };
			w.c.exec(|| XRPLBridge::set_ticket_sequence_current_allocation(RawOrigin::Root.into(), k, s, s, z).unwrap());
		}
		w.relayers.insert(1);
		w.c.exec(|| XRPLBridge::add_relayer(RawOrigin::Root.into(), acc(1)).unwrap());
		let fee = *r.pick(&[0u64, 12, 1_000_000]);
		w.fee[0] = fee;
		w.c.exec(|| XRPLBridge::set_door_tx_fee(RawOrigin::Root.into(), XRPLDoorAccount::Main, fee).unwrap());
		w.c.begin(4000);
		w
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(20, 120) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let f = self.faults as u32;
		let x1 = (self.prop == "X01") as u32;
		let x2 = (self.prop == "X02") as u32;
		let x3 = (self.prop == "X03") as u32;
		let u = self.users;
		let n = self.c.n;
		match r.weighted(&[14, 6, 2 * f, 8 + 14 * x1, (3 + 4 * x1) * f, 8 + 12 * x2 + 8 * x3, 3 + 3 * x2, 2, 1, 1, 1 + 2 * x3, 4 + 10 * x3, 1 + 2 * x3, 1 + x1, 1 + x1, 2, 2 + 5 * x3, 1 + 4 * x3]) {
			0 => Op::Block { idle: if r.chance(1, 2) { 0 } else { r.below(60) as u8 * f as u8 }, fork: if f > 0 && r.chance(1, 8) { r.range(1, 200) as u8 } else { 0 } },
			1 => {
				let mut due: Vec<u32> = self.reps.values().filter_map(|x| if let St::Pending(d) = x.st { Some(d) } else { None }).chain(self.owed.iter().map(|o| o.due)).filter(|d| *d > n).collect();
				due.sort();
				Op::Skip(match due.first() {
					Some(d) if r.chance(9, 10) => d - n,
					_ => r.range(1, 60) as u32,
				})
			},
			2 => Op::Crash,
			3 => {
				let near: Vec<u128> = vec![1_000_000, 1_000_000_000_000];
				let hash = if r.chance(1, 3) && !self.order.is_empty() { *r.pick(&self.order) } else { r.below(200) as u8 };
				// all the XRP there is fits into 10^17 drops
				let kind = r.below(6) as u8;
				let amount = r.amount(&near) % if kind < 2 { 1_000_000_000_000_000 } else { 1 << 100 };
				Op::Submit { by: if r.chance(1, 12) { r.range(1, u) } else { self.relayers.iter().next().copied().unwrap_or(1) }, hash, kind, amount, to: r.range(1, u) }
			},
			4 => Op::Challenge { by: r.range(1, u), hash: if !self.order.is_empty() && r.chance(4, 5) { *r.pick(&self.order) } else { r.below(200) as u8 } },
			5 => {
				let by = r.range(1, u);
				let asset = *r.pick(&[0u8, 0, 1, 2, 3, 4, 5]);
				let b = self.c.bal(ASSETS[asset as usize].0, &acc(by));
				let t = self.delays.get(&asset).map(|x| x.0).unwrap_or(1);
				let fee = self.fee[0] as u128;
				let mut amount = r.amount(&[b, b.saturating_sub(fee), t]);
				if r.chance(1, 3) && b > 10 {
					amount = 1 + (r.next() as u128 | (r.next() as u128) << 64) % (b / 3);
				}
				Op::Withdraw { by, asset, amount, dest: r.below(5) as u8, tag: r.chance(1, 2).then(|| r.below(1000) as u32), how: r.below(3) as u8 }
			},
			6 => Op::Delay { asset: r.below(6) as u8, v: (!r.chance(1, 4)).then(|| (r.amount(&[1_000_000]) >> 4, if r.chance(1, 5) { r.below(400) as u32 } else { r.below(12) as u32 })) },
			7 => Op::Relayer { who: r.range(1, u), add: !r.chance(1, 3) },
			8 => Op::Fee { nft: r.chance(1, 3), fee: *r.pick(&[0, 1, 12, 1_000_000, 999_983]) },
			9 => Op::Tag(r.below(1 << 20) as u32),
			10 => Op::Door { nft: r.chance(1, 2), some: !r.chance(1, 4) },
			11 => Op::Next { by: if r.chance(1, 10) { r.range(1, u) } else { self.relayers.iter().next().copied().unwrap_or(1) }, nft: r.chance(1, 3), start: r.below(12) as i32 - 2, size: r.below(9) as u32 },
			12 => Op::Current { nft: r.chance(1, 3), gap: r.below(6) as u32, before: r.below(3) as u32, size: r.range(1, 10) as u32 },
			13 => Op::Prune { ledger: if !self.order.is_empty() { self.reps[r.pick(&self.order)].ledger } else { BASE } },
			14 => Op::Reset { up: if r.chance(1, 2) { 0 } else { r.below(80) as u32 }, shrink: if r.chance(2, 3) { 0 } else { r.below(20) as u32 }, hash: r.chance(1, 2).then(|| r.below(200) as u8) },
			15 => Op::Map { asset: r.range(1, 5) as u8, some: !r.chance(1, 3) },
			16 => Op::Accept { by: if r.chance(1, 6) { r.range(1, u) } else { self.relayers.iter().next().copied().unwrap_or(1) }, id: r.next() as u8 },
			_ => Op::Signers { n: r.range(1, 8) as u8 },
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		let n = self.c.n;
		st.note(|| format!("block {n}: {op:?}"));
		match op.clone() {
			Op::Block { idle, fork } => {
				self.next_block(idle, st)?;
				if fork > 0 {
					st.fault("abandoned fork");
					let (d, _, _) = self.data(fork, fork as u128 * 1000, 1);
					let l = self.ledger(fork);
					self.c.abandoned_fork(|c| {
						let _ = c.call(acc(1), Call::submit_transaction { ledger_index: l as u64, transaction_hash: hash(fork), transaction: d, timestamp: 1 });
						let _ = c.call(acc(1), Call::withdraw_xrp { amount: 10 + fork as u128, destination: XrplAccountId::from(dest_acc(9)) });
						let _ = c.bypass(acc(2), Call::submit_challenge { transaction_hash: hash(fork.wrapping_add(1)) });
					});
				}
				self.begin(st)?;
				st.op("block", true);
			},
			Op::Skip(k) => {
				self.next_block(0, st)?;
				let keys: Vec<u32> = self.c.exec(|| pallet_xrpl_bridge::ProcessXRPTransaction::<Runtime>::iter().map(|x| x.0).collect());
				let mut to = n + k.max(1);
				for d in keys.into_iter().chain(self.reps.values().filter_map(|x| if let St::Pending(d) = x.st { Some(d) } else { None })) {
					if d > n && d < to {
						to = d;
					}
				}
				st.time(4000 * (to - n - 1) as u64);
				self.c.skip_to(to);
				self.begin(st)?;
				st.op("skip", true);
			},
			Op::Crash => {
				st.fault("crash inside a block");
				self.c.crash_and_redo()?;
			},
			Op::Submit { by, hash: h, kind, amount, to } => {
				let (d, asset, cur) = self.data(kind, amount, to);
				let l = self.ledger(h);
				let s = Step::Call(RawOrigin::Signed(acc(by)), Call::submit_transaction { ledger_index: l as u64, transaction_hash: hash(h), transaction: d, timestamp: 1 }.into());
				let in_window = l >= self.hs.saturating_sub(self.width);
				let mapped = cur.map(|c| self.map.values().any(|x| *x == c)).unwrap_or(true);
				let known = self.reps.contains_key(&h);
				let out = self.c.atomic("X01", "refused-report-left-traces", s)?;
				st.op("submit", out.is_ok());
				if out.is_ok() {
					st.hit("X01");
					check!("X01", "replay-accepted", !known, "report {h} accepted again: {:?}", self.reps.get(&h));
					check!("X01", "outsider-accepted", self.relayers.contains(&by), "report accepted from account {by}, which is no relayer");
					check!("X01", "stale-accepted", in_window, "report for ledger {l} accepted; settled {} window {}", self.hs, self.width);
					self.reps.insert(h, Rep { ledger: l, asset, cur, amount, to, st: St::Pending(n + PERIOD) });
					self.order.push(h);
				} else {
					check!("X01", "fresh-refused", !(self.relayers.contains(&by) && in_window && mapped && !known), "fresh report {h} refused: {out:?}");
					if known {
						st.count("replay refused");
					}
				}
			},
			Op::Challenge { by, hash: h } => {
				let r = self.c.bypass(acc(by), Call::submit_challenge { transaction_hash: hash(h) });
				st.op("challenge", r.is_ok());
				st.fault("deposit challenged");
				if r.is_ok() {
					self.challenged.insert(h);
				}
			},
			Op::Withdraw { by, asset, amount, dest, tag, how } => {
				let id = ASSETS[asset as usize].0;
				let d = XrplAccountId::from(dest_acc(dest));
				let (call, tag) = match (how, tag) {
					(0, None) if asset == 0 => (Call::withdraw_xrp { amount, destination: d }, None),
					(1, Some(t)) if asset == 0 => (Call::withdraw_xrp_with_destination_tag { amount, destination: d, destination_tag: t }, tag),
					_ => (Call::withdraw { asset_id: id, amount, destination: d, destination_tag: tag }, tag),
				};
				let fee = self.fee[0] as u128;
				let before = self.balances();
				let free_t = self.free_ticket(0);
				let out = self.c.atomic("X02", "refused-withdrawal-left-traces", Step::Call(RawOrigin::Signed(acc(by)), call.into()))?;
				st.op("withdraw", out.is_ok());
				let taken = if asset == 0 { amount } else { drop_digits(amount) };
				let cur = if asset == 0 { None } else { self.map.get(&asset).copied() };
				let rounding_ok = asset == 0 || amount - taken < 10u128.pow(ASSETS[asset as usize].1 as u32);
				let funds = match asset {
					0 => amount.checked_add(fee).map_or(false, |x| before[&(by, XRP)] >= x),
					_ => before[&(by, XRP)] >= fee && before[&(by, id)] >= taken,
				};
				if out.is_err() {
					let must = amount > 0 && self.door[0].is_some() && free_t && (asset == 0 || cur.is_some()) && rounding_ok && funds;
					check!("X02", "refused", !must, "withdrawal of {amount} of asset {id} by {by} refused: {out:?}");
					return Ok(());
				}
				check!("X03", "accepted-without-ticket", free_t, "a withdrawal was accepted though no ticket is left: {:?}", self.tick[0]);
				self.take_ticket(0);
				st.hit("X02");
				check!("X02", "accepted-without-door", self.door[0].is_some() && (asset == 0 || cur.is_some()), "withdrawal of asset {id} accepted without door account or currency");
				check!("X02", "accepted-zero", amount > 0, "withdrawal of nothing accepted");
				check!("X02", "accepted-rounding", rounding_ok, "withdrawal of {amount} accepted though {} are cut off", amount - taken);
				check!("X02", "accepted-unfunded", funds, "withdrawal of {amount} of asset {id} accepted from {by}, who holds {}", before[&(by, id)]);
				let mut dl = vec![];
				dl.push(((by, XRP), -(fee as i128)));
				dl.push(((0, XRP), -(fee as i128)));
				dl.push(((by, id), -(taken as i128)));
				if asset == 1 {
					dl.push(((9999, ROOT), taken as i128));
				} else {
					dl.push(((0, id), -(taken as i128)));
				}
				self.expect("X02", "charge-differs", &format!("withdrawal of {amount} of asset {id} by {by}"), before, &dl)?;
				let mut o = Owed { asset, amount: taken, dest, tag, fee: self.fee[0], due: n, cur };
				let signed = self.signed()?;
				match self.delays.get(&asset) {
					Some((t, d)) if taken >= *t => {
						check!("X02", "delay-ignored", signed.is_empty(), "withdrawal of {taken} signed at once in spite of the delay {:?}", (t, d));
						o.due = n.saturating_add(*d);
						self.owed.push(o);
						st.count("withdrawal delayed");
					},
					_ => {
						check_eq!("X02", "payments-signed", signed.len(), 1, "payments signed for a withdrawal");
						if let Err(e) = self.matches(&o, &signed[0]) {
							return Err(viol("X02", "payment-differs", format!("withdrawal {o:?}: {e}")));
						}
					},
				}
			},
			Op::Delay { asset, v } => {
				let r = self.c.root(Call::set_payment_delay { asset_id: ASSETS[asset as usize].0, payment_delay: v });
				if r.is_ok() {
					match v {
						Some(v) => self.delays.insert(asset, v),
						None => self.delays.remove(&asset),
					};
				}
				st.op("delay", r.is_ok());
			},
			Op::Relayer { who, add } => {
				let r = if add { self.c.root(Call::add_relayer { relayer: acc(who) }) } else { self.c.root(Call::remove_relayer { relayer: acc(who) }) };
				if r.is_ok() {
					if add {
						self.relayers.insert(who);
					} else {
						self.relayers.remove(&who);
					}
				}
				st.op("relayer", r.is_ok());
			},
			Op::Fee { nft, fee } => {
				let k = if nft { XRPLDoorAccount::NFT } else { XRPLDoorAccount::Main };
				if self.c.root(Call::set_door_tx_fee { door_type: k, fee }).is_ok() {
					self.fee[nft as usize] = fee;
				}
			},
			Op::Tag(t) => {
				if self.c.root(Call::set_xrp_source_tag { source_tag: t }).is_ok() {
					self.tag = t;
				}
			},
			Op::Door { nft, some } => {
				// a door account is either gone or a new XRPL account
				let k = if nft { XRPLDoorAccount::NFT } else { XRPLDoorAccount::Main };
				if self.next_door > 240 {
					return Ok(());
				}
				let d = some.then(|| {
					if self.next_door % 2 != nft as u8 {
						self.next_door += 1;
					}
					self.next_door += 1;
					self.next_door - 1
				});
				if self.c.root(Call::set_door_address { door_account: k, door_address: d.map(|d| XrplAccountId::from(door_acc(d))) }).is_ok() {
					self.door[nft as usize] = d;
				}
				st.op("door", true);
			},
			Op::Next { by, nft, start, size } => {
				let k = if nft { XRPLDoorAccount::NFT } else { XRPLDoorAccount::Main };
				let cur = self.c.exec(|| pallet_xrpl_bridge::DoorTicketSequence::<Runtime>::get(k));
				let p = self.c.exec(|| pallet_xrpl_bridge::DoorTicketSequenceParams::<Runtime>::get(k));
				let s = (if by % 2 == 0 { cur } else { p.start_sequence + p.bucket_size }) as i64 + start as i64;
				let s = s.max(0) as u32;
				let r = self.c.call(acc(by), Call::set_ticket_sequence_next_allocation { door_account: k, start_ticket_sequence: s, ticket_bucket_size: size });
				st.op("tickets-next", r.is_ok());
				if r.is_ok() {
					check!("X03", "outsider-allocated", self.relayers.contains(&by), "account {by} is no relayer and allocated tickets");
					check!("X03", "empty-bucket", size > 0, "an empty bucket was allocated");
					self.buckets.push((nft as usize, s, size));
					self.tick[nft as usize].3 = Some((s, size));
				}
			},
			Op::Current { nft, gap, before, size } => {
				let k = if nft { XRPLDoorAccount::NFT } else { XRPLDoorAccount::Main };
				let cur = self.c.exec(|| pallet_xrpl_bridge::DoorTicketSequence::<Runtime>::get(k));
				let t = cur + gap;
				let start = t.saturating_sub(before);
				let size = size + before;
				let r = self.c.root(Call::set_ticket_sequence_current_allocation { door_account: k, ticket_sequence: t, start_ticket_sequence: start, ticket_bucket_size: size });
				st.op("tickets-now", r.is_ok());
				if r.is_ok() {
					self.buckets.push((nft as usize, start, size));
					let next = self.tick[nft as usize].3;
					self.tick[nft as usize] = (t, start, size, next);
				}
			},
			Op::Prune { ledger } => {
				let r = self.c.root(Call::prune_settled_ledger_index { ledger_index: ledger });
				st.op("prune", r.is_ok());
				if r.is_ok() {
					check!("X01", "pruned-in-window", ledger < self.hs.saturating_sub(self.width), "ledger {ledger} pruned; settled {} window {}", self.hs, self.width);
				}
			},
			Op::Reset { up, shrink, hash: h } => {
				let (hs, width) = (self.hs + up, self.width.saturating_sub(shrink).max(10));
				let mut data = None;
				if let Some(h) = h {
					let l = self.ledger(h);
					if !self.reps.contains_key(&h) && l >= hs - width {
						data = Some((h, l));
					}
				}
				let tx = XrpTransaction { transaction_hash: hash(h.unwrap_or(0)), transaction: XrplTxData::Payment { amount: 5, address: h160(acc(1)) }, timestamp: 0 };
				let before = self.balances();
				let r = self.c.root(Call::reset_settled_xrpl_tx_data { highest_settled_ledger_index: hs, submission_window_width: width, highest_pruned_ledger_index: None, settled_tx_data: data.map(|(h, l)| vec![(hash(h), l, tx, acc(1))]) });
				st.op("reset", r.is_ok());
				self.expect("X01", "reset-moved-funds", "reset of the settled data", before, &[])?;
				if r.is_ok() {
					self.hs = hs;
					self.width = width;
					if let Some((h, l)) = data {
						self.reps.insert(h, Rep { ledger: l, asset: XRP, cur: None, amount: 5, to: 1, st: St::Settled });
						self.order.push(h);
					}
				}
			},
			Op::Map { asset, some } => {
				// a currency is mapped afresh, or not at all
				if some && self.map.contains_key(&asset) {
					return Ok(());
				}
				self.cur_gen = self.cur_gen.wrapping_add(1) % 26;
				let c = self.currency(asset, self.cur_gen);
				let r = self.c.root(Call::set_xrpl_asset_map { asset_id: ASSETS[asset as usize].0, xrpl_currency: some.then_some(c) });
				st.op("map", r.is_ok());
				if r.is_ok() {
					if some {
						self.map.insert(asset, c);
					} else {
						self.map.remove(&asset);
					}
				}
			},
			Op::Accept { by, id } => {
				let free_t = self.free_ticket(1);
				let r = self.c.atomic("X03", "refusal-left-traces", Step::Call(RawOrigin::Signed(acc(by)), Call::generate_nft_accept_offer { nftoken_sell_offer: [id; 32] }.into()))?;
				st.op("accept-offer", r.is_ok());
				if r.is_ok() {
					check!("X03", "accepted-without-ticket", free_t, "an offer was accepted though no ticket is left: {:?}", self.tick[1]);
					self.take_ticket(1);
				}
				let s = self.signed()?;
				if r.is_ok() {
					st.hit("X03");
					check!("X03", "outsider", self.relayers.contains(&by) && self.door[1].is_some(), "account {by} had an offer accepted");
					check_eq!("X03", "requests", s.len(), 1, "requests signed for an accepted offer");
					let f = &s[0].0;
					check!("X03", "offer-differs", f.get(&(1, 2)).map(|x| be(x)) == Some(29) && f.get(&(5, 29)) == Some(&vec![id; 32]) && f.get(&(8, 1)) == self.door[1].map(|d| door_acc(d).to_vec()).as_ref() && f.get(&(6, 8)).map(|x| be(x)) == Some(self.fee[1] | 1 << 62), "request {f:?} for offer {id}");
				} else {
					check!("X03", "refused", !(self.relayers.contains(&by) && self.door[1].is_some() && free_t), "offer refused though tickets are left: {r:?}");
				}
			},
			Op::Signers { n: k } => {
				use seed_pallet_common::EthyToXrplBridgeAdapter;
				let list: Vec<(XrplAccountId, u16)> = (0..k).map(|i| (XrplAccountId::from([i + 1; 20]), 1)).collect();
				let ft = (self.free_ticket(0), self.free_ticket(1));
				let r = self.c.atomic("X03", "refusal-left-traces", Step::Fn(std::rc::Rc::new(move || XRPLBridge::submit_signer_list_set_request(list.clone()).map(|_| ()))))?;
				st.op("signer-list", r.is_ok());
				if r.is_ok() {
					check!("X03", "accepted-without-ticket", ft == (true, true), "a signer list was accepted though no ticket is left: {:?}", self.tick);
					self.take_ticket(0);
					self.take_ticket(1);
				}
				let s = self.signed()?;
				if r.is_ok() {
					st.hit("X03");
					check_eq!("X03", "requests", s.len(), 2, "requests signed for a signer list");
				} else {
					check!("X03", "refused", !(self.door[0].is_some() && self.door[1].is_some() && ft == (true, true)), "signer list refused though tickets are left: {r:?}");
				}
			},
		}
		let rest = self.signed()?;
		check!("X02|X03", "stray-request", rest.is_empty(), "{op:?} had transactions signed: {rest:?}");
		st.state(self.reps.len() as u64 ^ (self.owed.len() as u64) << 8 ^ (self.used.len() as u64) << 16 ^ (self.challenged.len() as u64) << 24 ^ (self.hs as u64) << 32);
		st.digest(self.c.hash());
		Ok(())
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		// faults stop: every deposit comes due, every delayed payment is signed
		if self.door[0].is_none() {
			self.apply(&Op::Door { nft: false, some: true }, st)?;
		}
		for _ in 0..400 {
			let n = self.c.n;
			let d = self.reps.values().filter_map(|x| if let St::Pending(d) = x.st { Some(d) } else { None }).chain(self.owed.iter().map(|o| o.due)).filter(|d| *d > n && *d < n + 100_000).min();
			match d {
				Some(d) => self.apply(&Op::Skip(d - n), st)?,
				None => break,
			}
		}
		for _ in 0..4 {
			self.apply(&Op::Block { idle: 0, fork: 0 }, st)?;
		}
		let n = self.c.n;
		check!("X02", "never-paid", self.owed.iter().all(|o| o.due >= n), "delayed withdrawals never signed: {:?} at block {n}", self.owed);
		check!("X01", "never-settled", self.reps.values().all(|r| !matches!(r.st, St::Pending(d) if d < n)), "reports never processed: {:?}", self.reps);
		let _ = self.origin(1);
		Ok(())
	}
}
fn main() {
	simkit::main::<World>()
}
