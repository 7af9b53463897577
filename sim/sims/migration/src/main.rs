//! Multi-block migrations (G01): the migration pallet driven by the simulation's own migration.
use frame_support::traits::Hooks;
use frame_support::{weights::Weight, BoundedVec};
use frame_system::RawOrigin;
use pallet_migration::{Call as MC, Event as ME, WeightInfo};
use rt::chain::*;
use rt::stand_ins::*;
use rt::{Migration, Runtime, RuntimeEvent};
use codec::Encode;
use seed_pallet_common::Xls20Ext;
use seed_primitives::{CrossChainCompatibility, MetadataScheme};
use serde::{Deserialize, Serialize};
use simkit::*;
use std::collections::BTreeMap;
simkit::interpose!();

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	/// idle weight: (parts of the least useful weight in 1/16, steps more; None: plenty) and 1/n of it as proof size
	Block { idle: Option<(u32, u32)>, own: bool },
	/// a new version of the runtime is set; the migration is to a version that many above the data's
	Upgrade { ahead: u16, noop: bool, max: (u64, u64), div: u64, early: bool },
	/// the same code is set again
	Again,
	Enable { by: u8, on: bool },
	Delay { by: u8, to: Option<u32> },
	Limit { by: u8, to: u32 },
	/// new data before or after a migration
	Add { key: Vec<u8>, v: u64 },
	Xls { what: u8 },
	Crash,
	Fork { idle: u32 },
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
	None,
	Going(u32),
	Done,
}
#[derive(Clone, Debug)]
struct M {
	e: BTreeMap<Vec<u8>, (u32, u64)>,
	/// keys still to convert
	todo: Vec<Vec<u8>>,
	st: St,
	on: bool,
	delay: Option<u32>,
	limit: u32,
	version: u16,
	plan: Option<MigrationPlan>,
	completes: u32,
	steps: u32,
}
struct World {
	c: Chain,
	m: M,
	col: u32,
	mark: usize,
}
const RELAYER: u64 = 2000;
fn status() -> St {
	let s = pallet_migration::Status::<Runtime>::get();
	use pallet_migration::MigrationStatus as S;
	match s {
		S::NoMigrationInProgress => St::None,
		S::InProgress { steps_done } => St::Going(steps_done),
		S::Completed => St::Done,
	}
}
fn origin(by: u8) -> RawOrigin<seed_primitives::AccountId> {
	match by {
		0 => RawOrigin::Root,
		1 => RawOrigin::None,
		n => RawOrigin::Signed(acc(n as u64)),
	}
}
fn all_ge(a: Weight, b: Weight) -> bool {
	a.ref_time() >= b.ref_time() && a.proof_size() >= b.proof_size()
}
impl World {
	fn verify(&mut self) -> Res {
		let (e, st, on, delay, limit, counts) = self.c.peek(|| {
			(
				migration_entries(),
				status(),
				pallet_migration::MigrationEnabled::<Runtime>::get(),
				pallet_migration::BlockDelay::<Runtime>::get(),
				pallet_migration::BlockLimit::<Runtime>::get(),
				migration_counts(),
			)
		});
		let m = &self.m;
		for (k, v) in &m.e {
			let got = e.iter().find(|x| &x.0 == k).map(|x| x.1);
			check_eq!("G01", "entry", got, Some(*v), "entry {k:?} (times converted, value); {} to go, {:?}", m.todo.len(), m.st);
		}
		check_eq!("G01", "entries", e.len(), m.e.len(), "number of entries");
		check_eq!("G01", "status", st, m.st, "status with {} entries to go", m.todo.len());
		check_eq!("G01", "settings", (on, delay, limit), (m.on, m.delay, m.limit), "enabled, delay, limit");
		check_eq!("G01", "completions", (counts.0, counts.1), (m.version, m.completes), "version of the data and completions");
		check_eq!("G01", "steps", counts.2, m.steps, "steps made");
		Ok(())
	}
	/// what idle processing with this much weight does; the completion's item count
	fn work(&mut self, steps: u32) -> Option<u32> {
		let m = &mut self.m;
		let St::Going(before) = m.st else { return None };
		let p = m.plan?;
		for i in 0..steps {
			m.steps += 1;
			let fin = if m.todo.is_empty() {
				true
			} else {
				let k = m.todo.remove(0);
				let e = m.e.get_mut(&k).unwrap();
				*e = (e.0 + 1, e.1.rotate_left(7) ^ p.target as u64);
				p.early && m.todo.is_empty()
			};
			if fin {
				m.st = St::Done;
				m.version = p.target;
				m.completes += 1;
				return Some(before + i + 1);
			}
			m.st = St::Going(before + i + 1);
		}
		None
	}
	fn events(&mut self) -> Vec<ME> {
		let v = self.c.events_since(self.mark);
		self.mark = self.c.event_count();
		v.into_iter().filter_map(|e| if let RuntimeEvent::Migration(e) = e { Some(e) } else { None }).collect()
	}
	fn base(&mut self) -> (Weight, Weight, Weight) {
		(<Runtime as pallet_migration::Config>::WeightInfo::migrate(), <Runtime as pallet_migration::Config>::MaxMigrationWeight::get(), self.m.plan.map_or(Weight::zero(), |p| p.max))
	}
	fn block(&mut self, st: &mut Stats, idle: Option<(u32, u32)>, own: bool) -> Res {
		let (base, cap, step) = self.base();
		let n = self.c.n;
		let w = match idle {
			None => Weight::from_parts(u64::MAX / 2, u64::MAX / 2),
			Some((a, b)) => {
				let least = base.saturating_add(step);
				(least.saturating_mul(a as u64) / 16u64).saturating_add(step.saturating_mul(b as u64))
			},
		};
		let limit = w.min(cap);
		let active = matches!(self.m.st, St::Going(_)) && self.m.on;
		let due = self.m.delay.map_or(true, |d| n % d == 0);
		let before: u32 = self.c.peek(migration_counts).2;
		let left = self.m.todo.len() as u32 + !self.m.plan.map_or(false, |p| p.early && !self.m.todo.is_empty()) as u32;
		let _ = self.events();
		let mut used = None;
		if own {
			let w2 = w;
			used = Some(self.c.peek(move || Migration::on_idle(n, w2)));
			self.c.run(move || {
				Migration::on_idle(n, w2);
				Ok(())
			})
			.unwrap();
		}
		let made = if own { self.c.peek(migration_counts).2 - before } else { 0 };
		let mut ev = self.events();
		let made = if own {
			made
		} else {
			self.c.end(Some(w))?;
			ev.extend(self.c.last_events.iter().skip(self.mark).filter_map(|e| if let RuntimeEvent::Migration(e) = e { Some(e.clone()) } else { None }));
			self.c.peek(migration_counts).2 - before
		};
		let made = made.min(100_000);
		if !(active && due) {
			check!("G01", "not-stopped", made == 0, "block {n}: {made} steps with {:?}, enabled {}, delay {:?}", self.m.st, self.m.on, self.m.delay);
		} else {
			st.hit("G01");
			check!("G01", "over-limit", made <= self.m.limit, "block {n}: {made} steps, at most {} are allowed", self.m.limit);
			check!("G01", "over-done", made <= left, "block {n}: {made} steps, {left} are left to make");
			// all the weight it can use is there
			let room = |k: u64| all_ge(limit, base.saturating_add(step.saturating_mul(k)));
			let most = self.m.limit.min(left);
			if own || idle.is_none() {
				let sure = (1..=most).rev().find(|k| room(*k as u64)).unwrap_or(0);
				check!("G01", "stalled", made >= sure.min(most), "block {n}: {made} steps, the weight {limit:?} is enough for {sure} of {step:?} over {base:?}");
			}
			if let Some(u) = used {
				let odd = |k: &Vec<u8>| k.last().unwrap() % 2 == 1;
				let p = self.m.plan.unwrap();
				let mut sum = Weight::zero();
				for i in 0..made as usize {
					sum = sum.saturating_add(match self.m.todo.get(i) {
						Some(k) if odd(k) => p.max / p.div,
						_ => p.max,
					});
				}
				check!("G01", "weight-reported", made == 0 || all_ge(u, sum), "block {n}: {made} steps that took {sum:?}, {u:?} was reported");
				check!("G01", "too-heavy", made == 0 || all_ge(limit, base.saturating_add(sum)), "block {n}: {made} steps took {sum:?} over {base:?}, there was {limit:?}");
			}
			if made > 0 {
				st.count("blocks that migrated");
			}
		}
		let want: Vec<ME> = self.work(made).map(|items| ME::MigrationComplete { items_migrated: items }).into_iter().collect();
		if !want.is_empty() {
			st.count("completed");
		}
		let ev: Vec<String> = ev.iter().filter(|e| matches!(e, ME::MigrationComplete { .. } | ME::MigrationStarted)).map(|e| format!("{e:?}")).collect();
		check_eq!("G01", "reported", ev, want.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>(), "block {n}: events");
		self.verify()?;
		if own {
			self.c.end(Some(Weight::zero()))?;
		}
		st.time(4000);
		self.c.begin(4000);
		self.mark = self.c.event_count();
		let h = self.c.hash();
		st.state(h);
		Ok(())
	}
	fn upgrade(&mut self, st: &mut Stats) -> Res {
		let _ = self.events();
		self.c
			.run(|| {
				<Migration as Hooks<u32>>::on_runtime_upgrade();
				Ok(())
			})
			.unwrap();
		let m = &mut self.m;
		let done = m.plan.map_or(true, |p| p.target == m.version);
		let mut want = vec![];
		if done {
			m.st = St::None;
			m.todo.clear();
		} else if !matches!(m.st, St::Going(_)) {
			m.st = St::Going(0);
			m.todo = m.e.keys().cloned().collect();
			want.push("MigrationStarted".to_string());
			st.count("started");
		}
		let ev: Vec<String> = self.events().iter().map(|e| format!("{e:?}")).collect();
		check_eq!("G01", "started", ev, want, "events of a runtime upgrade");
		Ok(())
	}
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "migration";
	const PROPS: &'static [&'static str] = &["G01", "R01"];
	const REAL: &'static [&'static str] = &["pallet-migration", "pallet-xls20 (calls that wait for a migration)", "the runtime's configuration of both"];
	const STUB: &'static [&'static str] = &["substrate (storage, executive, weights)", "the migration itself (the shipped runtime has none)"];
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed);
		let mut c = Chain::new(Cfg { accounts: 6, root_each: 1_000_000, xrp_each: 1_000_000_000 });
		c.reexec = prop == "R01" || r.chance(1, 3);
		let mut m = M { e: Default::default(), todo: vec![], st: St::None, on: false, delay: None, limit: 100, version: r.below(3) as u16, plan: None, completes: 0, steps: 0 };
		let n = *r.pick(&[0, 1, 2, 5, 20, 60, 150]);
		for _ in 0..n {
			let l = 1 + r.below(3) as usize;
			let k: Vec<u8> = (0..l).map(|_| { let x = r.below(256) as u8; *r.pick(&[0, 1, 7, 128, 254, 255, x]) }).collect();
			m.e.insert(k, (0, r.next()));
		}
		let (e, v) = (m.e.clone(), m.version);
		let col = c.exec(move || {
			use rt::{Nft, Xls20};
			for (k, x) in &e {
				migration_entry(k, x);
			}
			set_migration_version(v);
			pallet_xls20::Relayer::<Runtime>::put(acc(RELAYER));
			Nft::create_collection(RawOrigin::Signed(acc(1)).into(), BoundedVec::truncate_from(b"own".to_vec()), 0, None, None, MetadataScheme::try_from(b"https://e/".as_slice()).unwrap(), None, CrossChainCompatibility { xrpl: true }).unwrap();
			let col = pallet_nft::CollectionInfo::<Runtime>::iter().next().unwrap().0;
			Nft::mint(RawOrigin::Signed(acc(1)).into(), col, 6, None).unwrap();
			let v: Vec<(u32, [u8; 32])> = (0..2).map(|s| (s, [s as u8; 32])).collect();
			Xls20::fulfill_xls20_mint(RawOrigin::Signed(acc(RELAYER)).into(), col, BoundedVec::truncate_from(v)).unwrap();
			col
		});
		c.begin(4000);
		let mark = c.event_count();
		World { c, m, col, mark }
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(15, 90) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let going = matches!(self.m.st, St::Going(_));
		let by = |r: &mut Rng| if r.chance(5, 6) { 0 } else { r.below(4) as u8 };
		match r.weighted(&[30, if going { 1 } else { 8 }, 2, if self.m.on { 2 } else { 8 }, 3, 4, if going { 0 } else { 6 }, 8, 2, 2]) {
			0 => Op::Block {
				idle: if r.chance(1, 4) { None } else { Some((*r.pick(&[0, 8, 15, 16, 16, 16, 17]), *r.pick(&[0, 0, 1, 2, 3, 7, 30]))) },
				own: r.chance(3, 4),
			},
			1 => Op::Upgrade { ahead: 1 + r.below(2) as u16, noop: r.chance(1, 8), max: (*r.pick(&[0, 1000, 1_000_000, 1 << 34]), *r.pick(&[0, 1000, 100_000])), div: r.range(1, 4), early: r.chance(1, 3) },
			2 => Op::Again,
			3 => Op::Enable { by: by(r), on: r.chance(3, 4) },
			4 => Op::Delay { by: by(r), to: if r.chance(1, 3) { None } else { Some(*r.pick(&[0, 1, 2, 2, 3, 5])) } },
			5 => Op::Limit { by: by(r), to: *r.pick(&[0, 1, 1, 2, 3, 10, 100, u32::MAX]) },
			6 => Op::Add { key: vec![r.below(256) as u8, r.below(4) as u8], v: r.next() },
			7 => Op::Xls { what: r.below(4) as u8 },
			8 => Op::Crash,
			_ => Op::Fork { idle: r.below(20) as u32 },
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		match op.clone() {
			Op::Block { idle, own } => self.block(st, idle, own)?,
			Op::Upgrade { ahead, noop, max, div, early } => {
				let going = matches!(self.m.st, St::Going(_));
				let p = (!noop).then(|| MigrationPlan { target: self.m.version + ahead, max: Weight::from_parts(max.0, max.1), div, early });
				if going && !noop {
					// another migration is not shipped before this one has ended
					return self.upgrade(st);
				}
				self.m.plan = p;
				self.c
					.run(move || {
						plan_migration(&p);
						Ok(())
					})
					.unwrap();
				self.upgrade(st)?;
			},
			Op::Again => self.upgrade(st)?,
			Op::Enable { by, on } => {
				let out = self.c.step(Step::Bypass(origin(by), MC::<Runtime>::enable_migration { enabled: on }.into()));
				check_eq!("G01", "authority", out.is_ok(), by == 0, "{by} pauses or resumes the migration");
				if by == 0 {
					self.m.on = on;
				}
			},
			Op::Delay { by, to } => {
				let out = self.c.step(Step::Bypass(origin(by), MC::<Runtime>::set_block_delay { block_delay: to }.into()));
				let fine = by == 0 && to.map_or(true, |d| d > 1);
				check_eq!("G01", "authority", out.is_ok(), fine, "{by} sets the delay {to:?}");
				if fine {
					self.m.delay = to;
				}
			},
			Op::Limit { by, to } => {
				let out = self.c.step(Step::Bypass(origin(by), MC::<Runtime>::set_block_limit { block_limit: to }.into()));
				let fine = by == 0 && to > 0;
				check_eq!("G01", "authority", out.is_ok(), fine, "{by} sets the limit {to}");
				if fine {
					self.m.limit = to;
				}
			},
			Op::Add { key, v } => {
				if matches!(self.m.st, St::Going(_)) {
					return Ok(());
				}
				self.m.e.insert(key.clone(), (0, v));
				self.c
					.run(move || {
						migration_entry(&key, &(0, v));
						Ok(())
					})
					.unwrap();
			},
			Op::Xls { what } => {
				let going = matches!(self.m.st, St::Going(_));
				let stop: sp_runtime::DispatchError = pallet_migration::Error::<Runtime>::MigrationInProgress.into();
				let col = self.col;
				let before = self.c.peek(|| pallet_xls20::Xls20TokenMap::<Runtime>::iter().map(|x| x.encode()).collect::<std::collections::BTreeSet<_>>());
				let out: Result<(), sp_runtime::DispatchError> = match what {
					0 => self.c.call(acc(1), pallet_xls20::Call::re_request_xls20_mint { collection_id: col, serial_numbers: BoundedVec::truncate_from(vec![3]) }),
					1 => {
						let s = self.c.peek(|| (2..6).find(|s| pallet_xls20::Xls20TokenMap::<Runtime>::get(col, s).is_none()).unwrap_or(5));
						self.c.call(acc(RELAYER), pallet_xls20::Call::fulfill_xls20_mint { collection_id: col, token_mappings: BoundedVec::truncate_from(vec![(s, [s as u8; 32])]) })
					},
					2 => {
						let k = self.c.n as u8;
						let mut id = [k; 32];
						id[0] = 0;
						id[1] = 8;
						self.c.run(move || rt::Xls20::deposit_xls20_token(&acc(2), id).map(|_| ()).map_err(|e| e.1))
					},
					_ => {
						let got = self.c.peek(|| rt::Xls20::get_xls20_token_id((col, 1)));
						check_eq!("G01", "not-blocked", got.is_none(), going, "the XLS-20 id of a token during a migration: {going}");
						Ok(())
					},
				};
				if what < 3 {
					check_eq!("G01", "not-blocked", out == Err(stop), going, "XLS-20 operation {what} gave {out:?}; a migration is in progress: {going}");
				}
				let after = self.c.peek(|| pallet_xls20::Xls20TokenMap::<Runtime>::iter().map(|x| x.encode()).collect::<std::collections::BTreeSet<_>>());
				check!("G01", "not-blocked", !going || before == after, "XLS-20 tokens were mapped during a migration");
			},
			Op::Crash => {
				self.c.crash_and_redo()?;
				st.fault("crash and redo of the open block");
			},
			Op::Fork { idle } => {
				self.verify()?;
				self.c.end(Some(Weight::zero()))?;
				let (base, _, step) = self.base();
				self.c.abandoned_fork(|c| {
					let n = c.n;
					let w = base.saturating_add(step.saturating_mul(idle as u64));
					let _ = c.run(move || {
						Migration::on_idle(n, w);
						Ok(())
					});
				});
				st.fault("abandoned fork");
				self.c.begin(4000);
				self.mark = self.c.event_count();
			},
		}
		self.verify()?;
		let h = self.c.hash();
		st.state(h);
		st.digest(h);
		Ok(())
	}
	/// once it is enabled and the blocks have room, it ends
	fn finish(&mut self, st: &mut Stats) -> Res {
		if matches!(self.m.st, St::Going(_)) {
			self.c.root(MC::<Runtime>::enable_migration { enabled: true }).unwrap();
			self.m.on = true;
			let (base, cap, step) = self.base();
			if all_ge(cap, base.saturating_add(step)) {
				let need = (self.m.todo.len() as u32 + 1) * self.m.delay.unwrap_or(1) + self.m.delay.unwrap_or(0);
				let mut n = 0;
				while matches!(self.m.st, St::Going(_)) {
					check!("G01", "never-ends", n <= need, "the migration has not ended after {n} blocks with room for a step each");
					self.block(st, Some((16, 0)), true)?;
					n += 1;
				}
			}
		}
		self.verify()?;
		self.c.end(None).map(|_| ())
	}
	fn quick_runs() -> u64 {
		8000
	}
	fn thorough_runs() -> u64 {
		150_000
	}
	fn panic_prop(&self) -> String {
		"G01".into()
	}
	fn rule() -> &'static str {
		"an evaluation counts when a migration was in progress, enabled and due in a block, and all entries were compared afterwards"
	}
}
fn main() {
	simkit::main::<World>()
}
