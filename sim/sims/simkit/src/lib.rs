//! Seeded deterministic simulation driver: generation, fault accounting, replay, minimisation, evidence.
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod chain;
pub mod env;

/// splitmix64/xorshift generator; the only source of choice in a run.
#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
		r.next();
		r
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
		z ^ (z >> 31)
	}
	/// uniform in 0..n (0 when n is 0)
	pub fn below(&mut self, n: u64) -> u64 {
		if n == 0 {
			0
		} else {
			self.next() % n
		}
	}
	pub fn idx(&mut self, n: usize) -> usize {
		self.below(n as u64) as usize
	}
	pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
		lo + self.below(hi - lo + 1)
	}
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.below(den) < num
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		let i = self.idx(v.len());
		&v[i]
	}
	pub fn weighted(&mut self, w: &[u32]) -> usize {
		let t: u64 = w.iter().map(|x| *x as u64).sum();
		let mut k = self.below(t.max(1));
		for (i, x) in w.iter().enumerate() {
			if k < *x as u64 {
				return i;
			}
			k -= *x as u64;
		}
		0
	}
	/// amount with interesting magnitudes: edges of the given values, powers of ten, small, huge
	pub fn amount(&mut self, near: &[u128]) -> u128 {
		match self.below(10) {
			0 => self.below(4) as u128,
			1 => 10u128.pow(self.below(25) as u32),
			2 if !near.is_empty() => near[self.idx(near.len())].saturating_add(1),
			3 if !near.is_empty() => near[self.idx(near.len())].saturating_sub(1),
			4 if !near.is_empty() => near[self.idx(near.len())],
			5 if !near.is_empty() => near[self.idx(near.len())] / 2,
			6 => u128::MAX >> self.below(128),
			_ => self.range(1, 1_000_000) as u128,
		}
	}
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
	pub property: String,
	/// identifies what failed, independent of seeds and amounts
	pub key: String,
	pub msg: String,
}
pub type Res = Result<(), Violation>;
pub fn viol(property: &str, key: &str, msg: impl Into<String>) -> Violation {
	Violation { property: property.into(), key: key.into(), msg: msg.into() }
}
#[macro_export]
macro_rules! check {
	($prop:expr, $key:expr, $cond:expr, $($m:tt)*) => {
		if !$cond { return Err($crate::viol($prop, $key, format!($($m)*))); }
	};
}
#[macro_export]
macro_rules! check_eq {
	($prop:expr, $key:expr, $a:expr, $b:expr, $($m:tt)*) => {
		{ let (a, b) = (&$a, &$b); if a != b { return Err($crate::viol($prop, $key, format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b))); } }
	};
}

/// What one run did.
#[derive(Default, Clone)]
pub struct Stats {
	pub counts: BTreeMap<String, u64>,
	pub states: HashSet<u64>,
	pub sim_ms: u64,
	pub hits: BTreeMap<String, u64>,
	pub trace_hash: u64,
	/// digests recorded for comparison between two executions of the same run
	pub digests: Vec<u64>,
	pub log: Option<Vec<String>>,
	/// violations after which the run could go on
	pub soft: Vec<Violation>,
}
impl Stats {
	/// a violation that does not end the run (the model has adapted to it)
	pub fn soft(&mut self, v: Violation) {
		if !self.soft.contains(&v) {
			self.soft.push(v);
		}
	}

	pub fn fault(&mut self, k: &str) {
		*self.counts.entry(format!("fault:{k}")).or_default() += 1;
	}
	pub fn op(&mut self, k: &str, ok: bool) {
		*self.counts.entry(format!("op:{k}:{}", if ok { "ok" } else { "err" })).or_default() += 1;
		self.mix(fnv(k.as_bytes()) ^ ok as u64);
	}
	/// an event the property is about happened
	pub fn hit(&mut self, prop: &str) {
		*self.hits.entry(prop.into()).or_default() += 1;
	}
	pub fn count(&mut self, k: &str) {
		*self.counts.entry(k.into()).or_default() += 1;
	}
	pub fn mix(&mut self, h: u64) {
		self.trace_hash = (self.trace_hash.rotate_left(5) ^ h).wrapping_mul(0x100000001b3);
	}
	pub fn state(&mut self, h: u64) {
		self.states.insert(h);
		self.mix(h);
	}
	pub fn digest(&mut self, h: u64) {
		self.digests.push(h);
	}
	pub fn time(&mut self, ms: u64) {
		self.sim_ms += ms;
	}
	pub fn note(&mut self, s: impl FnOnce() -> String) {
		if let Some(l) = &mut self.log {
			l.push(s());
		}
	}
}
pub fn fnv(b: &[u8]) -> u64 {
	let mut h: u64 = 0xcbf29ce484222325;
	for x in b {
		h ^= *x as u64;
		h = h.wrapping_mul(0x100000001b3);
	}
	h
}

pub trait Sim: Sized {
	type Op: Clone + Debug + Serialize + DeserializeOwned + Send + Sync;
	const NAME: &'static str;
	/// properties this simulation decides
	const PROPS: &'static [&'static str];
	/// components that ran real code / a stand-in
	const REAL: &'static [&'static str];
	const STUB: &'static [&'static str];
	/// A run's world; everything derived from `seed` here is the run's configuration.
	fn new(seed: u64, prop: &str) -> Self;
	fn steps(&self, r: &mut Rng) -> usize;
	fn gen(&mut self, r: &mut Rng) -> Self::Op;
	fn apply(&mut self, op: &Self::Op, st: &mut Stats) -> Res;
	/// Faults stop here: liveness and end-of-history checks.
	fn finish(&mut self, st: &mut Stats) -> Res;
	/// property a panic inside real code is reported under
	fn panic_prop(&self) -> String {
		Self::PROPS[0].into()
	}
	/// runs in the quick tier
	fn quick_runs() -> u64 {
		1500
	}
	fn thorough_runs() -> u64 {
		60_000
	}
	fn rule() -> &'static str;
}

#[derive(Serialize, Deserialize)]
pub struct Replay<O> {
	pub sim: String,
	pub property: String,
	pub key: String,
	pub msg: String,
	pub seed: u64,
	pub original_steps: usize,
	pub ops: Vec<O>,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Known {
	pub property: String,
	pub sim: String,
	pub key: String,
	/// replay file, relative to /verif
	pub replay: String,
	pub text: String,
}
#[derive(Serialize, Deserialize, Default)]
pub struct KnownFile {
	#[serde(default)]
	pub known: Vec<Known>,
	#[serde(default)]
	pub fixed: Vec<String>,
}

/// keys of listed findings: a soft violation with such a key does not decide a run
static SUPPRESSED: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
/// the run's result: a hard violation, or else the first soft one, unlisted ones first
fn settle(res: Res, st: &Stats, prop: &str, want: Option<&str>) -> Res {
	if let (Some(k), Some(v)) = (want, st.soft.iter().find(|v| Some(v.key.as_str()) == want)) {
		let _ = k;
		return Err(v.clone());
	}
	let sup = SUPPRESSED.lock().unwrap();
	let fresh: Vec<&Violation> = st.soft.iter().filter(|v| !sup.contains(&v.key)).collect();
	if let Some(v) = fresh.iter().find(|v| v.about(prop)) {
		return Err((*v).clone());
	}
	res?;
	if let Some(v) = fresh.first() {
		return Err((*v).clone());
	}
	match st.soft.first() {
		Some(v) => Err(v.clone()),
		None => Ok(()),
	}
}
impl Violation {
	/// `property` may name several properties, separated by `|`
	pub fn about(&self, prop: &str) -> bool {
		self.property.split('|').any(|p| p == prop)
	}
}
thread_local! {
	static POISONED: Cell<bool> = Cell::new(false);
	static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
	static QUIET: Cell<bool> = Cell::new(false);
}
fn install_hook() {
	let old = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |i| {
		if QUIET.with(|q| q.get()) {
			let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
			let loc = i.location().map(|l| l.file().to_string()).unwrap_or_default();
			let line = i.location().map(|l| l.line()).unwrap_or_default();
			PANIC.with(|p| *p.borrow_mut() = Some((format!("{m} at {loc}:{line}"), format!("{loc}:{}", m.split_whitespace().take(6).collect::<Vec<_>>().join("-")))));
		} else {
			old(i)
		}
	}));
}
fn guarded<S: Sim>(s: &mut S, f: impl FnOnce(&mut S) -> Res) -> Res {
	QUIET.with(|q| q.set(true));
	let r = catch_unwind(AssertUnwindSafe(|| f(s)));
	QUIET.with(|q| q.set(false));
	match r {
		Ok(r) => r,
		Err(_) => {
			POISONED.with(|p| p.set(true));
			let (m, k) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
			// a panic inside the harness itself is an error of the check, not a violation
			if k.contains("sims/") {
				eprintln!("HARNESS PANIC: {m}");
				std::process::exit(3);
			}
			Err(viol(&s.panic_prop(), &format!("panic:{k}"), format!("panic: {m}")))
		},
	}
}

pub struct Outcome<O> {
	pub ops: Vec<O>,
	pub stats: Stats,
	pub res: Res,
}
fn on_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R {
	std::thread::scope(|s| {
		std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, f).expect("thread").join().unwrap_or_else(|_| {
			eprintln!("HARNESS PANIC outside a step");
			std::process::exit(3)
		})
	})
}
fn run_seed<S: Sim>(seed: u64, prop: &str, log: bool) -> Outcome<S::Op> {
	on_thread(|| {
		env::begin_run(seed);
		let mut rng = Rng::new(seed ^ 0x5eed_0001);
		let mut st = Stats { log: log.then(Vec::new), ..Default::default() };
		let mut s = S::new(seed, prop);
		let n = s.steps(&mut rng);
		let mut ops = vec![];
		let mut res = Ok(());
		for _ in 0..n {
			let op = s.gen(&mut rng);
			ops.push(op.clone());
			res = guarded(&mut s, |s| s.apply(&op, &mut st));
			if res.is_err() {
				break;
			}
		}
		if res.is_ok() {
			res = guarded(&mut s, |s| s.finish(&mut st));
		}
		// a world poisoned by a panic is leaked rather than dropped
		if POISONED.with(|p| p.get()) {
			std::mem::forget(s);
		} else {
			drop(s);
		}
		let res = settle(res, &st, prop, None);
		env::end_run();
		Outcome { ops, stats: st, res }
	})
}
fn run_ops<S: Sim>(seed: u64, prop: &str, ops: &[S::Op]) -> Outcome<S::Op> {
	run_ops_for::<S>(seed, prop, ops, None)
}
fn run_ops_for<S: Sim>(seed: u64, prop: &str, ops: &[S::Op], want: Option<&str>) -> Outcome<S::Op> {
	on_thread(|| {
		env::begin_run(seed);
		let mut st = Stats { log: Some(vec![]), ..Default::default() };
		let mut s = S::new(seed, prop);
		let mut res = Ok(());
		for op in ops {
			res = guarded(&mut s, |s| s.apply(op, &mut st));
			if res.is_err() {
				break;
			}
		}
		if res.is_ok() {
			res = guarded(&mut s, |s| s.finish(&mut st));
		}
		if POISONED.with(|p| p.get()) {
			std::mem::forget(s);
		} else {
			drop(s);
		}
		let res = settle(res, &st, prop, want);
		env::end_run();
		Outcome { ops: ops.to_vec(), stats: st, res }
	})
}
fn minimise<S: Sim>(seed: u64, prop: &str, ops: Vec<S::Op>, v: &Violation, limit: Duration) -> Vec<S::Op> {
	let t = Instant::now();
	let same = |o: &[S::Op]| matches!(run_ops_for::<S>(seed, prop, o, Some(&v.key)).res, Err(ref e) if e.key == v.key && e.property == v.property);
	let mut cur = ops;
	if !same(&cur) {
		return cur;
	}
	let mut chunk = (cur.len() / 2).max(1);
	loop {
		let mut i = 0;
		let mut changed = false;
		while i < cur.len() && t.elapsed() < limit {
			let mut c = cur.clone();
			let hi = (i + chunk).min(c.len());
			c.drain(i..hi);
			if same(&c) {
				cur = c;
				changed = true;
			} else {
				i += chunk;
			}
		}
		if t.elapsed() >= limit || (chunk == 1 && !changed) {
			return cur;
		}
		if chunk > 1 {
			chunk = (chunk / 2).max(1);
		}
	}
}

fn arg(name: &str) -> Option<String> {
	let a: Vec<String> = std::env::args().collect();
	a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
pub fn verif_dir() -> String {
	std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
fn load_known() -> KnownFile {
	match std::fs::read_to_string(format!("{}/known_findings.json", verif_dir())) {
		Ok(s) => serde_json::from_str(&s).expect("known_findings.json"),
		Err(_) => Default::default(),
	}
}

pub fn main<S: Sim>() {
	install_hook();
	let start = Instant::now();
	let prop = arg("--property").unwrap_or_else(|| S::PROPS[0].to_string());
	let tier = arg("--tier").unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or("quick".into()));
	let seed: u64 = arg("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
	let out = arg("--out").unwrap_or_else(|| format!("{}/evidence/{}.json", verif_dir(), prop));
	if let Some(f) = arg("--replay") {
		let r: Replay<S::Op> = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("replay file");
		let o = run_ops_for::<S>(r.seed, &r.property, &r.ops, Some(&r.key));
		for l in o.stats.log.iter().flatten() {
			println!("  {l}");
		}
		match o.res {
			Err(v) => {
				println!("{}", v.msg);
				println!("VIOLATION property={} replay={}", if v.about(&r.property) { &r.property } else { &v.property }, f);
				std::process::exit(if v.key == r.key && v.about(&r.property) { 1 } else { 2 });
			},
			Ok(()) => {
				println!("replay of {f}: property held");
				std::process::exit(0)
			},
		}
	}
	if let Some(s) = arg("--one") {
		let s: u64 = s.parse().unwrap();
		let o = run_seed::<S>(s, &prop, true);
		for l in o.stats.log.iter().flatten() {
			println!("  {l}");
		}
		println!("{:?} {:?}", o.res, o.stats.counts);
		return;
	}
	let thorough = tier == "thorough";
	let runs: u64 = arg("--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { S::thorough_runs() } else { S::quick_runs() } / if prop == "R01" { 10 } else { 1 });
	// R01 goes over every simulation
	let cap = Duration::from_secs(arg("--cap").and_then(|s| s.parse().ok()).unwrap_or(match (thorough, prop == "R01") {
		(true, false) => 600,
		(false, false) => 60,
		(true, true) => 45,
		(false, true) => 20,
	}));
	let show_all = std::env::args().any(|a| a == "--all");

	// known findings: each must still reproduce from its own replay file to be suppressed
	let kf = load_known();
	let mut suppressed: BTreeSet<String> = BTreeSet::new();
	for k in kf.known.iter().filter(|k| k.sim == S::NAME) {
		let f = format!("{}/{}", verif_dir(), k.replay);
		let r: Replay<S::Op> = serde_json::from_str(&std::fs::read_to_string(&f).expect("known finding's replay")).expect("known finding's replay");
		let o = run_ops_for::<S>(r.seed, &r.property, &r.ops, Some(&k.key));
		if matches!(&o.res, Err(v) if v.key == k.key && v.about(&k.property)) {
			suppressed.insert(k.key.clone());
			if k.property == prop {
				println!("KNOWN-FINDING: property={} {}", k.property, k.text);
			}
		}
	}

	*SUPPRESSED.lock().unwrap() = suppressed.clone();
	let next = AtomicU64::new(0);
	let stop = AtomicBool::new(false);
	struct Acc {
		stats: Stats,
		runs: u64,
		distinct: HashSet<u64>,
		nontrivial: HashSet<u64>,
		other: BTreeMap<String, u64>,
		known_hits: BTreeMap<String, u64>,
		found: Option<(u64, Violation)>,
		all: BTreeMap<String, (u64, u64, String)>,
		samples: Vec<serde_json::Value>,
		rechecked: u64,
	}
	let acc = Mutex::new(Acc { stats: Stats::default(), runs: 0, distinct: HashSet::new(), nontrivial: HashSet::new(), other: BTreeMap::new(), known_hits: BTreeMap::new(), found: None, all: BTreeMap::new(), samples: vec![], rechecked: 0 });
	let workers = arg("--jobs").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8));
	std::thread::scope(|sc| {
		for _ in 0..workers {
			sc.spawn(|| loop {
				let i = next.fetch_add(1, Ordering::SeqCst);
				if i >= runs || stop.load(Ordering::SeqCst) || start.elapsed() > cap {
					return;
				}
				let rs = seed.wrapping_mul(1_000_003).wrapping_add(i);
				let mut o = run_seed::<S>(rs, &prop, false);
				// re-execution of the same seed must be identical (always for R01, sampled otherwise)
				let mut re = 0;
				if prop == "R01" || i % 64 == 0 {
					re = 1;
					let o2 = run_ops::<S>(rs, &prop, &o.ops);
					if o.res.is_ok() == o2.res.is_ok() && (o2.stats.digests != o.stats.digests || o2.stats.trace_hash != o.stats.trace_hash) && o.res.is_ok() {
						let at = o.stats.digests.iter().zip(&o2.stats.digests).position(|(a, b)| a != b);
						o.res = Err(viol("R01", "re-execution-differs", format!("executing the same calls twice from the same state gave different state digests (first difference at digest {at:?})")));
					}
				}
				let mut a = acc.lock().unwrap();
				a.runs += 1;
				a.rechecked += re;
				for (k, v) in &o.stats.counts {
					*a.stats.counts.entry(k.clone()).or_default() += v;
				}
				for (k, v) in &o.stats.hits {
					*a.stats.hits.entry(k.clone()).or_default() += v;
				}
				a.stats.sim_ms += o.stats.sim_ms;
				a.stats.states.extend(o.stats.states.iter());
				a.distinct.insert(o.stats.trace_hash);
				if o.stats.hits.get(&prop).copied().unwrap_or(0) > 0 || prop == "R01" {
					a.nontrivial.insert(o.stats.trace_hash);
					if a.samples.len() < 2 {
						let ops: Vec<String> = o.ops.iter().take(12).map(|x| format!("{x:?}")).collect();
						a.samples.push(serde_json::json!({"seed": rs, "steps": o.ops.len(), "first_steps": ops}));
					}
				}
				if let Err(v) = o.res {
					let full = format!("{} {}", v.property, v.key);
					let e = a.all.entry(full).or_insert((0, rs, v.msg.clone()));
					e.0 += 1;
					if suppressed.contains(&v.key) {
						*a.known_hits.entry(v.key.clone()).or_default() += 1;
					} else if v.about(&prop) {
						if a.found.as_ref().map_or(true, |f| f.0 > rs) {
							a.found = Some((rs, v));
						}
						if !show_all {
							stop.store(true, Ordering::SeqCst);
						}
					} else {
						*a.other.entry(format!("{}:{}", v.property, v.key)).or_default() += 1;
					}
				}
			});
		}
	});
	let a = acc.into_inner().unwrap();
	let search_s = start.elapsed().as_secs_f64();
	if show_all {
		for (k, (n, s, m)) in &a.all {
			println!("{n:6} x {k} (seed {s}): {m}");
		}
	}
	let mut violations = 0;
	if let Some((rs, v)) = &a.found {
		violations = 1;
		let o = run_seed::<S>(*rs, &prop, false);
		let n = o.ops.len();
		let ops = if v.key == "re-execution-differs" { o.ops } else { minimise::<S>(*rs, &prop, o.ops, v, Duration::from_secs(40)) };
		let min = run_ops_for::<S>(*rs, &prop, &ops, Some(&v.key));
		let fv = match min.res {
			Err(x) => x,
			Ok(()) => v.clone(),
		};
		let dir = format!("{}/evidence", verif_dir());
		let _ = std::fs::create_dir_all(&dir);
		let path = arg("--save").unwrap_or_else(|| format!("{dir}/replay-{}-{}-{}.json", prop, S::NAME, rs));
		let r = Replay { sim: S::NAME.into(), property: prop.clone(), key: v.key.clone(), msg: fv.msg.clone(), seed: *rs, original_steps: n, ops };
		std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).expect("write replay");
		println!("seed {rs}: {n} steps, minimised to {}", r.ops.len());
		for l in min.stats.log.iter().flatten() {
			println!("  {l}");
		}
		println!("{} [{}]", fv.msg, fv.key);
		println!("VIOLATION property={prop} replay={path}");
	}
	let faults: BTreeMap<_, _> = a.stats.counts.iter().filter(|(k, _)| k.starts_with("fault:")).map(|(k, v)| (k[6..].to_string(), *v)).collect();
	let ops: BTreeMap<_, _> = a.stats.counts.iter().filter(|(k, _)| k.starts_with("op:")).map(|(k, v)| (k[3..].to_string(), *v)).collect();
	let misc: BTreeMap<_, _> = a.stats.counts.iter().filter(|(k, _)| !k.starts_with("op:") && !k.starts_with("fault:")).collect();
	let ev = serde_json::json!({
		"property": prop, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
		"coverage": {
			"evaluations": a.runs,
			"distinct_nontrivial": a.nontrivial.len(),
			"rule": S::rule(),
			"samples": a.samples,
			"simulation": S::NAME,
			"distinct_runs_by_trace_hash": a.distinct.len(),
			"distinct_abstract_states": a.stats.states.len(),
			"times_property_exercised": a.stats.hits.get(&prop).copied().unwrap_or(0),
			"simulated_hours": a.stats.sim_ms as f64 / 3.6e6,
			"runs_per_hour": a.runs as f64 / search_s.max(0.001) * 3600.0,
			"runs_re_executed_and_compared": a.rechecked,
			"faults_injected": faults,
			"operations": ops,
			"other_counts": misc,
			"runs_ended_by_a_known_finding": a.known_hits,
			"runs_ended_by_another_property": a.other,
			"components_real": S::REAL,
			"components_stand_in": S::STUB,
		},
		"wall_s": start.elapsed().as_secs_f64(),
		"violations": violations,
		"assumptions": ["the stand-in substrate (FRAME storage, dispatch, balances, assets, crypto host functions) behaves like the pinned polkadot-sdk release; the repository's own unit tests pass on it"],
	});
	if let Some(d) = std::path::Path::new(&out).parent() {
		let _ = std::fs::create_dir_all(d);
	}
	std::fs::write(&out, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
	println!("{} {prop}: {} runs ({} distinct, {} exercised the property), {:.1} simulated hours, {:.1}s", S::NAME, a.runs, a.distinct.len(), a.nontrivial.len(), a.stats.sim_ms as f64 / 3.6e6, start.elapsed().as_secs_f64());
	for (k, n) in &a.other {
		println!("  {n} runs ended early by {k}");
	}
	if a.runs < runs.min(50) && violations == 0 {
		println!("too few runs within the time limit");
		std::process::exit(4);
	}
	std::process::exit(if violations > 0 { 1 } else { 0 });
}
