//! The notary workers of the validators and the Ethereum nodes they ask (B06).
use codec::{Decode, Encode};
use frame_support::traits::OffchainWorker;
use frame_system::RawOrigin;
use pallet_ethy::*;
use rt::chain::*;
use rt::kit::{aword, word};
use rt::{stand_ins, EthBridge, Runtime, RuntimeCall};
use seed_pallet_common::EthCallOracle;
use seed_primitives::ethy::crypto::AuthorityId;
use seed_primitives::ethy::{ETHY_KEY_TYPE, ETH_HTTP_URI};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simkit::*;
use sp_core::offchain::{testing, HttpOutcome, HttpReqState, OffchainState, OffchainWorkerExt, TransactionPoolExt};
use sp_core::{Pair, H160, H256};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};
simkit::interpose!();

type Call = pallet_ethy::Call<Runtime>;
const RELAYER: u64 = 1;
const URI: &str = "http://eth.node:8545";
const MAXV: usize = 7;

/// What a validator's Ethereum node does with one request.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Fault {
	Ok,
	Timeout,
	Io,
	Refused,
	Status(u16),
	NotJson,
	/// a body cut off after some bytes, the rest lost
	Cut(u16),
	/// the same, but presented as complete
	Short(u16),
	/// JSON-RPC error object
	Error,
	Null,
	/// a field that should be hexadecimal is not
	BadHex(u8),
	/// the node is this many blocks behind
	Behind(u8),
	/// block without a number / with number 0 / with the highest number
	Number(u8),
	/// latest block with this time instead: 0 = 0, 1 = highest, 2 = before the request
	Time(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Block { ms: u32, faults: Vec<(u8, Vec<Fault>)>, lost: Vec<(u8, u8)>, twice: u8, late: u8 },
	Mine(u8),
	Tx { shape: u8, src: u8, dst: u8, len: u8, fee: u64, second: u8 },
	Reorg { tx: u8, drop: bool },
	Submit { tx: u8, log: u8, forge: u8 },
	Challenge { k: u8, by: u8 },
	Ask { target: u8, input: u8, back: u16, hint: i8, look: u8, kind: u8 },
	Pause(bool),
	Confirmations(u8),
	Contract(u8),
	Restart { v: u8 },
	Role { v: u8, on: bool },
	NoUri { v: u8, on: bool },
	Restaff,
}
#[derive(Clone, Debug)]
struct LogE {
	address: H160,
	topics: Vec<H256>,
	data: Vec<u8>,
	tx: Option<H256>,
}
#[derive(Clone, Debug)]
struct TxE {
	hash: H256,
	block: u64,
	status: Option<u8>,
	to: Option<H160>,
	logs: Vec<LogE>,
	gone: bool,
}
#[derive(Default)]
struct Eth {
	/// time of each block, oldest first; block numbers start at `base`
	base: u64,
	times: Vec<u64>,
	txs: Vec<TxE>,
}
impl Eth {
	fn latest(&self) -> u64 {
		self.base + self.times.len() as u64 - 1
	}
	fn time(&self, n: u64) -> Option<u64> {
		n.checked_sub(self.base).and_then(|i| self.times.get(i as usize).copied())
	}
}
/// the contracts of the simulated Ethereum: what a call returns is a function of what is asked, and when
fn returned(to: H160, input: &[u8], block: u64) -> Vec<u8> {
	let mut v = to.as_bytes().to_vec();
	v.extend(input);
	v.extend(block.to_le_bytes());
	let h = sp_io::hashing::blake2_256(&v);
	match to.as_bytes()[19] % 8 {
		0 => vec![],
		1 => [h, h].concat(),
		2 => h[..20].to_vec(),
		_ => h.to_vec(),
	}
}
struct NodeEth {
	script: VecDeque<Fault>,
	asked: Vec<(&'static str, Fault)>,
	bad: Option<String>,
}
struct Val {
	ks: sp_keystore::testing::MemoryKeystore,
	off: sp_core::offchain::Shared,
	eth: Arc<Mutex<NodeEth>>,
	key: Option<AuthorityId>,
	on: bool,
	uri: bool,
}
#[derive(Clone, Debug)]
struct Claim {
	id: u64,
	tx: H256,
	source: H160,
	dest: H160,
	data: Vec<u8>,
}
#[derive(Clone, Debug)]
struct Req {
	target: H160,
	input: Vec<u8>,
	ts: u64,
	hint: u64,
	look: u64,
	asked: u64,
}
struct World {
	c: Chain,
	eth: Arc<Mutex<Eth>>,
	vals: Vec<Val>,
	total: u32,
	claims: BTreeMap<u64, Claim>,
	calls: BTreeMap<u64, Req>,
	conf: u64,
	contract: H160,
	paused: bool,
	next_id: u64,
	txn: u64,
	air: Vec<(u32, RuntimeCall)>,
	who: u64,
	bonded: bool,
}
fn hx(b: &[u8]) -> String {
	let mut s = String::from("0x");
	for x in b {
		s.push_str(&format!("{x:02x}"));
	}
	s
}
fn selector() -> H256 {
	sp_io::hashing::keccak_256(b"SubmitEvent(address,address,bytes)").into()
}
fn addr(k: u8) -> H160 {
	H160::repeat_byte(0x40 + k)
}
fn abi_bytes(b: &[u8]) -> Vec<u8> {
	let mut v = word(b.len() as u128).to_vec();
	v.extend(b);
	v.resize((v.len() + 31) / 32 * 32, 0);
	v
}
/// a message as the bridge contract logs it
fn event(id: u64, src: H160, dst: H160, data: &[u8], fee: u64) -> Vec<u8> {
	let mut v = vec![];
	v.extend(word(id as u128));
	v.extend(aword(src));
	v.extend(aword(dst));
	v.extend(word(160));
	v.extend(word(fee as u128));
	v.extend(abi_bytes(data));
	v
}
fn logs_claim(l: &LogE, c: &Claim) -> bool {
	// everything but the fee
	let w = event(c.id, c.source, c.dest, &c.data, 0);
	l.data.len() == w.len() && l.data[..128] == w[..128] && l.data[160..] == w[160..]
}
/// the Ethereum node of one validator
fn serve(eth: &Mutex<Eth>, node: &Mutex<NodeEth>, q: &HttpReqState) -> HttpOutcome {
	let mut n = node.lock().unwrap();
	let f = n.script.pop_front().unwrap_or(Fault::Ok);
	if q.method != "POST" || q.uri != URI {
		n.bad = Some(format!("{} request to {}", q.method, q.uri));
	}
	let Ok(v) = serde_json::from_slice::<Value>(&q.body) else {
		n.bad = Some(format!("request {:?}", String::from_utf8_lossy(&q.body)));
		return HttpOutcome::IoError;
	};
	let m = v["method"].as_str().unwrap_or("").to_string();
	let tag = match m.as_str() {
		"eth_getTransactionReceipt" => "receipt",
		"eth_getBlockByNumber" if v["params"][0] == json!("latest") => "latest",
		"eth_getBlockByNumber" => "number",
		"eth_call" => "call",
		_ => "unknown",
	};
	n.asked.push((tag, f));
	let e = eth.lock().unwrap();
	let top = match f {
		Fault::Behind(k) => e.latest().saturating_sub(k as u64).max(e.base),
		_ => e.latest(),
	};
	let num = |x: &Value| -> Option<u64> {
		let s = x.as_str()?;
		if s == "latest" { Some(top) } else { u64::from_str_radix(s.strip_prefix("0x")?, 16).ok() }
	};
	let mut res = match m.as_str() {
		"eth_getTransactionReceipt" => {
			let h = v["params"][0].as_str().unwrap_or("").to_string();
			match e.txs.iter().find(|t| !t.gone && hx(t.hash.as_bytes()) == h && t.block <= top) {
				None => Value::Null,
				Some(t) => {
					let logs: Vec<Value> = t
						.logs
						.iter()
						.enumerate()
						.map(|(i, l)| {
							json!({"address": hx(l.address.as_bytes()), "topics": l.topics.iter().map(|x| hx(x.as_bytes())).collect::<Vec<_>>(), "data": hx(&l.data), "blockHash": hx(&[7; 32]), "blockNumber": format!("{:#x}", t.block), "transactionHash": l.tx.map(|x| hx(x.as_bytes())), "transactionIndex": "0x1", "logIndex": format!("{i:#x}"), "removed": false})
						})
						.collect();
					let mut r = json!({"blockHash": hx(&[7; 32]), "blockNumber": format!("{:#x}", t.block), "contractAddress": Value::Null, "cumulativeGasUsed": "0x1234", "effectiveGasPrice": "0x7", "from": hx(&[9; 20]), "gasUsed": "0x5208", "logs": logs, "logsBloom": hx(&[0; 256]), "to": t.to.map(|x| hx(x.as_bytes())), "transactionHash": hx(t.hash.as_bytes()), "transactionIndex": "0x1", "type": "0x2"});
					if let Some(s) = t.status {
						r["status"] = json!(format!("{s:#x}"));
					}
					r
				},
			}
		},
		"eth_getBlockByNumber" => match num(&v["params"][0]).filter(|n| *n <= top).and_then(|n| Some((n, e.time(n)?))) {
			None => Value::Null,
			Some((n, t)) => json!({"number": format!("{n:#x}"), "hash": hx(&[n as u8; 32]), "timestamp": format!("{t:#x}"), "miner": hx(&[1; 20]), "transactions": []}),
		},
		"eth_call" => {
			let to = v["params"][0]["to"].as_str().unwrap_or("");
			let data = v["params"][0]["data"].as_str().unwrap_or("");
			match (rt_unhex(to), rt_unhex(data), num(&v["params"][1])) {
				(Some(a), Some(d), Some(n)) if a.len() == 20 && n <= top => json!(hx(&returned(H160::from_slice(&a), &d, n))),
				_ => Value::Null,
			}
		},
		_ => {
			n.bad = Some(format!("method {m:?}"));
			Value::Null
		},
	};
	match f {
		Fault::Null => res = Value::Null,
		Fault::BadHex(k) => {
			let s = ["0xzz", "0x", "zz", "0x1é1"][k as usize % 4];
			if res.is_string() {
				res = json!(s);
			} else if m == "eth_getBlockByNumber" && !res.is_null() {
				res["timestamp"] = json!(["0xzz", "zz", "0x0g", "0x1é1"][k as usize % 4]);
			} else if !res.is_null() && !res["logs"].as_array().map_or(true, |l| l.is_empty()) {
				res["logs"][0]["data"] = json!(s);
			}
		},
		Fault::Number(k) if m == "eth_getBlockByNumber" && !res.is_null() => {
			res["number"] = match k % 3 {
				0 => Value::Null,
				1 => json!("0x0"),
				_ => json!("0xffffffffffffffff"),
			}
		},
		Fault::Time(k) if m == "eth_getBlockByNumber" && !res.is_null() => {
			res["timestamp"] = match k % 3 {
				0 => json!("0x0"),
				1 => json!(format!("0x{}", "f".repeat(64))),
				_ => json!("0x1"),
			}
		},
		_ => {},
	}
	let body = if f == Fault::Error { json!({"jsonrpc": "2.0", "id": v["id"], "error": {"code": -32000, "message": "execution reverted"}}) } else { json!({"jsonrpc": "2.0", "id": v["id"], "result": res}) };
	let b = serde_json::to_vec(&body).unwrap();
	match f {
		Fault::Timeout => HttpOutcome::Timeout,
		Fault::Io => HttpOutcome::IoError,
		Fault::Refused => HttpOutcome::Refused,
		Fault::Status(c) => HttpOutcome::Reply(c, b),
		Fault::NotJson => HttpOutcome::Reply(200, b"<html>\xff\xfe</html>".to_vec()),
		Fault::Cut(k) => HttpOutcome::Truncated(200, b.clone(), k as usize % b.len()),
		Fault::Short(k) => HttpOutcome::Reply(200, b[..k as usize % b.len()].to_vec()),
		_ => HttpOutcome::Reply(200, b),
	}
}
fn rt_unhex(s: &str) -> Option<Vec<u8>> {
	let s = s.strip_prefix("0x")?;
	(0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
/// no usable answer came back
fn failed(f: Fault) -> bool {
	matches!(f, Fault::Timeout | Fault::Io | Fault::Refused | Fault::NotJson | Fault::Cut(_) | Fault::Short(_)) || matches!(f, Fault::Status(c) if c != 200)
}
#[derive(Debug, PartialEq)]
enum Want {
	Yes,
	No(BTreeSet<&'static str>),
}
fn reason(r: &EventClaimResult) -> &'static str {
	match r {
		EventClaimResult::Valid => "valid",
		EventClaimResult::DataProviderErr => "provider",
		EventClaimResult::TxStatusFailed => "status",
		EventClaimResult::UnexpectedContractAddress => "contract",
		EventClaimResult::NoTxLogs => "logs",
		EventClaimResult::NotEnoughConfirmations => "confirmations",
		EventClaimResult::UnexpectedData => "data",
		EventClaimResult::NoTxReceipt => "receipt",
		EventClaimResult::UnexpectedSource => "source",
	}
}
impl World {
	/// what the answers of its Ethereum node tell a validator about a message
	fn judge(&self, c: &Claim, s: &[Fault; 2]) -> Want {
		let e = self.eth.lock().unwrap();
		let f = |i: usize| s[i];
		let mut no = BTreeSet::new();
		let view = |i: usize| match f(i) {
			Fault::Behind(k) => e.latest().saturating_sub(k as u64).max(e.base),
			_ => e.latest(),
		};
		if failed(f(0)) {
			return Want::No(["provider"].into());
		}
		let t = match e.txs.iter().find(|t| !t.gone && t.hash == c.tx && t.block <= view(0)) {
			Some(t) if !matches!(f(0), Fault::Null | Fault::Error) => t,
			_ => return Want::No(["receipt"].into()),
		};
		let mut logs = t.logs.clone();
		if let Fault::BadHex(k) = f(0) {
			if !logs.is_empty() {
				if k % 4 == 1 {
					logs[0].data = vec![];
				} else {
					return Want::No(["provider"].into());
				}
			}
		}
		if t.status.unwrap_or(0) == 0 {
			no.insert("status");
		}
		if t.to != Some(c.source) {
			no.insert("source");
		}
		let mine: Vec<_> = logs.iter().filter(|l| l.tx == Some(c.tx) && l.topics.contains(&selector())).collect();
		if mine.is_empty() {
			no.insert("logs");
		} else if !mine.iter().any(|l| logs_claim(l, c)) {
			no.insert("data");
		}
		if !mine.is_empty() && !mine.iter().any(|l| l.address == self.contract) {
			no.insert("contract");
		}
		if no.is_empty() && !mine.iter().any(|l| l.address == self.contract && logs_claim(l, c)) {
			no.extend(["contract", "data"]);
		}
		let g = f(1);
		if failed(g) || matches!(g, Fault::Null | Fault::Error | Fault::BadHex(_)) {
			no.insert("provider");
		} else {
			let latest = match g {
				Fault::Number(k) => [0, 0, u64::MAX][k as usize % 3],
				_ => view(1),
			};
			if latest.saturating_sub(t.block) < self.conf {
				no.insert("confirmations");
			}
		}
		if no.is_empty() { Want::Yes } else { Want::No(no) }
	}
	/// the same for a call; None: any result that is not `Ok`
	fn judge_call(&self, q: &Req, s: &[Fault; 3], now: u64) -> (Option<CheckedEthCallResult>, Vec<CheckedEthCallResult>) {
		use CheckedEthCallResult::*;
		let e = self.eth.lock().unwrap();
		let f = |i: usize| s[i];
		let view = |i: usize| match f(i) {
			Fault::Behind(k) => e.latest().saturating_sub(k as u64).max(e.base),
			_ => e.latest(),
		};
		let dead = |g: Fault| failed(g) || matches!(g, Fault::Null | Fault::Error | Fault::BadHex(_));
		if dead(f(0)) {
			return (None, vec![DataProviderErr]);
		}
		let mut no = vec![];
		let mut latest = view(0);
		let mut time = e.time(latest).unwrap();
		match f(0) {
			Fault::Number(k) => {
				no.push(InvalidEthBlock);
				if k % 3 == 2 {
					latest = u64::MAX;
				}
			},
			Fault::Time(k) => time = [0, u64::MAX, 1][k as usize % 3],
			_ => {},
		}
		if time < q.ts || time == u64::MAX {
			no.push(InvalidTimestamp);
		}
		if !no.is_empty() {
			return (None, no);
		}
		let extra = now.saturating_sub(q.asked) / 12;
		let oldest = latest.saturating_sub(q.look).saturating_sub(extra);
		let k = 2;
		let (mut at, mut t) = (latest, time);
		if q.hint >= oldest && q.hint < latest {
			if dead(f(1)) {
				return (None, vec![DataProviderErr]);
			}
			let Some(x) = e.time(q.hint).filter(|_| q.hint <= view(1)) else { return (None, vec![DataProviderErr]) };
			at = q.hint;
			t = match f(1) {
				Fault::Time(k) => [0, u64::MAX, 1][k as usize % 3],
				_ => x,
			};
		}
		if failed(f(k)) || matches!(f(k), Fault::BadHex(j) if j % 4 != 1) {
			return (None, vec![DataProviderErr]);
		}
		let d = returned(q.target, &q.input, at);
		if matches!(f(k), Fault::Null | Fault::Error | Fault::BadHex(_)) || at > view(k) || d.is_empty() {
			return (None, vec![ReturnDataEmpty, DataProviderErr]);
		}
		match <[u8; 32]>::try_from(d.clone()) {
			Result::Ok(x) => (Some(Ok_(x, at, t)), vec![]),
			Err(_) if d.len() > 32 => (None, vec![ReturnDataExceedsLimit]),
			Err(_) => (None, vec![ReturnDataExceedsLimit, ReturnDataEmpty, DataProviderErr]),
		}
	}
	fn now(&mut self) -> u64 {
		use frame_support::traits::UnixTime;
		self.c.exec(|| <<Runtime as pallet_ethy::Config>::UnixTime as UnixTime>::now().as_secs())
	}
	fn status(&mut self, i: u64) -> Option<EventClaimStatus> {
		self.c.exec(|| pallet_ethy::PendingClaimStatus::<Runtime>::get(i))
	}
	fn open(&mut self) -> Vec<u64> {
		let v: Vec<u64> = self.claims.keys().copied().collect();
		v.into_iter().filter(|i| self.status(*i) == Some(EventClaimStatus::Challenged)).collect()
	}
	fn asks(&mut self) -> Vec<u64> {
		let v: Vec<u64> = self.calls.keys().copied().collect();
		v.into_iter().filter(|i| self.c.exec(|| pallet_ethy::EthCallRequestInfo::<Runtime>::contains_key(*i))).collect()
	}
	fn notaries(&mut self) -> Vec<AuthorityId> {
		self.c.exec(|| pallet_ethy::NotaryKeys::<Runtime>::get().into_inner())
	}
	fn voted(&mut self, p: u8, i: u64, k: &AuthorityId) -> bool {
		self.c.exec(|| if p == 0 { pallet_ethy::EventNotarizations::<Runtime>::contains_key(i, k) } else { pallet_ethy::EthCallNotarizations::<Runtime>::contains_key(i, k) })
	}
	/// the worker of one validator after block `n`; returns what it sent
	fn work(&mut self, v: usize, n: u32, script: &[Fault], st: &mut Stats) -> Result<Vec<RuntimeCall>, Violation> {
		let (pool_ext, pool) = testing::TestTransactionPoolExt::new();
		let val = &self.vals[v];
		val.off.write().is_validator = val.on;
		{
			let mut e = val.eth.lock().unwrap();
			e.script = script.iter().copied().collect();
			e.asked.clear();
			e.bad = None;
		}
		self.c.ext.register_extension(OffchainWorkerExt::new(testing::TestOffchainExt(val.off.clone())));
		self.c.ext.register_extension(sp_keystore::KeystoreExt::new(val.ks.clone()));
		self.c.ext.register_extension(TransactionPoolExt::new(pool_ext));
		self.c.peek(|| EthBridge::offchain_worker(n));
		let sent = std::mem::take(&mut pool.write().transactions);
		let (asked, bad) = {
			let e = self.vals[v].eth.lock().unwrap();
			(e.asked.clone(), e.bad.clone())
		};
		check!("B06", "bad-request", bad.is_none(), "validator {v} sent its Ethereum node an unusable request: {bad:?}");
		for (_, f) in &asked {
			match f {
				Fault::Ok => {},
				Fault::Timeout => st.fault("Ethereum node timed out"),
				Fault::Io | Fault::Refused => st.fault("Ethereum node unreachable"),
				Fault::Status(_) => st.fault("HTTP error status"),
				Fault::Cut(_) | Fault::Short(_) => st.fault("torn answer"),
				Fault::NotJson | Fault::BadHex(_) => st.fault("malformed answer"),
				Fault::Error | Fault::Null => st.fault("JSON-RPC error or empty answer"),
				Fault::Behind(_) => st.fault("Ethereum node lags"),
				Fault::Number(_) | Fault::Time(_) => st.fault("impossible block number or time"),
			}
		}
		let notaries = self.notaries();
		let idx = self.vals[v].key.as_ref().and_then(|k| notaries.iter().position(|x| x == k));
		let enough = notaries.len() as u32 >= self.total || notaries.len() as u32 * 100 / self.total >= 66;
		let active = self.vals[v].on && idx.is_some() && enough;
		let key = self.vals[v].key.clone();
		let (mut todo, mut asks) = (vec![], vec![]);
		if active {
			let k = key.clone().unwrap();
			if !self.paused {
				todo = self.open();
				todo.retain(|i| !self.voted(0, *i, &k));
			}
			asks = self.asks();
			asks.retain(|i| !self.voted(1, *i, &k));
		}
		let mut out = vec![];
		let (mut ev, mut cv) = (0, 0);
		let at = |t: &str, k: usize| asked.iter().filter(|a| a.0 == t).nth(k).map(|a| a.1).unwrap_or(Fault::Ok);
		let latests = asked.iter().filter(|a| a.0 == "latest").count();
		let uri = self.vals[v].uri;
		let now = self.now();
		for t in sent {
			let Ok(x) = rt::UncheckedExtrinsic::decode(&mut &t[..]) else { return Err(viol("B06", "unusable", "a notary worker sent something undecodable")) };
			let RuntimeCall::EthBridge(Call::submit_notarization { payload, signature }) = x.0.function.clone() else { return Err(viol("B06", "unusable", "a notary worker sent another call")) };
			check!("B06", "sent-by-nobody", active, "validator {v} (validating: {}, index {idx:?} of {} notaries, {} validators) sent {payload:?}", self.vals[v].on, notaries.len(), self.total);
			check_eq!("B06", "wrong-index", Some(payload.authority_index() as usize), idx, "index named by validator {v}");
			use sp_runtime::RuntimeAppPublic;
			check!("B06", "wrong-signature", key.as_ref().unwrap().verify(&payload.encode(), &signature), "the vote of validator {v} is not signed with its key");
			match &payload {
				NotarizationPayload::Event { event_claim_id: i, result, .. } => {
					check!("B06", "sent-while-paused", !self.paused, "validator {v} voted on message {i} while the bridge is paused");
					check!("B06", "vote-not-asked", todo.contains(i), "validator {v} voted on message {i}; to be voted on: {todo:?}");
					ev += 1;
					let c = self.claims[i].clone();
					let f = [at("receipt", 0), if latests >= 2 || asks.is_empty() { at("latest", 0) } else { Fault::Ok }];
					let want = if uri { self.judge(&c, &f) } else { Want::No(["provider"].into()) };
					match &want {
						Want::Yes => check!("B06", "genuine-denied", *result == EventClaimResult::Valid, "validator {v} voted {result:?} on {c:?}, which its Ethereum node confirms ({asked:?})"),
						Want::No(w) => {
							check!("B06", "forged-confirmed", *result != EventClaimResult::Valid, "validator {v} confirmed {c:?}, though {w:?} ({asked:?})");
							check!("B06", "reason-differs", w.contains(reason(result)), "validator {v} voted {result:?} on {c:?}, expected one of {w:?} ({asked:?})");
						},
					}
					st.count(reason(result));
					st.hit("B06");
				},
				NotarizationPayload::Call { call_id: i, result, .. } => {
					check!("B06", "vote-not-asked", asks.contains(i), "validator {v} voted on call {i}; to be voted on: {asks:?}");
					cv += 1;
					let q = self.calls[i].clone();
					let f = [at("latest", latests.saturating_sub(1)), at("number", 0), at("call", 0)];
					let (yes, no) = if uri { self.judge_call(&q, &f, now) } else { (None, vec![CheckedEthCallResult::DataProviderErr]) };
					match yes {
						Some(w) => check_eq!("B06", "call-result-differs", *result, w, "result of validator {v} for {q:?} ({asked:?})"),
						None => check!("B06", "call-result-differs", no.contains(result), "validator {v} voted {result:?} for {q:?}, expected one of {no:?} ({asked:?})"),
					}
					st.count(if yes.is_some() { "call result" } else { "call failure" });
					st.hit("B06");
				},
			}
			out.push(x.0.function);
		}
		check!("B06", "too-much-at-once", ev <= 1 && cv <= 1, "validator {v} checked {ev} messages and {cv} calls in one block");
		check!("B06", "message-not-voted", ev == 1 || todo.is_empty(), "validator {v} sent no vote although {todo:?} wait for it");
		check!("B06", "call-not-voted", cv == 1 || asks.is_empty(), "validator {v} sent no call result although {asks:?} wait for it");
		Ok(out)
	}
	/// a vote reaches a block
	fn land(&mut self, call: RuntimeCall, st: &mut Stats) -> Res {
		let RuntimeCall::EthBridge(Call::submit_notarization { payload, signature }) = call.clone() else { return Ok(()) };
		use sp_runtime::RuntimeAppPublic;
		let notaries = self.notaries();
		let key = notaries.get(payload.authority_index() as usize).cloned();
		let genuine = key.as_ref().map_or(false, |k| k.verify(&payload.encode(), &signature));
		let (open, dup) = match &payload {
			NotarizationPayload::Event { event_claim_id: i, .. } => (self.status(*i) == Some(EventClaimStatus::Challenged), key.as_ref().map_or(false, |k| self.voted(0, *i, k))),
			NotarizationPayload::Call { call_id: i, .. } => (self.asks().contains(i), key.as_ref().map_or(false, |k| self.voted(1, *i, k))),
		};
		let r = self.c.unsigned(call);
		st.op("vote", r.is_ok());
		// without a relayer nobody can be paid, and the deciding vote is refused
		let payable = self.c.exec(|| pallet_ethy::Relayer::<Runtime>::get().is_some());
		check!("B06", "vote-differs", r.is_ok() == (genuine && open && !dup) || (r.is_err() && !payable), "{payload:?}: {r:?}; genuine {genuine} open {open} repeated {dup}");
		Ok(())
	}
	fn block(&mut self, ms: u64, faults: &[(u8, Vec<Fault>)], lost: &[(u8, u8)], twice: u8, late: u8, st: &mut Stats) -> Res {
		let n = self.c.n;
		self.c.end(None)?;
		let mut sent = vec![];
		for v in 0..self.vals.len() {
			let script = faults.iter().find(|f| f.0 as usize == v).map(|f| f.1.clone()).unwrap_or_default();
			for (j, x) in self.work(v, n, &script, st)?.into_iter().enumerate() {
				if lost.contains(&(v as u8, j as u8)) {
					st.fault("vote lost");
					continue;
				}
				if twice as usize == v + 1 {
					st.fault("vote duplicated");
					sent.push((n + 1, x.clone()));
				}
				let mut at = n + 1;
				if late as usize == v + 1 {
					st.fault("vote delayed");
					at += 2;
				}
				sent.push((at, x));
			}
		}
		self.air.extend(sent);
		self.c.begin(ms);
		st.time(ms);
		let n = self.c.n;
		let (now, later): (Vec<_>, Vec<_>) = std::mem::take(&mut self.air).into_iter().partition(|a| a.0 <= n);
		self.air = later;
		for (_, x) in now {
			self.land(x, st)?;
		}
		self.staff(st)
	}
	/// somebody takes over as relayer when there is none
	fn staff(&mut self, st: &mut Stats) -> Res {
		if self.c.exec(|| pallet_ethy::Relayer::<Runtime>::get().is_none()) {
			let _ = self.c.call(acc(RELAYER), Call::deposit_relayer_bond {});
			let r = self.c.root(Call::set_relayer { relayer: acc(RELAYER) });
			if r.is_ok() && self.bonded {
				st.count("relayer replaced");
			}
			self.bonded = true;
		}
		Ok(())
	}
	fn tx(&mut self, shape: u8, src: u8, dst: u8, len: u8, fee: u64, second: u8) {
		self.txn += 1;
		let hash: H256 = sp_io::hashing::keccak_256(&self.txn.to_le_bytes()).into();
		let mut e = self.eth.lock().unwrap();
		let block = e.latest();
		let mut logs = vec![];
		let mut ids = vec![self.next_id];
		if second > 0 {
			ids.push(self.next_id + 1);
		}
		self.next_id += ids.len() as u64;
		if second == 2 {
			// look-alike contract first
			logs.push(LogE { address: addr(77), topics: vec![selector()], data: event(ids[0], addr(src), addr(dst), &vec![len; len as usize], fee), tx: Some(hash) });
		}
		for i in ids {
			// other logs of the transaction
			logs.push(LogE { address: addr(70), topics: vec![H256::repeat_byte(3), H256::zero()], data: vec![1; 32], tx: Some(hash) });
			logs.push(LogE { address: self.contract, topics: vec![selector()], data: event(i, addr(src), addr(dst), &vec![len; len as usize], fee), tx: Some(hash) });
		}
		let mut t = TxE { hash, block, status: Some(1), to: Some(addr(src)), logs, gone: false };
		match shape {
			1 => t.status = Some(0),
			2 => t.status = None,
			3 => t.to = Some(addr(src.wrapping_add(1))),
			4 => t.to = None,
			5 => t.logs.retain(|l| l.address != self.contract),
			6 => t.logs.iter_mut().for_each(|l| l.address = addr(78)),
			7 => t.logs.iter_mut().for_each(|l| l.tx = None),
			8 => t.logs.iter_mut().for_each(|l| l.topics = vec![H256::repeat_byte(5)]),
			9 => t.logs.iter_mut().for_each(|l| l.topics.insert(0, H256::repeat_byte(5))),
			10 => t.logs.clear(),
			_ => {},
		}
		e.txs.push(t);
	}
	/// the claim a relayer makes of a log, forged in some way
	fn submit(&mut self, tx: usize, log: usize, forge: u8, st: &mut Stats) -> Option<u64> {
		let (hash, data) = {
			let e = self.eth.lock().unwrap();
			let t = e.txs.get(tx)?;
			let l: Vec<&LogE> = t.logs.iter().filter(|l| l.data.len() > 160).collect();
			if l.is_empty() {
				return None;
			}
			(t.hash, l[log % l.len()].data.clone())
		};
		let mut d = data.clone();
		let mut h = hash;
		match forge {
			1 => d[31] = d[31].wrapping_add(1),
			2 => d[63] ^= 1,
			3 => d[95] ^= 1,
			4 if d.len() > 192 => d[192] ^= 1,
			5 => {
				let l = d[191];
				if l > 0 {
					d[191] = l - 1;
					d[192 + l as usize - 1] = 0;
					d.truncate(192 + (l as usize - 1 + 31) / 32 * 32);
				}
			},
			6 => h = H256::repeat_byte(0x66),
			7 => {
				// the fee is not part of the message
				d[159] = d[159].wrapping_add(1)
			},
			8 => {
				let e = self.eth.lock().unwrap();
				h = e.txs[(tx + 1) % e.txs.len()].hash
			},
			_ => {},
		}
		let r = self.c.call(acc(RELAYER), Call::submit_event { tx_hash: h, event: d.clone() });
		st.op("submit", r.is_ok());
		if r.is_err() {
			return None;
		}
		let id = u64::from_be_bytes(d[24..32].try_into().unwrap());
		let l = d[191] as usize;
		self.claims.insert(id, Claim { id, tx: h, source: H160::from_slice(&d[44..64]), dest: H160::from_slice(&d[76..96]), data: d[192..192 + l].to_vec() });
		Some(id)
	}
	fn mine(&mut self, k: u64) {
		let mut e = self.eth.lock().unwrap();
		for _ in 0..k {
			let t = e.times.last().unwrap() + 12;
			e.times.push(t);
		}
	}
}
#[allow(non_snake_case)]
fn Ok_(d: [u8; 32], n: u64, t: u64) -> CheckedEthCallResult {
	CheckedEthCallResult::Ok(d, n, t)
}
fn off_state(eth: &Arc<Mutex<Eth>>, node: &Arc<Mutex<NodeEth>>, persistent: Option<BTreeMap<Vec<u8>, Vec<u8>>>) -> sp_core::offchain::Shared {
	let (_, o) = testing::TestOffchainExt::new();
	let (e, n) = (eth.clone(), node.clone());
	{
		let mut w = o.write();
		w.handler = Some(Box::new(move |q| serve(&e, &n, q)));
		w.persistent_storage = persistent.unwrap_or_default();
	}
	o
}
fn some_fault(r: &mut Rng) -> Fault {
	match r.below(14) {
		0 => Fault::Timeout,
		1 => Fault::Io,
		2 => Fault::Refused,
		3 => Fault::Status(*r.pick(&[0, 201, 204, 301, 404, 429, 500, 503])),
		4 => Fault::NotJson,
		5 => Fault::Cut(r.below(600) as u16),
		6 => Fault::Short(r.below(600) as u16),
		7 => Fault::Error,
		8 => Fault::Null,
		9 => Fault::BadHex(r.below(4) as u8),
		10 => Fault::Behind(r.below(12) as u8),
		11 => Fault::Number(r.below(3) as u8),
		12 => Fault::Time(r.below(3) as u8),
		_ => Fault::Ok,
	}
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "notary";
	const PROPS: &'static [&'static str] = &["B06", "R01"];
	const REAL: &'static [&'static str] = &["pallet-ethy (offchain worker, Ethereum HTTP client, JSON types, vote validation and counting)", "runtime configuration", "seed-primitives"];
	const STUB: &'static [&'static str] = &["substrate (storage, executive, keystore, transaction pool)", "the Ethereum nodes (JSON-RPC over simulated HTTP)", "session pallet"];
	fn rule() -> &'static str {
		"an evaluation counts when a validator's vote was compared with what its Ethereum node had answered"
	}
	fn panic_prop(&self) -> String {
		"B06|R01".into()
	}
	fn quick_runs() -> u64 {
		3000
	}
	fn thorough_runs() -> u64 {
		100_000
	}
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed);
		let who = r.range(3, 4);
		let mut c = Chain::new(Cfg { accounts: who, root_each: 1_000_000, xrp_each: 1_000_000_000_000_000 });
		c.reexec = prop == "R01" || r.chance(1, 8);
		let total = r.range(1, MAXV as u64) as usize;
		let eth = Arc::new(Mutex::new(Eth { base: r.range(1, 40), times: vec![], txs: vec![] }));
		let start = 1_600_000_000 - 12 * 40;
		{
			let mut e = eth.lock().unwrap();
			let n = r.range(2, 40);
			e.times = (0..n).map(|k| start + 12 * k).collect();
		}
		let keyless = if r.chance(1, 3) { r.below(3) as usize } else { 0 };
		let mut vals = vec![];
		let mut ids = vec![];
		for v in 0..total {
			let ks = sp_keystore::testing::MemoryKeystore::new();
			let suri = format!("//notary{v}");
			let key = AuthorityId::from(sp_core::ecdsa::Pair::from_string(&suri, None).unwrap().public());
			// other keys lie in the key store as well
			if r.chance(1, 3) {
				sp_keystore::Keystore::insert(&ks, ETHY_KEY_TYPE, &format!("//old{v}"), &[]).unwrap();
			}
			let mut k = None;
			if !r.chance(1, 12) {
				sp_keystore::Keystore::insert(&ks, ETHY_KEY_TYPE, &suri, &[]).unwrap();
				k = Some(key.clone());
			}
			if v + keyless < total {
				ids.push(key);
			}
			let node = Arc::new(Mutex::new(NodeEth { script: Default::default(), asked: vec![], bad: None }));
			let off = off_state(&eth, &node, Some([(ETH_HTTP_URI.to_vec(), URI.as_bytes().to_vec())].into()));
			vals.push(Val { ks, off, eth: node, key: k, on: true, uri: true });
		}
		for i in 0..ids.len() {
			let j = r.range(i as u64, ids.len() as u64 - 1) as usize;
			ids.swap(i, j);
		}
		let accs: Vec<_> = (0..total).map(|v| acc(500 + v as u64)).collect();
		let conf = r.range(0, 6);
		let period = r.range(5, 60) as u32;
		c.exec(|| {
			stand_ins::set_validators(&accs);
			pallet_ethy::NotaryKeys::<Runtime>::put(frame_support::WeakBoundedVec::force_from(ids, None));
			pallet_ethy::ChallengePeriod::<Runtime>::put(period);
			pallet_ethy::ContractAddress::<Runtime>::put(addr(1));
			pallet_ethy::EventBlockConfirmations::<Runtime>::put(conf);
		});
		let mut w = World { c, eth, vals, total: total as u32, claims: Default::default(), calls: Default::default(), conf, contract: addr(1), paused: false, next_id: 1, txn: 0, air: vec![], who, bonded: false };
		w.c.begin(1_600_000_000_000);
		let mut st = Stats::default();
		w.staff(&mut st).ok();
		w
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(15, 70) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let nv = self.vals.len() as u64;
		let ntx = self.eth.lock().unwrap().txs.len() as u64;
		match r.weighted(&[26, 10, 14, 2, 16, 14, 10, 2, 2, 1, 2, 2, 1, 1]) {
			0 => {
				let mut faults = vec![];
				for v in 0..nv {
					if r.chance(1, 4) {
						faults.push((v as u8, (0..5).map(|_| if r.chance(1, 3) { some_fault(r) } else { Fault::Ok }).collect()));
					}
				}
				let lost = (0..nv).filter(|_| r.chance(1, 10)).map(|v| (v as u8, 0)).collect();
				Op::Block { ms: *r.pick(&[4000, 4000, 4000, 8000, 60_000]), faults, lost, twice: if r.chance(1, 8) { r.range(1, nv) as u8 } else { 0 }, late: if r.chance(1, 8) { r.range(1, nv) as u8 } else { 0 } }
			},
			1 => Op::Mine(r.range(1, 9) as u8),
			2 => Op::Tx { shape: if r.chance(1, 2) { 0 } else { r.below(11) as u8 }, src: r.range(10, 13) as u8, dst: r.range(20, 23) as u8, len: *r.pick(&[0, 1, 5, 31, 32, 33, 100]), fee: *r.pick(&[0, 1, 7, u64::MAX]), second: if r.chance(1, 4) { r.range(1, 2) as u8 } else { 0 } },
			3 => Op::Reorg { tx: r.below(ntx + 1) as u8, drop: r.chance(1, 2) },
			4 => Op::Submit { tx: if r.chance(2, 3) { ntx.saturating_sub(1) as u8 } else { r.below(ntx + 1) as u8 }, log: r.below(4) as u8, forge: if r.chance(1, 2) { 0 } else { r.range(1, 8) as u8 } },
			5 => Op::Challenge { k: r.below(8) as u8, by: r.range(2, self.who) as u8 },
			6 => Op::Ask { target: r.below(16) as u8, input: r.below(60) as u8, back: *r.pick(&[0, 0, 10, 100, 1000]), hint: r.range(0, 12) as i8 - 10, look: r.below(10) as u8, kind: r.below(12) as u8 },
			7 => Op::Pause(r.chance(1, 3)),
			8 => Op::Confirmations(r.below(8) as u8),
			9 => Op::Contract(r.below(3) as u8),
			10 => Op::Restart { v: r.below(nv) as u8 },
			11 => Op::Role { v: r.below(nv) as u8, on: r.chance(2, 3) },
			12 => Op::NoUri { v: r.below(nv) as u8, on: r.chance(2, 3) },
			_ => Op::Restaff,
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		match op.clone() {
			Op::Block { ms, faults, lost, twice, late } => {
				self.block(ms as u64, &faults, &lost, twice, late, st)?;
				st.op("block", true);
			},
			Op::Mine(k) => {
				self.mine(k as u64);
				st.op("mine", true);
			},
			Op::Tx { shape, src, dst, len, fee, second } => {
				self.tx(shape, src, dst, len, fee, second);
				st.op("ethereum-transaction", true);
			},
			Op::Reorg { tx, drop } => {
				let mut e = self.eth.lock().unwrap();
				let top = e.latest();
				if let Some(t) = e.txs.get_mut(tx as usize) {
					st.fault("Ethereum reorganisation");
					if drop {
						t.gone = true
					} else {
						t.block = top
					}
				}
			},
			Op::Submit { tx, log, forge } => drop(self.submit(tx as usize, log as usize, forge, st)),
			Op::Challenge { k, by } => {
				let v: Vec<u64> = self.claims.keys().rev().copied().collect();
				if v.is_empty() {
					return Ok(());
				}
				let i = v[k as usize % v.len()];
				let r = self.c.bypass(acc(by as u64), Call::submit_challenge { event_claim_id: i });
				st.op("challenge", r.is_ok());
			},
			Op::Ask { target, input, back, hint, look, kind } => {
				let now = self.now();
				let latest = self.eth.lock().unwrap().latest();
				let mut ts = now.saturating_sub(back as u64).min(*self.eth.lock().unwrap().times.last().unwrap());
				let mut hint = latest.saturating_add_signed(hint as i64);
				let mut look = look as u64;
				match kind {
					0 => ts = now + 1000,
					1 => hint = 0,
					2 => hint = u64::MAX,
					3 => look = u64::MAX,
					_ => {},
				}
				let t = addr(target);
				let inp = vec![input; input as usize];
				let next = self.c.exec(|| pallet_ethy::NextEthCallId::<Runtime>::get());
				let i2 = inp.clone();
				let r = self.c.run(move || {
					EthBridge::checked_eth_call(&t, &i2, ts, hint, look);
					Ok(())
				});
				st.op("ask", r.is_ok());
				self.calls.insert(next, Req { target: t, input: inp, ts, hint, look, asked: now });
			},
			Op::Pause(p) => {
				if self.c.root(Call::set_bridge_paused { paused: p }).is_ok() {
					self.paused = p;
				}
			},
			Op::Confirmations(k) => {
				if self.c.root(Call::set_event_block_confirmations { confirmations: k as u64 }).is_ok() {
					self.conf = k as u64;
				}
			},
			Op::Contract(k) => {
				if self.c.root(Call::set_contract_address { contract_address: addr(k) }).is_ok() {
					self.contract = addr(k);
				}
			},
			Op::Restart { v } => {
				st.fault("node restarted");
				let eth = self.eth.clone();
				let x = &mut self.vals[v as usize];
				let p = x.off.read().persistent_storage.clone();
				x.off = off_state(&eth, &x.eth, Some(p));
			},
			Op::Role { v, on } => self.vals[v as usize].on = on,
			Op::NoUri { v, on } => {
				let x = &mut self.vals[v as usize];
				x.uri = on;
				let mut w = x.off.write();
				if on {
					w.persistent_storage.insert(ETH_HTTP_URI.to_vec(), URI.as_bytes().to_vec());
				} else {
					st.fault("no Ethereum node configured");
					w.persistent_storage.remove(&ETH_HTTP_URI.to_vec());
				}
			},
			Op::Restaff => {
				st.op("restaff", true);
				let _ = self.c.run(|| {
					pallet_ethy::NotaryKeys::<Runtime>::mutate(|k| {
						let mut v = k.clone().into_inner();
						let n = v.len().min(1);
						v.rotate_left(n);
						*k = frame_support::WeakBoundedVec::force_from(v, None);
					});
					Ok(())
				});
			},
		}
		let h = self.c.hash();
		st.state(h);
		st.digest(h);
		Ok(())
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		// faults stop: every node is up, configured and honestly served
		self.apply(&Op::Pause(false), st)?;
		for v in 0..self.vals.len() {
			self.apply(&Op::Role { v: v as u8, on: true }, st)?;
			self.apply(&Op::NoUri { v: v as u8, on: true }, st)?;
		}
		self.staff(st)?;
		let notaries = self.notaries();
		let good = self.vals.iter().filter(|v| v.key.as_ref().map_or(false, |k| notaries.contains(k))).count() as u32;
		let able = good >= self.total || good * 100 / self.total >= 66;
		// a genuine and a forged message, both challenged
		self.tx(0, 10, 20, 7, 3, 0);
		self.tx(0, 11, 21, 9, 0, 0);
		let n = self.eth.lock().unwrap().txs.len();
		self.mine(self.conf + 1);
		let a = self.submit(n - 2, 0, 0, st);
		let b = self.submit(n - 1, 0, 4, st);
		for i in [a, b].into_iter().flatten() {
			let _ = self.c.bypass(acc(2), Call::submit_challenge { event_claim_id: i });
		}
		let open = self.open();
		let asks = self.asks();
		let fresh: Vec<u64> = [a, b].into_iter().flatten().filter(|i| open.contains(i)).collect();
		for _ in 0..open.len().max(asks.len()) + 4 {
			self.block(4000, &[], &[], 0, 0, st)?;
		}
		for k in 0..self.vals.len() {
			let Some(key) = self.vals[k].key.clone().filter(|k| notaries.contains(k)) else { continue };
			if notaries.len() as u32 * 100 / self.total < 66 {
				continue;
			}
			for i in self.open() {
				check!("B06", "never-voted", self.voted(0, i, &key), "{} blocks after the faults stopped validator {k} has not voted on message {i}; open: {open:?}", open.len() + 4);
			}
			for i in self.asks() {
				check!("B06", "never-voted", self.voted(1, i, &key), "{} blocks after the faults stopped validator {k} has not answered call {i}; open: {asks:?}", asks.len() + 4);
			}
		}
		if able && self.c.exec(|| pallet_ethy::Relayer::<Runtime>::get().is_some()) {
			for i in fresh {
				let s = self.status(i);
				let done = Some(i) == a;
				st.count(if done { "genuine message decided" } else { "forged message decided" });
				let gone = s.is_none();
				if done {
					check!("B06", "genuine-not-proven", s == Some(EventClaimStatus::ProvenValid) || (gone && self.c.exec(|| pallet_ethy::ProcessedMessageIds::<Runtime>::get().contains(&i))), "genuine message {i} is {s:?} although {good} of {} validators see it", self.total);
				} else {
					check!("B06", "forged-not-rejected", gone && self.c.exec(|| !pallet_ethy::ProcessedMessageIds::<Runtime>::get().contains(&i)), "forged message {i} is {s:?} although {good} of {} validators see that it is", self.total);
				}
			}
		}
		Ok(())
	}
}
fn main() {
	simkit::main::<World>()
}
