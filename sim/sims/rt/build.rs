//! Extracts the parts of the real runtime definition that can run on the stand-in substrate.
use quote::ToTokens;
use std::fmt::Write;
use syn::*;

const PALLETS: &[&str] = &["frame_system", "pallet_transaction_payment", "pallet_balances", "pallet_assets", "pallet_assets_ext", "pallet_nfi", "pallet_nft", "pallet_marketplace", "pallet_sft", "pallet_xls20", "pallet_echo", "pallet_fee_proxy", "pallet_scheduler", "pallet_utility", "pallet_xrpl_bridge", "pallet_dex", "pallet_token_approvals", "pallet_timestamp", "pallet_sudo", "pallet_tx_fee_pot", "pallet_ethy", "pallet_evm_chain_id", "pallet_evm", "pallet_erc20_peg", "pallet_nft_peg", "pallet_fee_control", "pallet_proxy", "pallet_futurepass", "pallet_vortex_distribution", "pallet_maintenance_mode", "pallet_crowdsale", "pallet_migration", "pallet_xrpl", "pallet_doughnut"];
/// parameter_types blocks mentioning these belong to components that are not simulated
const SKIP_PARAMS: &[&str] = &["Version", "SlashPotId", "StakingUnsignedPriority", "SignedMaxSubmissions", "BagThresholds", "PreimageMaxSize", "ReportLongevity", "PostBlockAndTxnHashes", "ImOnlineUnsignedPriority", "ConfigDepositBase", "TargetBlockFullness", "DepositFactor", "PrecompilesValue", "MaxSetIdSessionEntries", "UncleGenerations", "OffchainRepeat"];

fn path_last_two(p: &Path) -> (String, String) {
	let v: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
	(v[0].clone(), v.last().unwrap().clone())
}
fn self_name(i: &ItemImpl) -> String {
	match &*i.self_ty {
		Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
		_ => String::new(),
	}
}
fn not_test(attrs: &[Attribute]) -> bool {
	!attrs.iter().any(|a| {
		let s = a.to_token_stream().to_string();
		s.contains("cfg (test)") || s.contains("runtime-benchmarks")
	})
}
/// parameter_types blocks, one item at a time
fn params(m: &ItemMacro) -> Vec<String> {
	let mut out = vec![];
	let mut cur: Vec<proc_macro2::TokenTree> = vec![];
	for t in m.mac.tokens.clone() {
		let end = t.to_string() == ";";
		cur.push(t);
		if end {
			out.push(std::mem::take(&mut cur).into_iter().collect::<proc_macro2::TokenStream>().to_string());
		}
	}
	out
}
struct NoEthereum;
impl syn::visit_mut::VisitMut for NoEthereum {
	fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
		m.arms.retain(|a| !a.pat.to_token_stream().to_string().contains("Ethereum"));
	}
}
fn main() {
	let root = "/repo/runtime/src";
	println!("cargo:rerun-if-changed={root}/lib.rs");
	println!("cargo:rerun-if-changed={root}/impls.rs");
	println!("cargo:rerun-if-changed={root}/constants.rs");
	println!("cargo:rerun-if-changed={root}/weights");
	println!("cargo:rerun-if-changed=build.rs");
	let lib = parse_file(&std::fs::read_to_string(format!("{root}/lib.rs")).unwrap()).unwrap();
	let mut o = String::new();
	let keep_types = ["XrpCurrency", "AssetsForceOrigin", "Header", "Block", "SignedExtra", "UncheckedExtrinsic", "CheckedExtrinsic"];
	let keep_structs = ["CallFilter", "FeeControlWeightToFee", "FeeControlLengthToFee"];
	let mut rt = String::new();
	for i in &lib.items {
		match i {
			Item::Const(c) if not_test(&c.attrs) && c.ident != "VERSION" && c.ident != "BABE_GENESIS_EPOCH_CONFIG" => writeln!(o, "{}", c.to_token_stream()).unwrap(),
			Item::Type(t) if keep_types.contains(&t.ident.to_string().as_str()) => writeln!(o, "{}", t.to_token_stream()).unwrap(),
			Item::Struct(s) if keep_structs.contains(&s.ident.to_string().as_str()) => writeln!(o, "{}", s.to_token_stream()).unwrap(),
			Item::Enum(s) if keep_structs.contains(&s.ident.to_string().as_str()) => writeln!(o, "{}", s.to_token_stream()).unwrap(),
			Item::Impl(im) => {
				let me = self_name(im);
				let Some((_, tr, _)) = &im.trait_ else {
					if keep_structs.contains(&me.as_str()) && not_test(&im.attrs) {
						writeln!(o, "{}", im.to_token_stream()).unwrap();
					}
					continue;
				};
				let (first, last) = path_last_two(tr);
				let keep = (last == "Config" && tr.segments.len() == 2 && me == "Runtime" && PALLETS.contains(&first.as_str()))
					|| keep_structs.contains(&me.as_str())
					|| last == "SendTransactionTypes"
					|| last == "SigningTypes";
				if last == "SelfContainedCall" {
					// wallet-signed calls; the arms for Ethereum transactions need frontier's pallet
					let mut im = im.clone();
					syn::visit_mut::VisitMut::visit_item_impl_mut(&mut NoEthereum, &mut im);
					writeln!(o, "{}", im.to_token_stream()).unwrap();
				}
				if keep {
					let mut im = im.clone();
					im.items.retain(|x| match x {
						ImplItem::Type(t) => not_test(&t.attrs),
						_ => true,
					});
					// message delivery and call answers are recorded on their way to the real handler
					if first == "pallet_ethy" {
						for x in im.items.iter_mut() {
							if let ImplItem::Type(t) = x {
								let real = t.ty.to_token_stream().to_string();
								match t.ident.to_string().as_str() {
									"EventRouter" => t.ty = parse_str(&format!("RecordingRouter<{real}>")).unwrap(),
									"EthCallSubscribers" => t.ty = parse_str(&format!("RecordingCaller<{real}>")).unwrap(),
									_ => {},
								}
							}
						}
					}
					writeln!(o, "{}", im.to_token_stream()).unwrap();
				}
			},
			Item::Macro(m) => {
				let n = m.mac.path.segments.last().unwrap().ident.to_string();
				if n == "parameter_types" {
					let mut block = String::new();
					for p in params(m) {
						let name = p.splitn(2, " : ").next().unwrap().split_whitespace().last().unwrap().to_string();
						if SKIP_PARAMS.contains(&name.as_str()) || name == "RuntimeBlockLength" || name == "RuntimeBlockWeights" || name == "MaximumMultiplier" || name == "MinimumMultiplier" || p.contains("Preimage") || p.contains("Election") || p.contains("Solution") || p.contains("RewardCurve") || p.contains("Multiplier ::") || p.contains("PostLogContent") || p.contains("im_online") || p.contains("ImOnline") || p.contains("AdjustmentVariable") || p.contains("Perquintill") || p.contains("bag_thresholds") || p.contains("SignedMax") || p.contains("MaxElect") || p.contains("OffchainRepeat") || p.contains("generic ::") || p.contains("REWARD_CURVE") || p.contains("BagThresholds") || p.contains("Miner") || p.contains("MultiPhase") || p.contains("Signed") || p.contains("Multisig") {
							continue;
						}
						writeln!(block, "{p}").unwrap();
					}
					if !block.is_empty() {
						writeln!(o, "parameter_types! {{ {block} }}").unwrap();
					}
				}
				if n == "construct_runtime" {
					// `Name: path = N,` entries in their real order
					let s = m.mac.tokens.to_string();
					let body = &s[s.find('{').unwrap() + 1..s.rfind('}').unwrap()];
					let mut depth = 0i32;
					let mut cur = String::new();
					let mut entries = vec![];
					for ch in body.chars() {
						match ch {
							'{' | '<' => depth += 1,
							'}' | '>' => depth -= 1,
							_ => {},
						}
						if ch == ',' && depth == 0 {
							entries.push(std::mem::take(&mut cur));
						} else {
							cur.push(ch);
						}
					}
					entries.push(cur);
					for e in entries {
						let Some((name, rest)) = e.split_once(':') else { continue };
						let path: String = rest.split('=').next().unwrap().split("::{").next().unwrap().split(":: {").next().unwrap().split_whitespace().collect();
						let name = name.split_whitespace().last().unwrap();
						let known = PALLETS.contains(&path.as_str());
						if path == "pallet_staking" {
							writeln!(rt, "{name}: pallet_staking,").unwrap();
						} else if known {
							writeln!(rt, "{name}: {path},").unwrap();
						}
						if path == "pallet_im_online" {
							writeln!(rt, "ImOnline: crate::im_online,").unwrap();
						}
					}
				}
			},
			_ => {},
		}
	}
	// helpers that what was kept so far mentions
	let apart = ["Runtime", "RuntimeCall", "OnChainSeqPhragmen", "TransactionConverter", "native_version"];
	let mut taken = vec![false; lib.items.len()];
	loop {
		let words: std::collections::HashSet<String> = o.split(|c: char| !c.is_alphanumeric() && c != '_').map(str::to_string).collect();
		let mut more = false;
		for (i, item) in lib.items.iter().enumerate() {
			let (name, attrs) = match item {
				Item::Fn(f) => (f.sig.ident.to_string(), &f.attrs),
				Item::Struct(s) => (s.ident.to_string(), &s.attrs),
				Item::Enum(s) => (s.ident.to_string(), &s.attrs),
				Item::Trait(s) => (s.ident.to_string(), &s.attrs),
				Item::Impl(m) => match &m.trait_ {
					Some((_, tr, _)) if ["Runtime", "RuntimeCall"].contains(&self_name(m).as_str()) => (path_last_two(tr).1, &m.attrs),
					_ => (self_name(m), &m.attrs),
				},
				_ => continue,
			};
			let local = lib.items.iter().any(|x| match x {
				Item::Fn(f) => f.sig.ident == name,
				Item::Struct(f) => f.ident == name,
				Item::Enum(f) => f.ident == name,
				Item::Trait(f) => f.ident == name,
				_ => false,
			});
			if taken[i] || !local || !words.contains(&name) || !not_test(attrs) || keep_structs.contains(&name.as_str()) || apart.contains(&name.as_str()) {
				continue;
			}
			let mut item = item.clone();
			syn::visit_mut::VisitMut::visit_item_mut(&mut NoEthereum, &mut item);
			let text = item.to_token_stream().to_string();
			if text.contains("pallet_ethereum") {
				continue;
			}
			taken[i] = true;
			more = true;
			writeln!(o, "{text}").unwrap();
		}
		if !more {
			break;
		}
	}
	writeln!(o, "construct_runtime!(pub enum Runtime {{ {rt} }});").unwrap();
	let dir = std::env::var("OUT_DIR").unwrap();
	std::fs::write(format!("{dir}/real.rs"), o).unwrap();

	// impls.rs
	let f = parse_file(&std::fs::read_to_string(format!("{root}/impls.rs")).unwrap()).unwrap();
	let drop = ["SlashImbalanceHandler", "StakingSessionTracker", "HandleTxValidation", "PercentageOfWeight"];
	let mut o = String::new();
	// functions only if something that is kept mentions them: those of what is dropped may need what is not here
	let mut functions: Vec<String> = vec![];
	for i in &f.items {
		match i {
			Item::Use(u) => {
				let s = u.to_token_stream().to_string();
				if s.contains("crate ::") || s.contains("fp_evm ::") {
					continue;
				}
				writeln!(o, "{s}").unwrap();
			},
			Item::Fn(x) if !matches!(x.vis, Visibility::Public(_)) => functions.push(x.to_token_stream().to_string()),
			Item::Struct(s) if drop.contains(&s.ident.to_string().as_str()) => {},
			Item::Mod(_) => {},
			Item::Impl(im) => {
				let me = self_name(im);
				let tr = im.trait_.as_ref().map(|t| path_last_two(&t.1).1).unwrap_or_default();
				if drop.contains(&me.as_str()) || tr == "CreateSignedTransaction" {
					continue;
				}
				writeln!(o, "{}", im.to_token_stream()).unwrap();
			},
			x => writeln!(o, "{}", x.to_token_stream()).unwrap(),
		}
	}
	loop {
		let words: std::collections::HashSet<String> = o.split(|c: char| !c.is_alphanumeric() && c != '_').map(str::to_string).collect();
		let n = functions.len();
		functions.retain(|x| {
			let f: ItemFn = parse_str(x).unwrap();
			let named = words.contains(&f.sig.ident.to_string());
			if named {
				writeln!(o, "{x}").unwrap();
			}
			!named
		});
		if functions.len() == n {
			break;
		}
	}
	std::fs::write(format!("{dir}/impls.rs"), o).unwrap();

	// precompile set; the Ethereum standard precompiles are stand-ins
	println!("cargo:rerun-if-changed={root}/precompiles.rs");
	let s = std::fs::read_to_string(format!("{root}/precompiles.rs")).unwrap();
	let s: Vec<&str> = s.lines().filter(|l| !l.starts_with("use pallet_evm_precompile_") && !l.starts_with("//!")).collect();
	std::fs::write(format!("{dir}/precompiles.rs"), s.join("\n")).unwrap();

	// generated weights of the simulated pallets
	let mut o = String::new();
	for e in std::fs::read_dir(format!("{root}/weights")).unwrap() {
		let n = e.unwrap().file_name().to_string_lossy().replace(".rs", "");
		let substrate = ["frame_system", "pallet_balances", "pallet_assets", "pallet_sudo", "pallet_timestamp", "pallet_scheduler", "pallet_utility", "pallet_proxy", "pallet_transaction_payment"];
		if substrate.contains(&n.as_str()) {
			writeln!(o, "pub mod {n} {{ pub struct WeightInfo<T>(std::marker::PhantomData<T>); {} }}", if n == "pallet_assets" { "impl<T> ::pallet_assets::WeightInfo for WeightInfo<T> {}" } else { "" }).unwrap();
		} else if PALLETS.contains(&n.as_str()) {
			writeln!(o, "#[path = \"{root}/weights/{n}.rs\"] pub mod {n};").unwrap();
		}
	}
	std::fs::write(format!("{dir}/weights.rs"), o).unwrap();
}
