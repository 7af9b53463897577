//! The functions of the precompiles: how each is encoded, what calls of it are drawn, and what each is equivalent to.
use crate::*;
use frame_support::dispatch::GetDispatchInfo;
use frame_support::traits::fungibles::{metadata::Inspect as _, Inspect};
use frame_support::traits::tokens::{Fortitude, Preservation};
use frame_support::BoundedVec;
use pallet_marketplace::types::{Listing, ListingTokens, NftListing, SftListing};
use precompile_utils::constants::*;
use rt::evm::{args, prefixed, selector};
use rt::RuntimeOrigin;
use seed_primitives::{MetadataScheme, RoyaltiesSchedule};
use sp_runtime::traits::Dispatchable;
use sp_runtime::Permill;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum V {
	U(u128),
	/// 2^128 and this
	Big(u128),
	A([u8; 20]),
	B(bool),
	Y(Vec<u8>),
	W([u8; 32]),
	Us(Vec<V>),
	As(Vec<[u8; 20]>),
	Uss(Vec<Vec<u32>>),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum On {
	Erc20(u32),
	Nft(u32),
	Sft(u32),
	MakeNft,
	MakeSft,
	Peg,
	Dex,
	Market,
}
impl On {
	pub fn at(&self) -> H160 {
		match self {
			On::Erc20(i) => asset_at(*i),
			On::Nft(i) => prefixed(ERC721_PRECOMPILE_ADDRESS_PREFIX, *i),
			On::Sft(i) => prefixed(ERC1155_PRECOMPILE_ADDRESS_PREFIX, *i),
			On::MakeNft => low(NFT_PRECOMPILE),
			On::MakeSft => low(SFT_PRECOMPILE),
			On::Peg => low(PEG_PRECOMPILE),
			On::Dex => low(DEX_PRECOMPILE),
			On::Market => low(MARKETPLACE_PRECOMPILE),
		}
	}
}
pub fn asset_at(i: u32) -> H160 {
	prefixed(ERC20_PRECOMPILE_ADDRESS_PREFIX, i)
}
fn id_of(a: H160, prefix: &[u8; 4]) -> Option<u32> {
	a.0.starts_with(prefix).then(|| u32::from_be_bytes(a.0[4..8].try_into().unwrap()))
}
fn asset_of(a: H160) -> Option<u32> {
	id_of(a, ERC20_PRECOMPILE_ADDRESS_PREFIX)
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fc {
	pub on: On,
	pub f: String,
	pub a: Vec<V>,
}
impl V {
	fn tok(&self) -> Tok {
		match self {
			V::U(x) => num(*x),
			V::Big(x) => Tok::U((U256::one() << 128) + *x),
			V::A(a) => Tok::A(H160(*a)),
			V::B(b) => Tok::B(*b),
			V::Y(y) => Tok::Bytes(y.clone()),
			V::W(w) => Tok::Raw(*w),
			V::Us(v) => Tok::Arr(v.iter().map(|x| x.tok()).collect()),
			V::As(v) => Tok::Arr(v.iter().map(|x| Tok::A(H160(*x))).collect()),
			V::Uss(v) => Tok::Arr(v.iter().map(|x| Tok::Arr(x.iter().map(|y| num(*y as u128)).collect())).collect()),
		}
	}
	fn big(&self) -> U256 {
		match self {
			V::U(x) => (*x).into(),
			V::Big(x) => (U256::one() << 128) + *x,
			_ => unreachable!(),
		}
	}
	fn fit<T: TryFrom<U256>>(&self) -> Option<T> {
		T::try_from(self.big()).ok()
	}
	fn sat(&self) -> u128 {
		self.fit().unwrap_or(u128::MAX)
	}
	fn h(&self) -> H160 {
		let V::A(a) = self else { unreachable!() };
		H160(*a)
	}
	fn who(&self) -> AccountId {
		self.h().into()
	}
	fn some(&self) -> Option<AccountId> {
		(self.h() != H160::zero()).then(|| self.who())
	}
	fn b(&self) -> bool {
		*self == V::B(true)
	}
	fn y(&self) -> Vec<u8> {
		let V::Y(y) = self else { unreachable!() };
		y.clone()
	}
	fn list(&self) -> &[V] {
		let V::Us(v) = self else { unreachable!() };
		v
	}
	fn fits<T: TryFrom<U256>>(&self) -> Option<Vec<T>> {
		self.list().iter().map(|x| x.fit()).collect()
	}
	fn addrs(&self) -> Vec<H160> {
		let V::As(v) = self else { unreachable!() };
		v.iter().map(|x| H160(*x)).collect()
	}
	fn path(&self) -> Option<Vec<u32>> {
		self.addrs().into_iter().map(asset_of).collect()
	}
}
impl Fc {
	pub fn data(&self) -> Vec<u8> {
		abi(&self.f, &self.a.iter().map(|x| x.tok()).collect::<Vec<_>>())
	}
	pub fn view(&self) -> bool {
		VIEWS.contains(&self.name())
	}
	pub fn name(&self) -> &str {
		self.f.split('(').next().unwrap()
	}
	pub fn payable(&self) -> bool {
		matches!(self.name(), "addLiquidityETH" | "swapExactETHForTokens" | "swapETHForExactTokens")
	}
}
const VIEWS: &[&str] = &[
	"totalSupply", "balanceOf", "allowance", "name", "symbol", "decimals", "ownerOf", "getApproved", "isApprovedForAll", "tokenURI", "owner", "ownedTokens", "supportsInterface", "balanceOfBatch", "exists", "uri", "quote", "getAmountOut", "getAmountIn", "getAmountsOut", "getAmountsIn",
	"getMarketplaceAccount", "getListingFromId", "getOfferFromId",
];
pub const ERC20: &[&str] = &["transfer(address,uint256)", "approve(address,uint256)", "transferFrom(address,address,uint256)", "totalSupply()", "balanceOf(address)", "allowance(address,address)", "name()", "symbol()", "decimals()"];
pub const NFT: &[&str] = &[
	"transferFrom(address,address,uint256)",
	"safeTransferFrom(address,address,uint256)",
	"safeTransferFrom(address,address,uint256,bytes)",
	"approve(address,uint256)",
	"setApprovalForAll(address,bool)",
	"burn(uint256)",
	"mint(address,uint32)",
	"setMaxSupply(uint32)",
	"setBaseURI(bytes)",
	"togglePublicMint(bool)",
	"setMintFee(address,uint128)",
	"transferOwnership(address)",
	"renounceOwnership()",
	"enableXls20Compatibility()",
	"reRequestXls20Mint(uint32[])",
	"ownerOf(uint256)",
	"balanceOf(address)",
	"getApproved(uint256)",
	"isApprovedForAll(address,address)",
	"tokenURI(uint256)",
	"name()",
	"symbol()",
	"owner()",
	"totalSupply()",
	"ownedTokens(address,uint16,uint32)",
	"supportsInterface(bytes4)",
];
const NFT_W: &[u32] = &[16, 12, 10, 14, 9, 7, 8, 2, 2, 4, 3, 2, 1, 1, 2, 2, 2, 2, 2, 2, 1, 1, 1, 2, 2, 2];
pub const SFT: &[&str] = &[
	"safeTransferFrom(address,address,uint256,uint256,bytes)",
	"safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)",
	"setApprovalForAll(address,bool)",
	"burn(address,uint256,uint256)",
	"burnBatch(address,uint256[],uint256[])",
	"createToken(bytes,uint128,uint128,address)",
	"mint(address,uint256,uint256)",
	"mintBatch(address,uint256[],uint256[])",
	"setMaxSupply(uint256,uint32)",
	"setBaseURI(bytes)",
	"togglePublicMint(uint256,bool)",
	"setMintFee(uint256,address,uint128)",
	"transferOwnership(address)",
	"renounceOwnership()",
	"balanceOf(address,uint256)",
	"balanceOfBatch(address[],uint256[])",
	"isApprovedForAll(address,address)",
	"totalSupply(uint256)",
	"exists(uint256)",
	"uri(uint256)",
	"owner()",
];
const SFT_W: &[u32] = &[14, 12, 9, 7, 6, 5, 7, 6, 2, 2, 4, 3, 2, 1, 2, 3, 2, 2, 2, 2, 1];
pub const DEX: &[&str] = &[
	"addLiquidity(address,address,uint256,uint256,uint256,uint256,address,uint256)",
	"addLiquidityETH(address,uint256,uint256,uint256,address,uint256)",
	"removeLiquidity(address,address,uint256,uint256,uint256,address,uint256)",
	"removeLiquidityETH(address,uint256,uint256,uint256,address,uint256)",
	"swapExactTokensForTokens(uint256,uint256,address[],address,uint256)",
	"swapTokensForExactTokens(uint256,uint256,address[],address,uint256)",
	"swapExactETHForTokens(uint256,address[],address,uint256)",
	"swapTokensForExactETH(uint256,uint256,address[],address,uint256)",
	"swapExactTokensForETH(uint256,uint256,address[],address,uint256)",
	"swapETHForExactTokens(uint256,address[],address,uint256)",
	"quote(uint256,uint256,uint256)",
	"getAmountOut(uint256,uint256,uint256)",
	"getAmountIn(uint256,uint256,uint256)",
	"getAmountsOut(uint256,address[])",
	"getAmountsIn(uint256,address[])",
];
pub const MARKET: &[&str] = &[
	"registerMarketplace(address,uint256)",
	"sellNft(address,uint256[],address,address,uint256,uint256,uint32)",
	"sellSft(address,uint256[],uint256[],address,address,uint256,uint256,uint32)",
	"updateFixedPrice(uint128,uint256)",
	"buy(uint128)",
	"auctionNft(address,uint256[],address,uint256,uint256,uint32)",
	"auctionSft(address,uint256[],uint256[],address,uint256,uint256,uint32)",
	"bid(uint128,uint256)",
	"cancelSale(uint128)",
	"makeSimpleOffer(address,uint32,uint256,address,uint32)",
	"cancelOffer(uint64)",
	"acceptOffer(uint64)",
	"getMarketplaceAccount(uint32)",
	"getListingFromId(uint128)",
	"getOfferFromId(uint64)",
];
pub const MAKE_NFT: &str = "initializeCollection(address,bytes,uint32,bytes,address[],uint32[])";
pub const MAKE_SFT: &str = "initializeCollection(address,bytes,bytes,address[],uint32[])";
pub const PEG: &[&str] = &["erc20Withdraw(address,address,uint128)", "erc721Withdraw(address,address[],uint32[][])"];

/// drawing calls
pub struct Gen<'a> {
	pub w: &'a World,
	pub r: &'a mut Rng,
}
impl Gen<'_> {
	fn user(&mut self) -> H160 {
		u(1 + self.r.below(USERS))
	}
	pub fn addr(&mut self) -> H160 {
		match self.r.below(12) {
			0 => contract(self.r.below(2)),
			1..=3 => receiver(self.r.below(RECEIVERS)),
			4 if self.r.chance(1, 3) => H160::zero(),
			_ => self.user(),
		}
	}
	fn a(&mut self) -> V {
		V::A(self.addr().0)
	}
	fn amt(&mut self, near: &[u128]) -> V {
		match self.r.below(20) {
			0 => V::Big(self.r.below(3) as u128),
			1 => V::U(u128::MAX - self.r.below(2) as u128),
			2 => V::U(0),
			_ => V::U(self.r.amount(near)),
		}
	}
	/// amounts that are mostly usable
	fn some(&mut self, max: u64) -> V {
		match self.r.below(25) {
			0 => V::Big(self.r.below(3) as u128),
			1 => V::U(u128::MAX),
			2 => V::U(0),
			_ => V::U(1 + self.r.below(max) as u128),
		}
	}
	fn serial(&mut self, c: u32) -> V {
		let v: Vec<u32> = self.w.x.owners.keys().filter(|k| k.0 == c).map(|k| k.1).collect();
		match self.r.below(14) {
			0 => V::U(self.r.below(40) as u128),
			1 if self.r.chance(1, 2) => V::U((1 << 32) + self.r.below(6) as u128),
			2 if self.r.chance(1, 3) => V::Big(self.r.below(6) as u128),
			_ if v.is_empty() => V::U(0),
			_ => V::U(*self.r.pick(&v) as u128),
		}
	}
	fn sid(&mut self) -> V {
		match self.r.below(20) {
			0 => V::U((1 << 32) + self.r.below(2) as u128),
			1 => V::Big(self.r.below(2) as u128),
			_ => V::U(self.r.below(4) as u128),
		}
	}
	/// ids and amounts, usually equally many
	fn batch(&mut self) -> (V, V) {
		let n = self.r.below(4) + self.r.below(2);
		let m = if self.r.chance(1, 12) { self.r.below(4) } else { n };
		let mut ids: Vec<V> = (0..n).map(|i| if self.r.chance(1, 3) { self.sid() } else { V::U(i as u128 % 4) }).collect();
		if self.r.chance(1, 60) {
			ids = vec![V::U(0); 1001];
			return (V::Us(ids.clone()), V::Us(vec![V::U(1); ids.len()]));
		}
		(V::Us(ids), V::Us((0..m).map(|_| self.some(30)).collect()))
	}
	fn owner(&mut self, c: u32, s: &V) -> H160 {
		let k = s.fit::<u32>().and_then(|s| self.w.x.owners.get(&(c, s)).copied());
		match k {
			Some(o) if !self.r.chance(1, 10) => o,
			_ => self.addr(),
		}
	}
	fn asset(&mut self) -> V {
		V::A(match self.r.below(14) {
			0 => self.user().0,
			1 => asset_at(999).0,
			_ => asset_at(*self.r.pick(ASSETS)).0,
		})
	}
	fn nft(&mut self) -> u32 {
		*self.r.pick(&self.w.x.nfts)
	}
	fn sft(&mut self) -> u32 {
		*self.r.pick(&self.w.x.sfts)
	}
	fn bytes(&mut self) -> V {
		let n = *self.r.pick(&[0usize, 1, 5, 31, 32, 33, 64]);
		V::Y((0..n).map(|_| b'a' + self.r.below(26) as u8).collect())
	}
	fn deadline(&mut self) -> V {
		let n = self.w.c.n as u128;
		match self.r.below(8) {
			0 => V::U(n.saturating_sub(1)),
			1 => V::U(n),
			2 => V::U(1 << 32),
			_ => V::U(n + 10),
		}
	}
	fn price(&mut self) -> V {
		if self.r.chance(2, 3) {
			return V::U(1 + self.r.below(5000) as u128);
		}
		self.amt(&[100])
	}
	fn duration(&mut self) -> V {
		V::U(*self.r.pick(&[0u128, 1, 2, 5, 100, 1_000_000_000, u32::MAX as u128, 1 << 32, (1 << 32) + 3]))
	}
	fn market(&mut self) -> V {
		V::U(*self.r.pick(&[0u128, 0, 1, 1, 2, 7, 1 << 32, (1 << 32) + 1]))
	}
	fn listing(&mut self, fixed: Option<bool>) -> V {
		let n = self.w.x.listings.max(1);
		match self.r.below(12) {
			0 => V::U(n as u128 + 2),
			1 => V::Big(1),
			2 | 3 => V::U(n.saturating_sub(self.r.below(6) as u128)),
			_ => {
				let v: Vec<u128> = self.w.x.sellers.keys().copied().filter(|i| fixed.is_none_or(|f| self.w.x.prices[i].2 == f)).collect();
				V::U(if v.is_empty() { n - 1 } else { *self.r.pick(&v) })
			},
		}
	}
	fn offer(&mut self) -> V {
		let n = self.w.x.offers.max(1) as u128;
		match self.r.below(12) {
			0 => V::U(n + 2),
			1 => V::U((1 << 64) + n - 1),
			2 => V::U(n.saturating_sub(self.r.below(4) as u128)),
			_ => {
				let v: Vec<u64> = self.w.x.offered.keys().copied().collect();
				V::U(if v.is_empty() { n - 1 } else { *self.r.pick(&v) as u128 })
			},
		}
	}
	fn path(&mut self) -> V {
		let n = *self.r.pick(&[2u64, 2, 2, 3, 3, 1, 4, 0]);
		if self.r.chance(2, 3) {
			// a usable one
			let p: &[u32] = *self.r.pick(&[&[50, 51][..], &[51, 50], &[50, XRP], &[XRP, 50], &[XRP, 51], &[ROOT, XRP], &[XRP, ROOT], &[ROOT, XRP, 50], &[50, 51, XRP], &[XRP, 51, 50], &[51, XRP, ROOT]]);
			return V::As(p.iter().map(|a| asset_at(*a).0).collect());
		}
		V::As(
			(0..n)
				.map(|_| match self.asset() {
					V::A(a) => a,
					_ => unreachable!(),
				})
				.collect(),
		)
	}
	fn royalties(&mut self) -> (V, V) {
		let n = *self.r.pick(&[0u64, 1, 2, 6, 7]);
		let m = if self.r.chance(1, 10) { n + 1 } else { n };
		(V::As((0..n).map(|_| self.user().0).collect()), V::Us((0..m).map(|_| V::U(*self.r.pick(&[0u128, 1, 50_000, 200_000, 1_000_000, 5_000_000, u32::MAX as u128, 1 << 33]))).collect()))
	}
	fn serials(&mut self, c: u32) -> V {
		let n = 1 + self.r.below(3);
		if self.r.chance(1, 30) {
			return V::Us(vec![]);
		}
		if self.r.chance(1, 60) {
			return V::Us((0..*self.r.pick(&[50u64, 51, 1000, 1001])).map(|i| V::U(i as u128)).collect());
		}
		V::Us((0..n).map(|_| self.serial(c)).collect())
	}
	/// serials of one owner
	fn own(&mut self, c: u32) -> V {
		let mine: Vec<(u32, H160)> = self.w.x.owners.iter().filter(|k| k.0 .0 == c).map(|k| (k.0 .1, *k.1)).collect();
		if mine.is_empty() || self.r.chance(1, 8) {
			return self.serials(c);
		}
		let o = self.r.pick(&mine).1;
		let mut v: Vec<V> = mine.iter().filter(|x| x.1 == o).map(|x| V::U(x.0 as u128)).collect();
		while v.len() > 3 || v.len() > 1 && self.r.chance(1, 2) {
			let i = self.r.idx(v.len());
			v.remove(i);
		}
		V::Us(v)
	}
	pub fn call(&mut self) -> Fc {
		let on = match self.r.weighted(&[18, 30, 26, 2, 2, 5, 17, 26]) {
			0 => On::Erc20(*self.r.pick(ASSETS)),
			1 => On::Nft(self.nft()),
			2 => On::Sft(self.sft()),
			3 => On::MakeNft,
			4 => On::MakeSft,
			5 => On::Peg,
			6 => On::Dex,
			_ => On::Market,
		};
		let mut c = self.call_on(on);
		if on == On::Dex && self.r.chance(3, 4) {
			self.near(&mut c);
		}
		c
	}
	/// bounds close to what the trade gives
	fn near(&mut self, c: &mut Fc) {
		let x = &self.w.x;
		let pool = |a: u32, b: u32| x.pools.get(&(a.min(b), a.max(b))).map(|p| if a < b { (p.0, p.1, p.2) } else { (p.1, p.0, p.2) });
		let muldiv = |a: u128, b: u128, d: u128| if d == 0 { None } else { u128::try_from(U256::from(a) * U256::from(b) / U256::from(d)).ok() };
		let mut set: Vec<(usize, u128)> = vec![];
		let a = &c.a;
		let _ = (|| -> Option<()> {
			match c.name() {
				"removeLiquidity" | "removeLiquidityETH" => {
					let k = usize::from(c.name() == "removeLiquidity");
					let p = pool(asset_of(a[0].h())?, if k == 1 { asset_of(a[1].h())? } else { XRP })?;
					let l = a[1 + k].fit()?;
					set = vec![(2 + k, muldiv(l, p.0, p.2)?), (3 + k, muldiv(l, p.1, p.2)?)];
				},
				"addLiquidity" => {
					let p = pool(asset_of(a[0].h())?, asset_of(a[1].h())?)?;
					let (y, z): (u128, u128) = (a[2].fit()?, a[3].fit()?);
					set = vec![(4, y.min(muldiv(z, p.0, p.1)?)), (5, z.min(muldiv(y, p.1, p.0)?))];
				},
				"swapExactTokensForTokens" | "swapExactTokensForETH" => {
					let mut v: u128 = a[0].fit()?;
					for w in a[2].path()?.windows(2) {
						let p = pool(w[0], w[1])?;
						let g = v.checked_mul(997)?;
						v = muldiv(g, p.1, p.0.checked_mul(1000)?.checked_add(g)?)?;
					}
					set = vec![(1, v)];
				},
				"swapTokensForExactTokens" | "swapTokensForExactETH" => {
					let mut v: u128 = a[0].fit()?;
					for w in a[2].path()?.windows(2).rev() {
						let p = pool(w[0], w[1])?;
						v = muldiv(p.0.checked_mul(v)?, 1000, p.1.checked_sub(v)?.checked_mul(997)?)?.checked_add(1)?;
					}
					set = vec![(1, v)];
				},
				_ => {},
			}
			Some(())
		})();
		for (i, v) in set {
			c.a[i] = V::U(match self.r.below(6) {
				0 => v,
				1 => v.saturating_add(1),
				2 => v.saturating_sub(1),
				3 => v / 2,
				4 => 1,
				_ => v - v / 50,
			});
		}
	}
	fn sig(&mut self, on: On) -> &'static str {
		match on {
			On::Erc20(_) => ERC20[self.r.weighted(&[10, 8, 10, 2, 2, 2, 1, 1, 1])],
			On::Nft(_) => NFT[self.r.weighted(NFT_W)],
			On::Sft(_) => SFT[self.r.weighted(SFT_W)],
			On::MakeNft => MAKE_NFT,
			On::MakeSft => MAKE_SFT,
			On::Peg => self.r.pick::<&str>(PEG),
			On::Dex => self.r.pick::<&str>(DEX),
			On::Market => MARKET[self.r.weighted(&[3, 9, 9, 4, 9, 9, 9, 9, 5, 8, 4, 6, 2, 3, 3])],
		}
	}
	pub fn call_on(&mut self, on: On) -> Fc {
		let f = self.sig(on);
		let name = f.split('(').next().unwrap();
		let a = match on {
			On::Erc20(i) => match name {
				"transfer" => {
					let b: Vec<u128> = vec![self.w.x.some_bal, 1000];
					vec![self.a(), self.amt(&b)]
				},
				"approve" => vec![self.a(), if self.r.chance(1, 2) { V::U(1 + self.r.below(100_000) as u128) } else { self.amt(&[100, 1000]) }],
				"transferFrom" => {
					let v: Vec<_> = self.w.x.appr20.iter().filter(|k| k.0 .1 == i).collect();
					match v.is_empty() || self.r.chance(1, 5) {
						true => vec![self.a(), self.a(), self.amt(&[100])],
						false => {
							let (k, x) = *self.r.pick(&v);
							let v = if self.r.chance(1, 2) { V::U(self.r.next() as u128 % (*x).clamp(1, 5000)) } else { self.amt(&[*x, x.saturating_add(1), *x / 2]) };
							vec![V::A(k.0 .0), self.a(), v]
						},
					}
				},
				"balanceOf" => vec![self.a()],
				"allowance" => vec![self.a(), self.a()],
				_ => vec![],
			},
			On::Nft(c) => match name {
				"transferFrom" | "safeTransferFrom" => {
					let s = self.serial(c);
					let from = self.owner(c, &s);
					let mut v = vec![V::A(from.0), self.a(), s];
					if f.ends_with("bytes)") {
						v.push(self.bytes());
					}
					v
				},
				"approve" => vec![self.a(), self.serial(c)],
				"setApprovalForAll" => vec![self.a(), V::B(self.r.chance(2, 3))],
				"burn" | "ownerOf" | "getApproved" | "tokenURI" => vec![self.serial(c)],
				"mint" => vec![self.a(), self.some(4)],
				"setMaxSupply" => vec![match self.r.below(4) {
					0 => V::U(1 << 32),
					_ => V::U(10 + self.r.below(60) as u128),
				}],
				"setBaseURI" => vec![V::Y(self.r.pick(&[&b"https://a.b/c/"[..], b"ipfs://Qm", b"", b"\xff\xfe"]).to_vec())],
				"togglePublicMint" => vec![V::B(self.r.chance(1, 2))],
				"setMintFee" => vec![self.asset(), self.amt(&[10])],
				"transferOwnership" | "balanceOf" => vec![self.a()],
				"reRequestXls20Mint" => vec![self.serials(c)],
				"isApprovedForAll" => vec![self.a(), self.a()],
				"ownedTokens" => vec![self.a(), V::U(*self.r.pick(&[0u128, 1, 2, 5, 65535, 65536])), V::U(*self.r.pick(&[0u128, 1, 3, 10, 1 << 32]))],
				"supportsInterface" => {
					let mut w = [0; 32];
					w[..4].copy_from_slice(self.r.pick(&[[1, 0xff, 0xc9, 0xa7], [0x80, 0xac, 0x58, 0xcd], [0x5b, 0x5e, 0x13, 0x9f], [0xff; 4], [0xd9, 0xb6, 0x7a, 0x26], [1, 2, 3, 4]]));
					vec![V::W(w)]
				},
				_ => vec![],
			},
			On::Sft(c) => match name {
				"safeTransferFrom" => vec![V::A(self.holder(c).0), self.a(), self.sid(), self.some(40), self.bytes()],
				"safeBatchTransferFrom" => {
					let (i, m) = self.batch();
					vec![V::A(self.holder(c).0), self.a(), i, m, self.bytes()]
				},
				"setApprovalForAll" => vec![self.a(), V::B(self.r.chance(2, 3))],
				"burn" => vec![V::A(self.holder(c).0), self.sid(), self.some(40)],
				"burnBatch" => {
					let (i, m) = self.batch();
					vec![V::A(self.holder(c).0), i, m]
				},
				"createToken" => vec![self.bytes(), self.some(100), self.some(200), self.a()],
				"mint" => vec![self.a(), self.sid(), self.some(40)],
				"mintBatch" => {
					let (i, m) = self.batch();
					vec![self.a(), i, m]
				},
				"setMaxSupply" => vec![self.sid(), self.some(5000)],
				"setBaseURI" => vec![V::Y(self.r.pick(&[&b"https://a.b/c/"[..], b"ipfs://Qm", b"", b"\xff\xfe"]).to_vec())],
				"togglePublicMint" => vec![self.sid(), V::B(self.r.chance(1, 2))],
				"setMintFee" => vec![self.sid(), self.asset(), self.amt(&[10])],
				"transferOwnership" => vec![self.a()],
				"balanceOf" => vec![self.a(), self.sid()],
				"balanceOfBatch" => {
					let n = self.r.below(4);
					let m = if self.r.chance(1, 8) { n + 1 } else { n };
					vec![V::As((0..n).map(|_| self.addr().0).collect()), V::Us((0..m).map(|_| self.sid()).collect())]
				},
				"isApprovedForAll" => vec![self.a(), self.a()],
				"totalSupply" | "exists" | "uri" => vec![self.sid()],
				_ => vec![],
			},
			On::MakeNft | On::MakeSft => {
				let (x, y) = self.royalties();
				let path = V::Y(self.r.pick(&[&b"https://a.b/c/"[..], b"ipfs://Qm", b"", b"\xff\xfe"]).to_vec());
				let mut v = vec![self.a(), self.bytes()];
				if on == On::MakeNft {
					v.push(V::U(*self.r.pick(&[0u128, 1, 10, 1_000_000, 1_000_001, 1 << 32])));
				}
				v.extend([path, x, y]);
				v
			},
			On::Peg => match name {
				"erc20Withdraw" => vec![V::A(self.user().0), self.asset(), self.amt(&[50, 1000])],
				_ => {
					let n = *self.r.pick(&[1u64, 1, 1, 2, 0, 11]);
					let m = if self.r.chance(1, 10) { n + 1 } else { n };
					let cs = (0..n)
						.map(|_| match self.r.below(6) {
							0 => On::Nft(self.nft()).at().0,
							1 => self.addr().0,
							_ => On::Nft(self.w.x.bridged).at().0,
						})
						.collect();
					let b = self.w.x.bridged;
					let ss = (0..m)
						.map(|_| {
							let V::Us(v) = self.own(b) else { unreachable!() };
							v.iter().filter_map(|x| x.fit()).collect()
						})
						.collect();
					vec![V::A(self.user().0), V::As(cs), V::Uss(ss)]
				},
			},
			On::Dex => {
				let to = self.a();
				let d = self.deadline();
				match name {
					"addLiquidity" => {
						let (x, y) = (self.amt(&[100_000, 1_000_000]), self.amt(&[100_000, 1_000_000]));
						vec![self.asset(), self.asset(), x, y, self.some(1000), self.some(1000), to, d]
					},
					"addLiquidityETH" => vec![self.asset(), self.amt(&[100_000]), self.some(1000), self.some(1000), to, d],
					"removeLiquidity" => vec![self.asset(), self.asset(), self.amt(&[1000, 100_000]), self.some(100), self.some(100), to, d],
					"removeLiquidityETH" => vec![self.asset(), self.amt(&[1000, 100_000]), self.some(100), self.some(100), to, d],
					"swapExactTokensForTokens" | "swapExactTokensForETH" => vec![self.amt(&[1000]), self.some(500), self.path(), to, d],
					"swapTokensForExactTokens" | "swapTokensForExactETH" => vec![self.some(2000), self.amt(&[5000, 100_000]), self.path(), to, d],
					"swapExactETHForTokens" | "swapETHForExactTokens" => vec![self.some(500), self.path(), to, d],
					"quote" | "getAmountOut" | "getAmountIn" => vec![self.amt(&[1000]), self.amt(&[100_000]), self.amt(&[100_000])],
					_ => vec![self.amt(&[1000]), self.path()],
				}
			},
			On::Market => match name {
				"registerMarketplace" => vec![self.a(), V::U(*self.r.pick(&[0u128, 10_000, 300_000, 1_000_000, 2_000_000, u32::MAX as u128, 1 << 32]))],
				"sellNft" => {
					let c = self.nft();
					let b = if self.r.chance(1, 2) { V::A([0; 20]) } else { self.a() };
					vec![self.coll(c), self.own(c), b, self.asset(), self.price(), self.duration(), self.market()]
				},
				"sellSft" => {
					let c = self.sft();
					let b = if self.r.chance(1, 2) { V::A([0; 20]) } else { self.a() };
					let (i, m) = self.batch();
					vec![self.scoll(c), i, m, b, self.asset(), self.price(), self.duration(), self.market()]
				},
				"auctionNft" => {
					let c = self.nft();
					vec![self.coll(c), self.own(c), self.asset(), self.price(), self.duration(), self.market()]
				},
				"auctionSft" => {
					let c = self.sft();
					let (i, m) = self.batch();
					vec![self.scoll(c), i, m, self.asset(), self.price(), self.duration(), self.market()]
				},
				"updateFixedPrice" => vec![self.listing(Some(true)), self.amt(&[100])],
				"bid" => {
					let l = self.listing(Some(false));
					let p = l.fit::<u128>().and_then(|i| self.w.x.prices.get(&i)).map_or(100, |p| p.0.min(1 << 100));
					vec![l, if self.r.chance(1, 3) { self.amt(&[p, p + 1, p * 2]) } else { V::U(p + p / 10 + self.r.below(3) as u128) }]
				},
				"makeSimpleOffer" => {
					let c = self.nft();
					vec![self.coll(c), self.serial(c), self.amt(&[100]), self.asset(), self.market()]
				},
				"buy" => vec![self.listing(Some(true))],
				"cancelSale" | "getListingFromId" => vec![self.listing(None)],
				"cancelOffer" | "acceptOffer" | "getOfferFromId" => vec![self.offer()],
				_ => vec![self.market()],
			},
		};
		Fc { on, f: f.into(), a }
	}
	fn coll(&mut self, c: u32) -> V {
		V::A(match self.r.below(15) {
			0 => self.addr().0,
			1 => On::Sft(c).at().0,
			_ => On::Nft(c).at().0,
		})
	}
	fn scoll(&mut self, c: u32) -> V {
		V::A(match self.r.below(15) {
			0 => self.addr().0,
			1 => On::Nft(c).at().0,
			_ => On::Sft(c).at().0,
		})
	}
	fn holder(&mut self, c: u32) -> H160 {
		let v: Vec<H160> = self.w.x.all1155.iter().filter(|x| x.1 == c).map(|x| x.0).collect();
		match self.r.below(4) {
			0 if !v.is_empty() => *self.r.pick(&v),
			1 => self.addr(),
			_ => self.user(),
		}
	}
	/// who makes this call: mostly somebody it should work for
	pub fn caller(&mut self, c: &Fc) -> H160 {
		if self.r.chance(1, 8) {
			return if self.r.chance(1, 3) { contract(self.r.below(2)) } else { self.user() };
		}
		let x = &self.w.x;
		match (c.on, c.name()) {
			(On::Nft(n), "transferFrom" | "safeTransferFrom" | "burn" | "approve") => {
				let s = c.a.iter().find_map(|v| if let V::U(s) = v { Some(*s as u32) } else { None }).unwrap_or(0);
				let o = x.owners.get(&(n, s)).copied().unwrap_or_default();
				let mut v = vec![o];
				v.extend(x.appr721.get(&(n, s)));
				v.extend(x.all721.iter().filter(|k| k.0 == o && k.1 == n).map(|k| k.2));
				if self.r.chance(1, 3) {
					// somebody who had been approved
					v.extend(x.once.get(&(n, s)));
				}
				*self.r.pick(&v)
			},
			(On::Sft(n), "safeTransferFrom" | "safeBatchTransferFrom" | "burn" | "burnBatch") => {
				let o = c.a[0].h();
				let mut v = vec![o];
				v.extend(x.all1155.iter().filter(|k| k.0 == o && k.1 == n).map(|k| k.2));
				*self.r.pick(&v)
			},
			(On::Erc20(i), "transferFrom") => {
				let o = c.a[0].h();
				let v: Vec<H160> = x.appr20.keys().filter(|k| k.0 == o && k.1 == i).map(|k| k.2).collect();
				if v.is_empty() {
					self.user()
				} else {
					*self.r.pick(&v)
				}
			},
			(On::Nft(n), _) => x.coll_owner.get(&n).copied().unwrap_or_default(),
			(On::Sft(n), _) => x.coll_owner.get(&n).copied().unwrap_or_default(),
			(On::Market, "sellNft" | "auctionNft") => {
				let s = c.a[1].list().first().and_then(|s| s.fit::<u32>()).unwrap_or(0);
				let n = id_of(c.a[0].h(), ERC721_PRECOMPILE_ADDRESS_PREFIX).unwrap_or(0);
				x.owners.get(&(n, s)).copied().unwrap_or(u(1))
			},
			(On::Market, "acceptOffer") => {
				let k = c.a[0].fit::<u64>().and_then(|i| x.offered.get(&i));
				k.and_then(|k| x.owners.get(k)).copied().unwrap_or(u(2))
			},
			(On::Market, "cancelOffer") => c.a[0].fit::<u64>().and_then(|i| x.buyers.get(&i)).copied().unwrap_or(u(1)),
			(On::Market, "buy") => match c.a[0].fit::<u128>().and_then(|i| x.prices.get(&i)).and_then(|p| p.1) {
				Some(b) => b,
				None => self.user(),
			},
			(On::Dex, "removeLiquidity" | "removeLiquidityETH") if self.r.chance(1, 2) => u(1),
			(On::Market, "updateFixedPrice" | "cancelSale") => c.a[0].fit::<u128>().and_then(|i| x.sellers.get(&i)).copied().unwrap_or(u(1)),
			(On::Peg, "erc721Withdraw") => {
				let V::Uss(v) = &c.a[2] else { unreachable!() };
				let s = v.first().and_then(|v| v.first()).copied().unwrap_or(0);
				x.owners.get(&(x.bridged, s)).copied().unwrap_or(u(1))
			},
			_ => self.user(),
		}
	}
}

pub type L = (H160, Vec<H256>, Vec<u8>);
pub struct Want {
	pub out: Option<Vec<u8>>,
	/// the logs expected; where none are listed, there must be some
	pub logs: Option<Vec<L>>,
}
fn topic(a: H160) -> H256 {
	a.into()
}
fn tn(x: impl Into<U256>) -> H256 {
	let mut w = [0; 32];
	x.into().to_big_endian(&mut w);
	H256(w)
}
fn lg(at: H160, sig: &str, t: &[H256], data: &[Tok]) -> L {
	let mut v = vec![H256(sp_io::hashing::keccak_256(sig.as_bytes()))];
	v.extend(t);
	(at, v, args(data))
}
fn dis(who: H160, call: impl Into<RuntimeCall>) -> Option<()> {
	let c: RuntimeCall = call.into();
	let _ = c.get_dispatch_info();
	c.dispatch(RuntimeOrigin::signed(who.into())).ok().map(|_| ())
}
fn bv<T, S: frame_support::traits::Get<u32>>(v: Vec<T>) -> Option<BoundedVec<T, S>> {
	v.try_into().ok()
}
fn done(logs: Vec<L>) -> Option<Want> {
	Some(Want { out: None, logs: Some(logs) })
}
fn yes(logs: Vec<L>) -> Option<Want> {
	Some(Want { out: Some(args(&[Tok::B(true)])), logs: Some(logs) })
}
fn says(t: &[Tok]) -> Option<Want> {
	Some(Want { out: Some(args(t)), logs: Some(vec![]) })
}
fn gives(t: &[Tok]) -> Option<Want> {
	Some(Want { out: Some(args(t)), logs: None })
}
/// contracts that are sent tokens must accept them; what they do on the way is part of the transaction
fn accepted(caller: H160, to: H160, token: H160, sig: &str, logs: &mut Vec<L>) -> Option<()> {
	if pallet_evm::AccountCodes::<Runtime>::get(to).is_empty() {
		return Some(());
	}
	if to == receiver(REENTERS) && token == On::Nft(FIRST).at() {
		// no call gets into a precompile that is already running
		return None;
	}
	let d = evm::frame(caller, to, abi(sig, &[num(0), num(0), num(0), num(0), num(0)]));
	if !d.ok() || d.output.get(..4) != Some(&selector(sig)) {
		return None;
	}
	logs.extend(d.logs.into_iter().map(|l| (l.address, l.topics, l.data)));
	Some(())
}
fn price(asset: &V, fee: &V) -> Option<Option<(u32, u128)>> {
	let a = asset_of(asset.h())?;
	let f: u128 = fee.fit()?;
	Some((f > 0).then_some((a, f)))
}
fn royalties(a: &V, e: &V) -> Option<Option<RoyaltiesSchedule<AccountId>>> {
	let (a, e) = (a.addrs(), e.list());
	if a.len() != e.len() || a.len() > 6 {
		return None;
	}
	let v: Vec<(AccountId, Permill)> = a.into_iter().zip(e).map(|(a, e)| (a.into(), Permill::from_parts(e.fit::<u32>().unwrap_or(u32::MAX)))).collect();
	Some((!v.is_empty()).then(|| RoyaltiesSchedule { entitlements: v.try_into().unwrap() }))
}
/// what the call must do when `who` makes it; None where it must be refused
pub fn native(c: &Fc, who: H160, x: &mut Cx) -> Option<Want> {
	let a = &c.a;
	let at = c.on.at();
	let me: AccountId = who.into();
	match (c.on, c.name()) {
		(On::Erc20(i), f) => match f {
			"transfer" => {
				let v = a[1].sat();
				dis(who, pallet_assets_ext::Call::<Runtime>::transfer { asset_id: i, destination: a[0].who(), amount: v, keep_alive: false })?;
				yes(vec![lg(at, "Transfer(address,address,uint256)", &[topic(who), topic(a[0].h())], &[num(v)])])
			},
			"approve" => {
				if a[0].h() == who {
					return None;
				}
				let v = a[1].sat();
				x.appr20.insert((who, i, a[0].h()), v);
				pallet_token_approvals::ERC20Approvals::<Runtime>::insert((me, i), a[0].who(), v);
				yes(vec![lg(at, "Approval(address,address,uint256)", &[topic(who), topic(a[0].h())], &[num(v)])])
			},
			"transferFrom" => {
				let v = a[2].sat();
				let k = (a[0].h(), i, who);
				let left = x.appr20.get(&k)?.checked_sub(v)?;
				if left == 0 {
					x.appr20.remove(&k);
					pallet_token_approvals::ERC20Approvals::<Runtime>::remove((a[0].who(), i), me);
				} else {
					x.appr20.insert(k, left);
					pallet_token_approvals::ERC20Approvals::<Runtime>::insert((a[0].who(), i), me, left);
				}
				dis(a[0].h(), pallet_assets_ext::Call::<Runtime>::transfer { asset_id: i, destination: a[1].who(), amount: v, keep_alive: false })?;
				yes(vec![lg(at, "Transfer(address,address,uint256)", &[topic(a[0].h()), topic(a[1].h())], &[num(v)])])
			},
			"totalSupply" => says(&[num(rt::AssetsExt::total_issuance(i))]),
			"balanceOf" => says(&[num(rt::AssetsExt::reducible_balance(i, &a[0].who(), Preservation::Expendable, Fortitude::Polite))]),
			"allowance" => says(&[num(x.appr20.get(&(a[0].h(), i, a[1].h())).copied().unwrap_or(0))]),
			"name" => says(&[Tok::Bytes(rt::AssetsExt::name(i))]),
			"symbol" => says(&[Tok::Bytes(rt::AssetsExt::symbol(i))]),
			"decimals" => says(&[num(rt::AssetsExt::decimals(i) as u128)]),
			_ => unreachable!(),
		},
		(On::Nft(n), f) => {
			use pallet_nft::Call as N;
			let may = |x: &Cx, s: u32| {
				let o = *x.owners.get(&(n, s))?;
				(o == who || x.all721.contains(&(o, n, who)) || x.appr721.get(&(n, s)) == Some(&who)).then_some(o)
			};
			let info = || pallet_nft::CollectionInfo::<Runtime>::get(n).unwrap();
			match f {
				"transferFrom" | "safeTransferFrom" => {
					let s: u32 = a[2].fit()?;
					let mut logs = vec![];
					may(x, s)?;
					if f == "safeTransferFrom" {
						accepted(who, a[1].h(), at, "onERC721Received(address,address,uint256,bytes)", &mut logs)?;
					}
					dis(a[0].h(), N::<Runtime>::transfer { collection_id: n, serial_numbers: bv(vec![s])?, new_owner: a[1].who() })?;
					x.appr721.remove(&(n, s));
					logs.push(lg(at, "Transfer(address,address,uint256)", &[topic(a[0].h()), topic(a[1].h()), tn(s)], &[]));
					done(logs)
				},
				"approve" => {
					let s: u32 = a[1].fit()?;
					let o = *x.owners.get(&(n, s))?;
					if a[0].h() == who || !(o == who || x.all721.contains(&(o, n, who))) {
						return None;
					}
					x.appr721.insert((n, s), a[0].h());
					x.once.insert((n, s), a[0].h());
					pallet_token_approvals::ERC721Approvals::<Runtime>::insert((n, s), a[0].who());
					done(vec![lg(at, "Approval(address,address,uint256)", &[topic(who), topic(a[0].h()), tn(s)], &[])])
				},
				"setApprovalForAll" => {
					if a[0].h() == who {
						return None;
					}
					if a[1].b() {
						x.all721.insert((who, n, a[0].h()));
						pallet_token_approvals::ERC721ApprovalsForAll::<Runtime>::insert(me, (n, a[0].who()), true);
					} else {
						x.all721.remove(&(who, n, a[0].h()));
						pallet_token_approvals::ERC721ApprovalsForAll::<Runtime>::remove(me, (n, a[0].who()));
					}
					done(vec![lg(at, "ApprovalForAll(address,address,bool)", &[topic(who), topic(a[0].h())], &[Tok::B(a[1].b())])])
				},
				"burn" => {
					let s: u32 = a[0].fit()?;
					let o = may(x, s)?;
					dis(o, N::<Runtime>::burn { token_id: (n, s) })?;
					x.appr721.remove(&(n, s));
					done(vec![lg(at, "Transfer(address,address,uint256)", &[topic(o), topic(H160::zero()), tn(s)], &[])])
				},
				"mint" => {
					let q: u32 = a[1].fit()?;
					let first = info().next_serial_number;
					dis(who, N::<Runtime>::mint { collection_id: n, quantity: q, token_owner: Some(a[0].who()) })?;
					done((first..first + q).map(|s| lg(at, "Transfer(address,address,uint256)", &[topic(H160::zero()), topic(a[0].h()), tn(s)], &[])).collect())
				},
				"setMaxSupply" => {
					let m: u32 = a[0].fit()?;
					dis(who, N::<Runtime>::set_max_issuance { collection_id: n, max_issuance: m })?;
					done(vec![lg(at, "MaxSupplyUpdated(uint32)", &[], &[num(m as u128)])])
				},
				"setBaseURI" => {
					dis(who, N::<Runtime>::set_base_uri { collection_id: n, base_uri: a[0].y() })?;
					done(vec![lg(at, "BaseURIUpdated(string)", &[], &[Tok::Bytes(a[0].y())])])
				},
				"togglePublicMint" => {
					dis(who, N::<Runtime>::toggle_public_mint { collection_id: n, enabled: a[0].b() })?;
					done(vec![lg(at, "PublicMintToggled(bool)", &[], &[Tok::B(a[0].b())])])
				},
				"setMintFee" => {
					dis(who, N::<Runtime>::set_mint_fee { collection_id: n, pricing_details: price(&a[0], &a[1])? })?;
					done(vec![lg(at, "MintFeeUpdated(address,uint128)", &[topic(a[0].h()), tn(a[1].big())], &[])])
				},
				"transferOwnership" | "renounceOwnership" => {
					let to = if f == "renounceOwnership" { H160::zero() } else { a[0].h() };
					dis(who, N::<Runtime>::set_owner { collection_id: n, new_owner: to.into() })?;
					yes(vec![lg(at, "OwnershipTransferred(address,address)", &[topic(who), topic(to)], &[])])
				},
				"enableXls20Compatibility" => {
					dis(who, pallet_xls20::Call::<Runtime>::enable_xls20_compatibility { collection_id: n })?;
					gives(&[Tok::B(true)])
				},
				"reRequestXls20Mint" => {
					dis(who, pallet_xls20::Call::<Runtime>::re_request_xls20_mint { collection_id: n, serial_numbers: bv(a[0].fits()?)? })?;
					gives(&[Tok::B(true)])
				},
				"ownerOf" => says(&[Tok::A(*x.owners.get(&(n, a[0].fit()?))?)]),
				"balanceOf" => says(&[num(x.owners.iter().filter(|k| k.0 .0 == n && *k.1 == a[0].h()).count() as u128)]),
				"getApproved" => says(&[Tok::A(x.appr721.get(&(n, a[0].fit()?)).copied().unwrap_or_default())]),
				"isApprovedForAll" => says(&[Tok::B(x.all721.contains(&(a[0].h(), n, a[1].h())))]),
				"tokenURI" => says(&[Tok::Bytes(rt::Nft::token_uri((n, a[0].fit()?)))]),
				"name" | "symbol" => says(&[Tok::Bytes(info().name.to_vec())]),
				"owner" => says(&[Tok::A(info().owner.into())]),
				"totalSupply" => says(&[num(x.owners.keys().filter(|k| k.0 == n).count() as u128)]),
				"ownedTokens" => {
					let (limit, cursor): (u16, u32) = (a[1].fit()?, a[2].fit()?);
					let (nc, total, v) = rt::Nft::owned_tokens(n, &a[0].who(), cursor, limit);
					let mine = x.owners.iter().filter(|k| k.0 .0 == n && *k.1 == a[0].h()).count() as u32;
					if total != mine {
						return says(&[]);
					}
					says(&[num(nc as u128), num(total as u128), nums(&v)])
				},
				"supportsInterface" => {
					let V::W(w) = &a[0] else { unreachable!() };
					let id = u32::from_be_bytes(w[..4].try_into().unwrap());
					says(&[Tok::B([0x01ffc9a7, 0x80ac58cd, 0x5b5e139f, 0x42966c68, 0x0e083076, 0x2a4288ec].contains(&id))])
				},
				_ => unreachable!(),
			}
		},
		(On::Sft(n), f) => {
			use pallet_sft::Call as S;
			let may = |x: &Cx, o: H160| (o == who || x.all1155.contains(&(o, n, who))).then_some(());
			let zip = |i: &V, m: &V| -> Option<Vec<(u32, u128)>> { (i.list().len() == m.list().len()).then_some(())?; Some(i.fits()?.into_iter().zip(m.fits()?).collect()) };
			let single = "TransferSingle(address,address,address,uint256,uint256)";
			let many = "TransferBatch(address,address,address,uint256[],uint256[])";
			let lsingle = |from: H160, to: H160, i: &V, m: &V| lg(at, single, &[topic(who), topic(from), topic(to)], &[i.tok(), m.tok()]);
			let lmany = |from: H160, to: H160, i: &V, m: &V| lg(at, many, &[topic(who), topic(from), topic(to)], &[i.tok(), m.tok()]);
			match f {
				"safeTransferFrom" => {
					let mut logs = vec![];
					accepted(who, a[1].h(), at, "onERC1155Received(address,address,uint256,uint256,bytes)", &mut logs)?;
					may(x, a[0].h())?;
					if a[1].h().is_zero() {
						return None;
					}
					dis(a[0].h(), S::<Runtime>::transfer { collection_id: n, serial_numbers: bv(vec![(a[2].fit()?, a[3].fit()?)])?, new_owner: a[1].who() })?;
					logs.push(lsingle(a[0].h(), a[1].h(), &a[2], &a[3]));
					done(logs)
				},
				"safeBatchTransferFrom" => {
					let mut logs = vec![];
					accepted(who, a[1].h(), at, "onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)", &mut logs)?;
					may(x, a[0].h())?;
					if a[1].h().is_zero() {
						return None;
					}
					dis(a[0].h(), S::<Runtime>::transfer { collection_id: n, serial_numbers: bv(zip(&a[2], &a[3])?)?, new_owner: a[1].who() })?;
					logs.push(lmany(a[0].h(), a[1].h(), &a[2], &a[3]));
					done(logs)
				},
				"setApprovalForAll" => {
					if a[0].h() == who {
						return None;
					}
					if a[1].b() {
						x.all1155.insert((who, n, a[0].h()));
						pallet_token_approvals::ERC1155ApprovalsForAll::<Runtime>::insert(me, (n, a[0].who()), true);
					} else {
						x.all1155.remove(&(who, n, a[0].h()));
						pallet_token_approvals::ERC1155ApprovalsForAll::<Runtime>::remove(me, (n, a[0].who()));
					}
					done(vec![lg(at, "ApprovalForAll(address,address,bool)", &[topic(who), topic(a[0].h())], &[Tok::B(a[1].b())])])
				},
				"burn" => {
					may(x, a[0].h())?;
					dis(a[0].h(), S::<Runtime>::burn { collection_id: n, serial_numbers: bv(vec![(a[1].fit()?, a[2].fit()?)])? })?;
					done(vec![lsingle(a[0].h(), H160::zero(), &a[1], &a[2])])
				},
				"burnBatch" => {
					may(x, a[0].h())?;
					dis(a[0].h(), S::<Runtime>::burn { collection_id: n, serial_numbers: bv(zip(&a[1], &a[2])?)? })?;
					done(vec![lmany(a[0].h(), H160::zero(), &a[1], &a[2])])
				},
				"createToken" => {
					let max: u128 = a[2].fit()?;
					let id = pallet_sft::SftCollectionInfo::<Runtime>::get(n)?.next_serial_number;
					dis(who, S::<Runtime>::create_token { collection_id: n, token_name: bv(a[0].y())?, initial_issuance: a[1].fit()?, max_issuance: (max > 0).then_some(max), token_owner: a[3].some() })?;
					Some(Want { out: Some(args(&[num(id as u128)])), logs: Some(vec![lg(at, "TokenCreated(uint32)", &[tn(id)], &[])]) })
				},
				"mint" => {
					dis(who, S::<Runtime>::mint { collection_id: n, serial_numbers: bv(vec![(a[1].fit()?, a[2].fit()?)])?, token_owner: Some(a[0].who()) })?;
					done(vec![lsingle(H160::zero(), a[0].h(), &a[1], &a[2])])
				},
				"mintBatch" => {
					dis(who, S::<Runtime>::mint { collection_id: n, serial_numbers: bv(zip(&a[1], &a[2])?)?, token_owner: Some(a[0].who()) })?;
					done(vec![lmany(H160::zero(), a[0].h(), &a[1], &a[2])])
				},
				"setMaxSupply" => {
					dis(who, S::<Runtime>::set_max_issuance { token_id: (n, a[0].fit()?), max_issuance: a[1].fit()? })?;
					Some(Want { out: None, logs: None })
				},
				"setBaseURI" => {
					dis(who, S::<Runtime>::set_base_uri { collection_id: n, metadata_scheme: MetadataScheme::try_from(&a[0].y()[..]).ok()? })?;
					Some(Want { out: None, logs: None })
				},
				"togglePublicMint" => {
					dis(who, S::<Runtime>::toggle_public_mint { token_id: (n, a[0].fit()?), enabled: a[1].b() })?;
					Some(Want { out: None, logs: None })
				},
				"setMintFee" => {
					dis(who, S::<Runtime>::set_mint_fee { token_id: (n, a[0].fit()?), pricing_details: price(&a[1], &a[2])? })?;
					Some(Want { out: None, logs: None })
				},
				"transferOwnership" | "renounceOwnership" => {
					let to = if f == "renounceOwnership" { H160::zero() } else { a[0].h() };
					dis(who, S::<Runtime>::set_owner { collection_id: n, new_owner: to.into() })?;
					yes(vec![lg(at, "OwnershipTransferred(address,address)", &[topic(who), topic(to)], &[])])
				},
				"balanceOf" => says(&[num(rt::Sft::balance_of(&a[0].who(), (n, a[1].fit()?)))]),
				"balanceOfBatch" => {
					let (w, i) = (a[0].addrs(), a[1].list());
					(w.len() == i.len()).then_some(())?;
					let v: Option<Vec<Tok>> = w.into_iter().zip(i).map(|(w, i)| Some(num(rt::Sft::balance_of(&w.into(), (n, i.fit()?))))).collect();
					says(&[Tok::Arr(v?)])
				},
				"isApprovedForAll" => says(&[Tok::B(x.all1155.contains(&(a[0].h(), n, a[1].h())))]),
				"totalSupply" => says(&[num(rt::Sft::total_supply((n, a[0].fit()?)))]),
				"exists" => says(&[Tok::B(pallet_sft::TokenInfo::<Runtime>::contains_key((n, a[0].fit::<u32>()?)))]),
				"uri" => says(&[Tok::Bytes(rt::Sft::token_uri((n, a[0].fit()?)))]),
				"owner" => says(&[Tok::A(rt::Sft::get_collection_owner(n).unwrap().into())]),
				_ => unreachable!(),
			}
		},
		(On::MakeNft, _) => {
			let max: u32 = a[2].fit()?;
			let r = royalties(&a[4], &a[5])?;
			let id = pallet_nft::NextCollectionId::<Runtime>::get() << 10 | 100;
			dis(a[0].h(), pallet_nft::Call::<Runtime>::create_collection { name: bv(a[1].y())?, initial_issuance: 0, max_issuance: (max > 0).then_some(max), token_owner: None, metadata_scheme: MetadataScheme::try_from(&a[3].y()[..]).ok()?, royalties_schedule: r, cross_chain_compatibility: Default::default() })?;
			gives(&[Tok::A(On::Nft(id).at()), num(id as u128)])
		},
		(On::MakeSft, _) => {
			let r = royalties(&a[3], &a[4])?;
			let id = pallet_nft::NextCollectionId::<Runtime>::get() << 10 | 100;
			dis(a[0].h(), pallet_sft::Call::<Runtime>::create_collection { collection_name: bv(a[1].y())?, collection_owner: None, metadata_scheme: MetadataScheme::try_from(&a[2].y()[..]).ok()?, royalties_schedule: r })?;
			gives(&[Tok::A(On::Sft(id).at()), num(id as u128)])
		},
		(On::Peg, f) => {
			let id = pallet_ethy::NextEventProofId::<Runtime>::get();
			match f {
				"erc20Withdraw" => dis(who, pallet_erc20_peg::Call::<Runtime>::withdraw { asset_id: asset_of(a[1].h())?, amount: a[2].fit()?, beneficiary: a[0].h() })?,
				_ => {
					let V::Uss(v) = &a[2] else { unreachable!() };
					let cs: Option<Vec<u32>> = a[1].addrs().into_iter().map(|c| id_of(c, ERC721_PRECOMPILE_ADDRESS_PREFIX)).collect();
					let ss: Option<Vec<_>> = v.iter().map(|v| bv(v.clone())).collect();
					dis(who, pallet_nft_peg::Call::<Runtime>::withdraw { collection_ids: bv(cs?)?, serial_numbers: bv(ss?)?, destination: a[0].h() })?
				},
			}
			// withdrawals of nothing have nothing to log
			let none = matches!(&a[1], V::As(v) if v.is_empty());
			Some(Want { out: Some(args(&[num(id as u128)])), logs: if none { Some(vec![]) } else { None } })
		},
		(On::Dex, f) => dex(f, a, who, 0),
		(On::Market, f) => {
			use pallet_marketplace::Call as M;
			let nfts = |c: &V, s: &V| -> Option<ListingTokens<Runtime>> { Some(ListingTokens::Nft(NftListing { collection_id: id_of(c.h(), ERC721_PRECOMPILE_ADDRESS_PREFIX)?, serial_numbers: bv(s.fits()?)? })) };
			let sfts = |c: &V, s: &V, q: &V| -> Option<ListingTokens<Runtime>> {
				(s.list().len() == q.list().len()).then_some(())?;
				Some(ListingTokens::Sft(SftListing { collection_id: id_of(c.h(), ERC1155_PRECOMPILE_ADDRESS_PREFIX)?, serial_numbers: bv(s.fits()?.into_iter().zip(q.fits()?).collect())? }))
			};
			let term = |d: &V| -> Option<Option<u32>> {
				let d: u32 = d.fit()?;
				Some((d > 0).then_some(d))
			};
			let listing = pallet_marketplace::NextListingId::<Runtime>::get();
			let none_or = |m: &V| -> Option<Option<u32>> {
				let m: u32 = m.fit()?;
				Some((m > 0).then_some(m))
			};
			let dn = || Some(Want { out: None, logs: None });
			match f {
				"registerMarketplace" => {
					let id = pallet_marketplace::NextMarketplaceId::<Runtime>::get();
					dis(who, M::<Runtime>::register_marketplace { marketplace_account: a[0].some(), entitlement: Permill::from_parts(a[1].fit()?) })?;
					gives(&[num(id as u128)])
				},
				"sellNft" => {
					dis(who, M::<Runtime>::sell { tokens: nfts(&a[0], &a[1])?, buyer: a[2].some(), payment_asset: asset_of(a[3].h())?, fixed_price: a[4].fit()?, duration: term(&a[5])?, marketplace_id: none_or(&a[6])? })?;
					gives(&[num(listing)])
				},
				"sellSft" => {
					dis(who, M::<Runtime>::sell { tokens: sfts(&a[0], &a[1], &a[2])?, buyer: a[3].some(), payment_asset: asset_of(a[4].h())?, fixed_price: a[5].fit()?, duration: term(&a[6])?, marketplace_id: none_or(&a[7])? })?;
					gives(&[num(listing)])
				},
				"auctionNft" => {
					dis(who, M::<Runtime>::auction { tokens: nfts(&a[0], &a[1])?, payment_asset: asset_of(a[2].h())?, reserve_price: a[3].fit()?, duration: term(&a[4])?, marketplace_id: Some(a[5].fit()?) })?;
					dn()
				},
				"auctionSft" => {
					dis(who, M::<Runtime>::auction { tokens: sfts(&a[0], &a[1], &a[2])?, payment_asset: asset_of(a[3].h())?, reserve_price: a[4].fit()?, duration: term(&a[5])?, marketplace_id: Some(a[6].fit()?) })?;
					dn()
				},
				"updateFixedPrice" => {
					dis(who, M::<Runtime>::update_fixed_price { listing_id: a[0].fit()?, new_price: a[1].fit()? })?;
					dn()
				},
				"buy" => {
					dis(who, M::<Runtime>::buy { listing_id: a[0].fit()? })?;
					dn()
				},
				"bid" => {
					dis(who, M::<Runtime>::bid { listing_id: a[0].fit()?, amount: a[1].fit()? })?;
					dn()
				},
				"cancelSale" => {
					dis(who, M::<Runtime>::cancel_sale { listing_id: a[0].fit()? })?;
					dn()
				},
				"makeSimpleOffer" => {
					let id = pallet_marketplace::NextOfferId::<Runtime>::get();
					dis(who, M::<Runtime>::make_simple_offer { token_id: (id_of(a[0].h(), ERC721_PRECOMPILE_ADDRESS_PREFIX)?, a[1].fit()?), amount: a[2].fit()?, asset_id: asset_of(a[3].h())?, marketplace_id: Some(a[4].fit()?) })?;
					gives(&[num(id as u128)])
				},
				"cancelOffer" => {
					dis(who, M::<Runtime>::cancel_offer { offer_id: a[0].fit()? })?;
					dn()
				},
				"acceptOffer" => {
					dis(who, M::<Runtime>::accept_offer { offer_id: a[0].fit()? })?;
					dn()
				},
				"getMarketplaceAccount" => says(&[Tok::A(pallet_marketplace::RegisteredMarketplaces::<Runtime>::get(a[0].fit::<u32>()?)?.account.into())]),
				"getListingFromId" => {
					let (kind, t, p, pa) = match pallet_marketplace::Listings::<Runtime>::get(a[0].fit::<u128>()?)? {
						Listing::FixedPrice(l) => ("fixed_price_listing_for_nft", l.tokens, l.fixed_price, l.payment_asset),
						Listing::Auction(l) => ("auction_listing_for_nft", l.tokens, l.reserve_price, l.payment_asset),
					};
					let (c, s): (u32, Vec<u32>) = match t {
						ListingTokens::Nft(t) => (t.collection_id, t.serial_numbers.to_vec()),
						ListingTokens::Sft(t) => (t.collection_id, t.serial_numbers.iter().map(|x| x.0).collect()),
					};
					says(&[Tok::Bytes(kind.into()), num(c as u128), nums(&s), num(p), num(pa as u128)])
				},
				"getOfferFromId" => {
					let pallet_marketplace::types::OfferType::Simple(o) = pallet_marketplace::Offers::<Runtime>::get(a[0].fit::<u64>()?)?;
					says(&[num(o.token_id.0 as u128), num(o.token_id.1 as u128), num(o.amount), Tok::A(o.buyer.into())])
				},
				_ => unreachable!(),
			}
		},
	}
}
/// exchange functions; `drops` of XRP come with the call where it takes them
pub fn dex(f: &str, a: &[V], who: H160, drops: u128) -> Option<Want> {
	use pallet_dex::Call as D;
	let n = a.len();
	let late = || -> Option<(Option<AccountId>, Option<u32>)> { Some((Some(a[n - 2].who()), Some(a[n - 1].fit::<u32>()?))) };
	let events = System::events().len();
	let last = || System::events().into_iter().skip(events).rev().find_map(|e| if let RuntimeEvent::Dex(d) = e.event { Some(d) } else { None });
	// logs come from the pool's account
	let pair = |x: u32, y: u32| {
		let mut w = [0; 20];
		w[..4].copy_from_slice(&[0xdd; 4]);
		w[4..8].copy_from_slice(&x.min(y).to_be_bytes());
		w[8..12].copy_from_slice(&x.max(y).to_be_bytes());
		H160(w)
	};
	let logs_too = |out: &[Tok], logs: Vec<L>| Some(Want { out: Some(args(out)), logs: Some(logs) });
	let swaps = |path: &[u32], v: &[u128]| -> Vec<L> {
		path.windows(2)
			.zip(v.windows(2))
			.map(|(p, v)| {
				let (i0, i1, o0, o1) = if p[0] < p[1] { (v[0], 0, 0, v[1]) } else { (0, v[0], v[1], 0) };
				lg(pair(p[0], p[1]), "Swap(address,uint256,uint256,uint256,uint256,address)", &[topic(who), tn(i0), tn(i1)], &[num(o0), num(o1), Tok::A(a[n - 2].h())])
			})
			.collect()
	};
	let add = |ta: u32, tb: u32, da: u128, db: u128, ma: u128, mb: u128| {
		let (to, deadline) = late()?;
		dis(who, D::<Runtime>::add_liquidity { token_a: ta, token_b: tb, amount_a_desired: da, amount_b_desired: db, amount_a_min: ma, amount_b_min: mb, to, deadline })?;
		let Some(pallet_dex::Event::AddLiquidity(_, t0, x0, t1, x1, l, _)) = last() else { return None };
		let (xa, xb) = if (t0, t1) == (ta, tb) { (x0, x1) } else { (x1, x0) };
		logs_too(&[num(xa), num(xb), num(l)], vec![lg(pair(ta, tb), "Mint(address,uint256,uint256)", &[topic(who), tn(xa)], &[num(xb)])])
	};
	let remove = |ta: u32, tb: u32, l: u128, ma: u128, mb: u128| {
		let (to, deadline) = late()?;
		dis(who, D::<Runtime>::remove_liquidity { token_a: ta, token_b: tb, liquidity: l, amount_a_min: ma, amount_b_min: mb, to, deadline })?;
		let Some(pallet_dex::Event::RemoveLiquidity(_, t0, x0, t1, x1, _, _)) = last() else { return None };
		let (xa, xb) = if (t0, t1) == (ta, tb) { (x0, x1) } else { (x1, x0) };
		logs_too(&[num(xa), num(xb)], vec![lg(pair(ta, tb), "Burn(address,uint256,uint256,address)", &[topic(who), tn(xa), tn(xb)], &[Tok::A(a[n - 2].h())])])
	};
	let exact_in = |x: u128, min: u128, path: &V| {
		let (to, deadline) = late()?;
		let path = path.path()?;
		let v = rt::Dex::get_amounts_out(x, &path).ok();
		dis(who, D::<Runtime>::swap_with_exact_supply { amount_in: x, amount_out_min: min, path: path.clone(), to, deadline })?;
		logs_too(&[nums(v.as_ref()?)], swaps(&path, &v?))
	};
	let exact_out = |x: u128, max: u128, path: &V| {
		let (to, deadline) = late()?;
		let path = path.path()?;
		let v = rt::Dex::get_amounts_in(x, &path).ok();
		dis(who, D::<Runtime>::swap_with_exact_target { amount_out: x, amount_in_max: max, path: path.clone(), to, deadline })?;
		logs_too(&[nums(v.as_ref()?)], swaps(&path, &v?))
	};
	match f {
		"addLiquidity" => add(asset_of(a[0].h())?, asset_of(a[1].h())?, a[2].fit()?, a[3].fit()?, a[4].fit()?, a[5].fit()?),
		"addLiquidityETH" => add(asset_of(a[0].h())?, XRP, a[1].fit()?, drops, a[2].fit()?, a[3].fit()?),
		"removeLiquidity" => remove(asset_of(a[0].h())?, asset_of(a[1].h())?, a[2].fit()?, a[3].fit()?, a[4].fit()?),
		"removeLiquidityETH" => remove(asset_of(a[0].h())?, XRP, a[1].fit()?, a[2].fit()?, a[3].fit()?),
		"swapExactTokensForTokens" | "swapExactTokensForETH" => exact_in(a[0].fit()?, a[1].fit()?, &a[2]),
		"swapTokensForExactTokens" | "swapTokensForExactETH" => exact_out(a[0].fit()?, a[1].fit()?, &a[2]),
		"swapExactETHForTokens" => exact_in(drops, a[0].fit()?, &a[1]),
		"swapETHForExactTokens" => exact_out(a[0].fit()?, drops, &a[1]),
		"quote" => {
			let (x, y, z): (U256, u128, u128) = (a[0].big(), a[1].fit()?, a[2].fit()?);
			says(&[Tok::U(rt::Dex::quote(x, y, z).ok()?)])
		},
		"getAmountOut" => says(&[num(rt::Dex::get_amount_out(a[0].fit()?, a[1].fit()?, a[2].fit()?).ok()?)]),
		"getAmountIn" => says(&[num(rt::Dex::get_amount_in(a[0].fit()?, a[1].fit()?, a[2].fit()?).ok()?)]),
		"getAmountsOut" => says(&[nums(&rt::Dex::get_amounts_out(a[0].fit()?, &a[1].path()?).ok()?)]),
		"getAmountsIn" => says(&[nums(&rt::Dex::get_amounts_in(a[0].fit()?, &a[1].path()?).ok()?)]),
		_ => unreachable!(),
	}
}
