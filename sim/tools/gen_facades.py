#!/usr/bin/env python3
"""Generate the facade crates (shim/facade/*): crates with the real names that re-export the
simulation substrate, so that the repository's sources compile unmodified."""
import os,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F=os.path.join(R,'shim','facade')
SUB={
 'frame-support':'pub use substrate::support::*;',
 'sp-core':'pub use substrate::core_::*; pub use substrate::bounded::{self as bounded_like, ConstBool, ConstU8, ConstU16, ConstU32, ConstU64, ConstU128, Get, GetDefault, BoundedVec, BoundedBTreeMap, TypedGet}; pub use substrate::bounded_vec; pub use frame_macros::{RuntimeDebug, hex as hex2array};',
 'sp-runtime':'pub use substrate::runtime::*;',
 'sp-io':'pub use substrate::io::*;',
 'sp-std':'pub use substrate::misc::sp_std::*;',
 'sp-api':'pub use substrate::misc::sp_api::*;',
 'sp-application-crypto':'pub use substrate::misc::sp_application_crypto::*;',
 'sp-staking':'pub use substrate::misc::sp_staking::*;',
 'sp-session':'pub use substrate::misc::sp_session::*;',
 'sp-keystore':'pub use substrate::keystore::*;',
 'sp-arithmetic':'pub use substrate::arith::*;',
}
def w(p,s):
    os.makedirs(os.path.dirname(p),exist_ok=True)
    if os.path.exists(p) and open(p).read()==s: return
    open(p,'w').write(s)
def crate(name,deps,body,ver='0.0.0',lib=None):
    d=os.path.join(F,name)
    s=f'[package]\nname = "{name}"\nversion = "{ver}"\nedition = "2021"\n'
    s+='[features]\ndefault = ["std"]\nstd = []\nruntime-benchmarks = []\ntry-runtime = []\n'
    if lib: s+=f'[lib]\nname = "{lib}"\n'
    s+='[dependencies]\n'+deps
    w(d+'/Cargo.toml',s)
    w(d+'/src/lib.rs','#![allow(clippy::all, unused, deprecated)]\n'+body+'\n')
for n,b in SUB.items():
    crate(n,'substrate = { path = "../../sub" }\nframe-macros = { path = "../../frame-macros" }\n',b)
PAL={'pallet-balances':'balances','pallet-assets':'assets','pallet-timestamp':'timestamp','pallet-evm':'evm','pallet-proxy':'proxy','pallet-utility':'utility','pallet-scheduler':'scheduler','pallet-transaction-payment':'transaction_payment','pallet-session':'session','pallet-sudo':'sudo','pallet-staking':'staking','pallet-staking-reward-curve':'reward_curve','pallet-bags-list':'bags_list','frame-election-provider-support':'election','fp-evm':'fp_evm','evm':'evm_','fp-self-contained':'self_contained','frame-executive':'executive'}
for n,m in PAL.items():
    crate(n,'palletshims = { path = "../../pallets" }\n',f'pub use palletshims::{m}::*;')

def raw(name,ver,deps,body,lib=None,pm=False):
    d=os.path.join(F,name)
    t=f'[package]\nname = "{name}"\nversion = "{ver}"\nedition = "2021"\n[features]\ndefault = ["std"]\nstd = []\nderive = []\nruntime-benchmarks = []\n'
    if pm: t+='[lib]\nproc-macro = true\n'
    t+='[dependencies]\n'+deps
    w(d+'/Cargo.toml',t); w(d+'/src/lib.rs','#![allow(clippy::all, unused, deprecated)]\n'+body+'\n')
T='third = { path = "../../third" }\n'
P='primitive-types = { path = "../../primitive-types" }\n'
M='frame-macros = { path = "../../frame-macros" }\n'
raw('ethabi','18.0.0',T,'pub use third::abi::*;')
raw('ethereum-types','0.14.1',P,'pub use primitive_types::*;')
raw('rustc-hex','2.1.0','hex = "0.4"\n','pub use hex::{FromHex, ToHex as ToHex_};\npub trait ToHex { fn to_hex<T: std::iter::FromIterator<char>>(&self) -> T; }\nimpl<U: AsRef<[u8]> + ?Sized> ToHex for U { fn to_hex<T: std::iter::FromIterator<char>>(&self) -> T { hex::encode(self.as_ref()).chars().collect() } }')
raw('hex-literal','0.3.4',M,'pub use frame_macros::hex;')
raw('libsecp256k1','0.7.1',T,'pub use third::libsec::*;')
raw('ripemd','0.1.3',T,'pub use third::ripe::*;')
raw('impl-serde','0.4.0',P,'pub use primitive_types::impl_fixed_hash_serde;')
raw('xrpl-codec','0.2.3',T,'pub use third::xrplc::*;')
raw('affix','0.1.2','paste = { package = "paste-shim", path = "../../paste-shim" }\n','pub use paste::*;')
raw('similar-asserts','1.1.0','','pub use std::{assert_eq, assert_ne};')
raw('impl-trait-for-tuples','0.2.2',M,'pub use frame_macros::impl_for_tuples;')
raw('sp-consensus-babe','0.0.0','sp-core = { path = "../sp-core" }\nsp-application-crypto = { path = "../sp-application-crypto" }\nsp-runtime = { path = "../sp-runtime" }\n','pub type AuthorityId = sp_core::sr25519::Public;')
