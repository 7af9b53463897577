use proc_macro2::{Delimiter, TokenStream as TS, TokenTree};
use quote::{format_ident, quote};
use syn::*;

fn snake(s: &str) -> String {
	let c: Vec<char> = s.chars().collect();
	let mut r = String::new();
	for (i, ch) in c.iter().enumerate() {
		if ch.is_uppercase() {
			let prev_lower = i > 0 && (c[i - 1].is_lowercase() || c[i - 1].is_numeric());
			let next_lower = i > 0 && c[i - 1].is_uppercase() && c.get(i + 1).map_or(false, |x| x.is_lowercase());
			if prev_lower || next_lower {
				r.push('_');
			}
			r.extend(ch.to_lowercase());
		} else {
			r.push(*ch);
		}
	}
	r
}

/// `construct_runtime!`: asks every pallet, one after the other, which parts it has.
pub fn construct(i: TS) -> Result<TS> {
	step(TS::new(), i)
}
/// `{ [this pallet's parts] {parts so far} {runtime definition} }`
pub fn next(i: TS) -> Result<TS> {
	let toks: Vec<TokenTree> = i.into_iter().collect();
	let g = |k: usize| match &toks[k] {
		TokenTree::Group(g) => g.stream(),
		x => panic!("group expected, got {x}"),
	};
	let mut done = g(1);
	let me = g(0);
	done.extend(quote!({ #me }));
	step(done, g(2))
}
fn step(done: TS, body: TS) -> Result<TS> {
	let (_, _, paths, _) = parse(body.clone());
	let n = done.clone().into_iter().count();
	if n < paths.len() {
		let p = &paths[n];
		return Ok(quote!(#p::tt_parts! { {#done} {#body} }));
	}
	generate(done, body)
}
fn parse(i: TS) -> (Ident, Vec<Ident>, Vec<TS>, Vec<u8>) {
	let toks: Vec<TokenTree> = i.into_iter().collect();
	let kw = toks.iter().position(|t| matches!(t, TokenTree::Ident(i) if i == "enum" || i == "struct")).expect("enum or struct");
	let rt = match &toks[kw + 1] {
		TokenTree::Ident(i) => i.clone(),
		_ => panic!("runtime name"),
	};
	let body = toks
		.iter()
		.rev()
		.find_map(|t| match t {
			TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream()),
			_ => None,
		})
		.expect("body");
	// split on commas at top level
	let mut entries: Vec<Vec<TokenTree>> = vec![vec![]];
	let mut depth = 0i32;
	for t in body {
		if let TokenTree::Punct(p) = &t {
			match p.as_char() {
				'<' => depth += 1,
				'>' => depth -= 1,
				',' if depth == 0 => {
					entries.push(vec![]);
					continue;
				},
				_ => {},
			}
		}
		entries.last_mut().unwrap().push(t);
	}
	let mut names = vec![];
	let mut paths: Vec<TS> = vec![];
	let mut indices: Vec<u8> = vec![];
	let mut next = 0u8;
	for e in entries.iter().filter(|e| !e.is_empty()) {
		// skip attributes
		let mut k = 0;
		while matches!(&e[k], TokenTree::Punct(p) if p.as_char() == '#') {
			k += 2;
		}
		let name = match &e[k] {
			TokenTree::Ident(i) => i.clone(),
			x => panic!("pallet name {x}"),
		};
		k += 2; // name ':'
		let mut path = TS::new();
		let mut idx = None;
		while k < e.len() {
			match &e[k] {
				TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {},
				TokenTree::Punct(p) if p.as_char() == '=' => {
					idx = Some(e[k + 1].to_string().parse::<u8>().expect("index"));
					break;
				},
				TokenTree::Punct(p) if p.as_char() == ':' => {
					// `::{..}`: stop; `::seg`: keep
					if matches!(e.get(k + 2), Some(TokenTree::Group(_))) {
						k += 2;
						continue;
					}
					path.extend([e[k].clone(), e[k + 1].clone()]);
					k += 2;
					continue;
				},
				TokenTree::Punct(p) if p.as_char() == '<' => {
					while !matches!(&e[k], TokenTree::Punct(p) if p.as_char() == '>') {
						k += 1;
					}
				},
				t => path.extend(std::iter::once(t.clone())),
			}
			k += 1;
		}
		let ix = idx.unwrap_or(next);
		next = ix + 1;
		names.push(name);
		paths.push(path);
		indices.push(ix);
	}
	(rt, names, paths, indices)
}
fn generate(done: TS, body: TS) -> Result<TS> {
	let (rt, names, paths, indices) = parse(body);
	let infos: Vec<String> = done
		.into_iter()
		.map(|t| match t {
			TokenTree::Group(g) => g.stream().to_string(),
			_ => panic!(),
		})
		.collect();
	// parts: "event generic" / "event plain" / nothing, same for origin
	let ty = |what: &str, id: &str, k: usize| -> Option<TS> {
		let p = &paths[k];
		let id = format_ident!("{}", id);
		if infos[k].contains(&format!("{what}_generic")) {
			Some(quote!(#p::#id<#rt>))
		} else if infos[k].contains(&format!("{what}_plain")) {
			Some(quote!(#p::#id))
		} else {
			None
		}
	};
	let snames: Vec<String> = names.iter().map(|n| n.to_string()).collect();
	let uidx: Vec<usize> = indices.iter().map(|x| *x as usize).collect();
	let snakes: Vec<Ident> = snames.iter().map(|n| format_ident!("{}", snake(n))).collect();
	let is_sys: Vec<bool> = paths.iter().map(|p| p.to_string().contains("frame_system") || p.to_string() == "system").collect();
	let sys = is_sys.iter().position(|x| *x).expect("frame_system");
	let sysname = &names[sys];
	let parts: Vec<TS> = names.iter().map(|n| quote!(<#n as ::frame_support::__private::PalletParts>)).collect();
	let calls: Vec<TS> = paths.iter().map(|p| quote!(#p::Call<#rt>)).collect();
	let ev: Vec<usize> = (0..names.len()).filter(|k| ty("event", "Event", *k).is_some()).collect();
	let ev_names: Vec<Ident> = ev.iter().map(|k| names[*k].clone()).collect();
	let ev_tys: Vec<TS> = ev.iter().map(|k| ty("event", "Event", *k).unwrap()).collect();
	let ev_idx: Vec<u8> = ev.iter().map(|k| indices[*k]).collect();
	// origins
	let ovar: Vec<Ident> = names.iter().enumerate().map(|(i, n)| if i == sys { format_ident!("system") } else { n.clone() }).collect();
	let o_other: Vec<usize> = (0..names.len()).filter(|i| *i != sys).collect();
	let o_with: Vec<usize> = (0..names.len()).filter(|i| *i != sys && ty("origin", "Origin", *i).is_some()).collect();
	let oparts: Vec<TS> = o_with.iter().map(|i| ty("origin", "Origin", *i).unwrap()).collect();
	let ovars: Vec<Ident> = o_with.iter().map(|i| ovar[*i].clone()).collect();
	let oidx: Vec<u8> = o_with.iter().map(|i| indices[*i]).collect();
	let sysidx = indices[sys];
	let call_from = names.iter().zip(&calls).map(|(n, p)| {
		quote! {
			impl From<#p> for RuntimeCall { fn from(c: #p) -> Self { RuntimeCall::#n(c) } }
			impl ::frame_support::traits::IsSubType<#p> for RuntimeCall {
				#[allow(unreachable_patterns)]
				fn is_sub_type(&self) -> Option<&#p> { match self { RuntimeCall::#n(c) => Some(c), _ => None } }
			}
		}
	});
	let ev_from = ev_names.iter().zip(&ev_tys).map(|(n, p)| {
		quote! {
			impl From<#p> for RuntimeEvent { fn from(c: #p) -> Self { RuntimeEvent::#n(c) } }
			impl TryInto<#p> for RuntimeEvent { type Error = (); #[allow(unreachable_patterns)] fn try_into(self) -> core::result::Result<#p, ()> { match self { RuntimeEvent::#n(c) => Ok(c), _ => Err(()) } } }
		}
	});
	let or_from = ovars.iter().zip(&oparts).map(|(n, p)| {
		quote! {
			impl From<#p> for OriginCaller { fn from(c: #p) -> Self { OriginCaller::#n(c) } }
			impl From<#p> for RuntimeOrigin { fn from(c: #p) -> Self { OriginCaller::#n(c).into() } }
			impl From<RuntimeOrigin> for core::result::Result<#p, RuntimeOrigin> {
				fn from(o: RuntimeOrigin) -> Self { match o.caller { OriginCaller::#n(c) => Ok(c), c => Err(RuntimeOrigin { caller: c, filter: o.filter }) } }
			}
			impl TryFrom<OriginCaller> for #p { type Error = OriginCaller; fn try_from(o: OriginCaller) -> core::result::Result<Self, OriginCaller> { match o { OriginCaller::#n(c) => Ok(c), c => Err(c) } } }
		}
	});
	let pallet_types = names.iter().zip(&paths).map(|(n, p)| quote!(pub type #n = #p::Pallet<#rt>;));
	let without: Vec<&Ident> = o_other.iter().map(|i| &names[*i]).collect();
	Ok(quote! {
		#[derive(Clone, Copy, PartialEq, Eq, Debug)]
		pub struct #rt;
		#(#pallet_types)*
		pub type AllPalletsWithSystem = (#(#names,)*);
		pub type AllPalletsWithoutSystem = (#(#without,)*);
		pub type AllPallets = AllPalletsWithSystem;
		pub type SystemAccount = <#rt as ::frame_system::Config>::AccountId;

		pub struct PalletInfo;
		impl ::frame_support::traits::PalletInfo for PalletInfo {
			fn index<P: 'static>() -> Option<usize> {
				let t = core::any::TypeId::of::<P>();
				#( if t == core::any::TypeId::of::<#names>() { return Some(#uidx) } )*
				None
			}
			fn name<P: 'static>() -> Option<&'static str> {
				let t = core::any::TypeId::of::<P>();
				#( if t == core::any::TypeId::of::<#names>() { return Some(#snames) } )*
				None
			}
			fn name_hash<P: 'static>() -> Option<[u8; 16]> { Self::name::<P>().map(|n| ::frame_support::__private::twox_128(n.as_bytes())) }
			fn module_name<P: 'static>() -> Option<&'static str> { Self::name::<P>() }
			fn crate_version<P: 'static>() -> Option<::frame_support::traits::CrateVersion> { Self::name::<P>().map(|_| Default::default()) }
		}

		#[derive(Clone, PartialEq, Eq, Debug, ::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode)]
		pub enum RuntimeCall { #( #[codec(index = #indices)] #names(#calls) ),* }
		#(#call_from)*
		impl ::frame_support::dispatch::GetDispatchInfo for RuntimeCall {
			fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { match self { #( RuntimeCall::#names(c) => ::frame_support::dispatch::GetDispatchInfo::get_dispatch_info(c), )* } }
		}
		impl ::frame_support::traits::GetCallMetadata for RuntimeCall {
			fn get_module_names() -> &'static [&'static str] { &[#(#snames),*] }
			fn get_call_names(module: &str) -> &'static [&'static str] { match module { #( #snames => <#calls as ::frame_support::traits::GetCallName>::get_call_names(), )* _ => unreachable!() } }
			fn get_call_metadata(&self) -> ::frame_support::traits::CallMetadata { match self { #( RuntimeCall::#names(c) => ::frame_support::traits::CallMetadata { function_name: ::frame_support::traits::GetCallName::get_call_name(c), pallet_name: #snames }, )* } }
		}
		impl ::frame_support::traits::UnfilteredDispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			fn dispatch_bypass_filter(self, origin: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo { match self { #( RuntimeCall::#names(c) => ::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(c, origin), )* } }
		}
		impl ::frame_support::dispatch::Dispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			type Config = RuntimeCall;
			type Info = ::frame_support::dispatch::DispatchInfo;
			type PostInfo = ::frame_support::dispatch::PostDispatchInfo;
			fn dispatch(self, origin: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				if !::frame_support::traits::OriginTrait::filter_call(&origin, &self) {
					return core::result::Result::Err(::frame_system::Error::<#rt>::CallFiltered.into());
				}
				::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, origin)
			}
		}

		#[derive(Clone, PartialEq, Eq, Debug, ::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode)]
		#[allow(clippy::large_enum_variant)]
		pub enum RuntimeEvent { #( #[codec(index = #ev_idx)] #ev_names(#ev_tys) ),* }
		#(#ev_from)*

		#[derive(Clone, PartialEq, Eq, Debug, ::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode)]
		#[allow(non_camel_case_types)]
		pub enum OriginCaller {
			#[codec(index = #sysidx)] system(::frame_system::Origin<#rt>),
			#( #[codec(index = #oidx)] #ovars(#oparts) ),*
		}
		impl ::frame_support::__private::codec::MaxEncodedLen for OriginCaller { fn max_encoded_len() -> usize { 256 } }
		#[derive(Clone)]
		pub struct RuntimeOrigin {
			pub caller: OriginCaller,
			filter: std::rc::Rc<Box<dyn Fn(&RuntimeCall) -> bool>>,
		}
		impl core::fmt::Debug for RuntimeOrigin { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "{:?}", self.caller) } }
		impl ::frame_support::traits::OriginTrait for RuntimeOrigin {
			type Call = RuntimeCall;
			type PalletsOrigin = OriginCaller;
			type AccountId = <#rt as ::frame_system::Config>::AccountId;
			fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static) {
				let f = self.filter.clone();
				self.filter = std::rc::Rc::new(Box::new(move |call| f(call) && filter(call)));
			}
			fn reset_filter(&mut self) {
				self.filter = std::rc::Rc::new(Box::new(<<#rt as ::frame_system::Config>::BaseCallFilter as ::frame_support::traits::Contains<RuntimeCall>>::contains));
			}
			fn set_caller_from(&mut self, other: impl Into<Self>) { self.caller = other.into().caller; }
			fn filter_call(&self, call: &Self::Call) -> bool {
				match self.caller {
					OriginCaller::system(::frame_system::RawOrigin::Root) => true,
					_ => (self.filter)(call),
				}
			}
			fn caller(&self) -> &Self::PalletsOrigin { &self.caller }
			fn into_caller(self) -> Self::PalletsOrigin { self.caller }
			fn try_with_caller<R>(mut self, f: impl FnOnce(Self::PalletsOrigin) -> core::result::Result<R, Self::PalletsOrigin>) -> core::result::Result<R, Self> {
				match f(self.caller) { Ok(r) => Ok(r), Err(caller) => { self.caller = caller; Err(self) } }
			}
			fn none() -> Self { ::frame_system::RawOrigin::None.into() }
			fn root() -> Self { ::frame_system::RawOrigin::Root.into() }
			fn signed(by: Self::AccountId) -> Self { ::frame_system::RawOrigin::Signed(by).into() }
			fn as_signed(self) -> Option<Self::AccountId> { match self.caller { OriginCaller::system(::frame_system::RawOrigin::Signed(x)) => Some(x), _ => None } }
			fn as_system_ref(&self) -> Option<&::frame_system::RawOrigin<Self::AccountId>> { match &self.caller { OriginCaller::system(o) => Some(o), _ => None } }
		}
		impl ::frame_support::traits::CallerTrait<<#rt as ::frame_system::Config>::AccountId> for OriginCaller {
			fn into_system(self) -> Option<::frame_system::RawOrigin<<#rt as ::frame_system::Config>::AccountId>> { match self { OriginCaller::system(x) => Some(x), _ => None } }
			fn as_system_ref(&self) -> Option<&::frame_system::RawOrigin<<#rt as ::frame_system::Config>::AccountId>> { match self { OriginCaller::system(x) => Some(x), _ => None } }
		}
		#[allow(dead_code)]
		impl RuntimeOrigin {
			pub fn none() -> Self { <Self as ::frame_support::traits::OriginTrait>::none() }
			pub fn root() -> Self { <Self as ::frame_support::traits::OriginTrait>::root() }
			pub fn signed(by: <#rt as ::frame_system::Config>::AccountId) -> Self { <Self as ::frame_support::traits::OriginTrait>::signed(by) }
		}
		impl From<::frame_system::Origin<#rt>> for OriginCaller { fn from(x: ::frame_system::Origin<#rt>) -> Self { OriginCaller::system(x) } }
		impl TryFrom<OriginCaller> for ::frame_system::Origin<#rt> { type Error = OriginCaller; fn try_from(x: OriginCaller) -> core::result::Result<Self, OriginCaller> { match x { OriginCaller::system(o) => Ok(o), o => Err(o) } } }
		impl From<::frame_system::Origin<#rt>> for RuntimeOrigin { fn from(x: ::frame_system::Origin<#rt>) -> Self { let o: OriginCaller = x.into(); o.into() } }
		impl From<OriginCaller> for RuntimeOrigin {
			fn from(x: OriginCaller) -> Self {
				let mut o = RuntimeOrigin { caller: x, filter: std::rc::Rc::new(Box::new(|_| true)) };
				if !matches!(o.caller, OriginCaller::system(::frame_system::RawOrigin::Root)) {
					::frame_support::traits::OriginTrait::reset_filter(&mut o);
				}
				o
			}
		}
		impl From<RuntimeOrigin> for core::result::Result<::frame_system::Origin<#rt>, RuntimeOrigin> {
			fn from(o: RuntimeOrigin) -> Self { match o.caller { OriginCaller::system(x) => Ok(x), c => Err(RuntimeOrigin { caller: c, filter: o.filter }) } }
		}
		impl From<Option<<#rt as ::frame_system::Config>::AccountId>> for RuntimeOrigin {
			fn from(x: Option<<#rt as ::frame_system::Config>::AccountId>) -> Self { <::frame_system::Origin<#rt>>::from(x).into() }
		}
		#(#or_from)*

		impl ::frame_support::unsigned::ValidateUnsigned for #rt {
			type Call = RuntimeCall;
			fn validate_unsigned(source: ::frame_support::unsigned::TransactionSource, call: &RuntimeCall) -> ::frame_support::unsigned::TransactionValidity {
				match call { #( RuntimeCall::#names(c) => #parts::validate_unsigned(source, c), )* }
			}
			fn pre_dispatch(call: &RuntimeCall) -> core::result::Result<(), ::frame_support::unsigned::TransactionValidityError> {
				match call { #( RuntimeCall::#names(c) => #parts::pre_dispatch_unsigned(c), )* }
			}
		}

		#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
		pub enum RuntimeHoldReason {}
		#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
		pub enum RuntimeFreezeReason {}

		pub struct RuntimeGenesisConfig { #( pub #snakes: #parts::Genesis ),* }
		impl Default for RuntimeGenesisConfig { fn default() -> Self { Self { #( #snakes: Default::default() ),* } } }
		impl RuntimeGenesisConfig {
			#[allow(dead_code)]
			pub fn build_all(&self) {
				<AllPalletsWithSystem as ::frame_support::traits::OnGenesis>::on_genesis();
				#( ::frame_support::traits::BuildGenesisConfig::build(&self.#snakes); )*
			}
		}
		#[allow(dead_code)]
		pub const PALLET_STORAGES: &[(&str, &[&str])] = &[#( (#snames, #parts::STORAGES) ),*];
		#[allow(dead_code)]
		type __SystemPallet = #sysname;
	})
}
