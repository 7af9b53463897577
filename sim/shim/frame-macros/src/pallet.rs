use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote, ToTokens};
use syn::*;

/// Remove and return all `#[pallet::x..]` attributes: (name, tokens of the arguments).
fn take(attrs: &mut Vec<Attribute>) -> Vec<(String, TS)> {
	let mut r = vec![];
	attrs.retain(|a| {
		let segs: Vec<String> = a.path().segments.iter().map(|s| s.ident.to_string()).collect();
		if segs.len() == 2 && segs[0] == "pallet" {
			let t = match &a.meta {
				Meta::Path(_) => TS::new(),
				Meta::List(l) => l.tokens.clone(),
				Meta::NameValue(n) => n.value.to_token_stream(),
			};
			r.push((segs[1].clone(), t));
			false
		} else {
			true
		}
	});
	r
}
fn item_attrs(i: &mut Item) -> Option<&mut Vec<Attribute>> {
	Some(match i {
		Item::Struct(x) => &mut x.attrs,
		Item::Enum(x) => &mut x.attrs,
		Item::Trait(x) => &mut x.attrs,
		Item::Type(x) => &mut x.attrs,
		Item::Impl(x) => &mut x.attrs,
		Item::Fn(x) => &mut x.attrs,
		Item::Use(x) => &mut x.attrs,
		_ => return None,
	})
}

struct CallFn {
	name: Ident,
	index: Option<TS>,
	weight: TS,
	args: Vec<(Ident, Type, bool)>,
	docs: Vec<Attribute>,
}

pub fn pallet(_a: TS, i: TS) -> Result<TS> {
	let mut m: ItemMod = parse2(i)?;
	let (_, items) = m.content.take().expect("inline mod");
	let mut out: Vec<TS> = vec![];
	let mut hooks_where: Option<Option<WhereClause>> = None;
	let mut calls: Option<(Vec<CallFn>, Option<WhereClause>)> = None;
	let mut event: Option<(ItemEnum, Option<TS>)> = None;
	let mut error: Option<ItemEnum> = None;
	let mut genesis: Option<ItemStruct> = None;
	let mut genesis_enum = false;
	let mut storage_version: Option<TS> = None;
	let mut has_validate = false;
	let mut origin: Option<TS> = None;
	let mut pallet_vis = quote!(pub);
	let mut storages: Vec<String> = vec![];
	let mut config_where: Option<WhereClause> = None;
	let parts_macro;
	let inst = items.iter().any(|i| matches!(i, Item::Trait(t) if t.ident == "Config" && t.generics.type_params().next().map_or(false, |p| p.ident != "NoInst")));
	// igen: parameters of an impl; tgen: arguments; sgen: parameters of a declaration; cfg: the Config trait
	let igen = if inst { quote!(T: Config<I>, I: 'static) } else { quote!(T: Config) };
	let dgen = if inst { quote!(T: Config<I>, I: 'static = ()) } else { quote!(T: Config) };
	let sgen = if inst { quote!(T, I = ()) } else { quote!(T) };
	let ugen = if inst { quote!(T, I: 'static) } else { quote!(T) };
	let tgen = if inst { quote!(T, I) } else { quote!(T) };
	let cfg = if inst { quote!(Config<I>) } else { quote!(Config) };

	for mut it in items {
		let pa = match item_attrs(&mut it) {
			Some(a) => take(a),
			None => vec![],
		};
		let has = |n: &str| pa.iter().any(|(k, _)| k == n);
		let get = |n: &str| pa.iter().find(|(k, _)| k == n).map(|(_, t)| t.clone());
		match it {
			Item::Struct(s) if has("pallet") => {
				storage_version = get("storage_version");
				let (attrs, vis, id) = (&s.attrs, &s.vis, &s.ident);
				pallet_vis = quote!(#vis);
				if !inst && s.generics.type_params().count() == 2 {
					out.push(quote! { #(#attrs)* #vis struct #id<T, I = ()>(core::marker::PhantomData<(T, I)>); });
				} else { out.push(quote! { #(#attrs)* #vis struct #id<#sgen>(core::marker::PhantomData<(#tgen,)>); }); }
			},
			Item::Trait(mut t) if has("config") => {
				for x in &mut t.items {
					match x {
						TraitItem::Type(x) => drop(take(&mut x.attrs)),
						TraitItem::Fn(x) => drop(take(&mut x.attrs)),
						TraitItem::Const(x) => drop(take(&mut x.attrs)),
						_ => {},
					}
				}
				config_where = t.generics.where_clause.clone();
				out.push(t.to_token_stream());
			},
			Item::Impl(im) if has("hooks") => {
				hooks_where = Some(im.generics.where_clause.clone());
				out.push(im.to_token_stream());
			},
			Item::Impl(im) if has("validate_unsigned") => {
				has_validate = true;
				out.push(im.to_token_stream());
			},
			Item::Impl(im) if has("genesis_build") || has("inherent") || has("composite_enum") => out.push(im.to_token_stream()),
			Item::Impl(mut im) if has("call") => {
				let mut v = vec![];
				for x in &mut im.items {
					if let ImplItem::Fn(f) = x {
						let a = take(&mut f.attrs);
						let weight = a.iter().find(|(k, _)| k == "weight").map(|x| x.1.clone()).unwrap_or(quote!(::frame_support::weights::Weight::zero()));
						let index = a.iter().find(|(k, _)| k == "call_index").map(|x| x.1.clone());
						let mut args = vec![];
						for arg in f.sig.inputs.iter_mut().skip(1) {
							if let FnArg::Typed(p) = arg {
								let c = take(&mut p.attrs).iter().any(|x| x.0 == "compact");
								let id = match &*p.pat {
									Pat::Ident(i) => {
										let n = i.ident.to_string();
										syn::Ident::new(n.trim_start_matches('_'), i.ident.span())
									},
									_ => panic!("call arg pattern"),
								};
								args.push((id, (*p.ty).clone(), c));
							}
						}
						let docs = f.attrs.iter().filter(|a| a.path().is_ident("doc")).cloned().collect();
						v.push(CallFn { name: f.sig.ident.clone(), index, weight, args, docs });
						let b = &f.block;
						f.block = parse_quote!({ ::frame_support::storage::with_storage_layer(|| #b) });
					}
				}
				calls = Some((v, im.generics.where_clause.clone()));
				out.push(im.to_token_stream());
			},
			Item::Enum(e) if has("event") => {
				event = Some((e, get("generate_deposit")));
			},
			Item::Enum(e) if has("error") => error = Some(e),
			Item::Struct(mut s) if has("genesis_config") => {
				for f in s.fields.iter_mut() {
					f.attrs.retain(|a| !a.path().is_ident("serde"));
				}
				out.push(s.to_token_stream());
				genesis = Some(s);
			},
			Item::Enum(s) if has("genesis_config") => {
				genesis_enum = true;
				out.push(s.to_token_stream());
			},
			Item::Fn(f) if has("type_value") => {
				let (attrs, vis, id) = (&f.attrs, &f.vis, &f.sig.ident);
				let (ig, tg, wc) = f.sig.generics.split_for_impl();
				let ret = match &f.sig.output {
					ReturnType::Type(_, t) => quote!(#t),
					_ => quote!(()),
				};
				let b = &f.block;
				let ps: Vec<_> = f.sig.generics.type_params().map(|p| p.ident.clone()).collect();
				let decl = if ps.is_empty() { quote!(#vis struct #id;) } else { quote!(#vis struct #id #tg (core::marker::PhantomData<(#(#ps,)*)>);) };
				out.push(quote! {
					#(#attrs)* #decl
					impl #ig ::frame_support::traits::Get<#ret> for #id #tg #wc { fn get() -> #ret #b }
				});
			},
			Item::Type(mut t) if has("storage") => {
				let name = t.ident.to_string();
				let sname = get("storage_prefix").map(|t| t.to_string().trim_matches('"').to_string()).unwrap_or(name.clone());
				let pname = format_ident!("_GeneratedPrefixForStorage{}", name);
				let vis = t.vis.clone();
				let kind;
				if let Type::Path(p) = &mut *t.ty {
					let seg = p.path.segments.last_mut().unwrap();
					kind = seg.ident.to_string();
					match &mut seg.arguments {
						PathArguments::AngleBracketed(a) => {
							if matches!(a.args.first(), Some(GenericArgument::AssocType(_))) {
								// named generics
								let mut ordered: Vec<GenericArgument> = vec![parse_quote!(#pname<#tgen>)];
								let f = |n: &str| -> Option<Type> {
									a.args.iter().find_map(|g| match g {
										GenericArgument::AssocType(t) if t.ident == n => Some(t.ty.clone()),
										_ => None,
									})
								};
								let keys: &[&str] = match kind.as_str() {
									"StorageValue" => &["Value"],
									"StorageMap" | "CountedStorageMap" => &["Hasher", "Key", "Value"],
									"StorageDoubleMap" => &["Hasher1", "Key1", "Hasher2", "Key2", "Value"],
									_ => &["Key", "Value"],
								};
								for k in keys {
									let ty = f(k).expect("named generic");
									ordered.push(GenericArgument::Type(ty));
								}
								for k in ["QueryKind", "OnEmpty", "MaxValues"] {
									if let Some(t) = f(k) {
										ordered.push(GenericArgument::Type(t))
									}
								}
								a.args = ordered.into_iter().collect();
							} else {
								a.args[0] = parse_quote!(#pname<#tgen>);
							}
						},
						_ => panic!("storage args"),
					}
				} else {
					panic!("storage type")
				}
				for (k, tk) in &pa {
					if k == "getter" {
						let mut id: Option<Ident> = None;
						for t in tk.clone() {
							if let proc_macro2::TokenTree::Ident(i) = t {
								id = Some(i)
							}
						}
						let _ = id;
						panic!("pallet::getter is not supported by the shim");
					}
				}
				let counter = if kind == "CountedStorageMap" {
					let cname = format_ident!("_GeneratedCounterPrefixForStorage{}", name);
					let cs = format!("CounterFor{}", sname);
					quote! {
						#[doc(hidden)] #vis struct #cname<#sgen>(core::marker::PhantomData<(#tgen,)>);
						impl<#igen> ::frame_support::traits::StorageInstance for #cname<#tgen> {
							fn pallet_prefix() -> &'static str { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::name::<Pallet<#tgen>>().expect("pallet in runtime") }
							const STORAGE_PREFIX: &'static str = #cs;
						}
						impl<#igen> ::frame_support::storage::types::CountedStorageMapInstance for #pname<#tgen> { type CounterPrefix = #cname<#tgen>; }
					}
				} else {
					quote!()
				};
				// a generic-less alias gets no parameter, so the prefix needs one
				out.push(quote! {
					#[allow(type_alias_bounds)] #t
					#[doc(hidden)] #vis struct #pname<#sgen>(core::marker::PhantomData<(#tgen,)>);
					impl<#igen> ::frame_support::traits::StorageInstance for #pname<#tgen> {
						fn pallet_prefix() -> &'static str { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::name::<Pallet<#tgen>>().expect("pallet in runtime") }
						const STORAGE_PREFIX: &'static str = #sname;
					}
					#counter
				});
				storages.push(sname);
			},
			Item::Type(t) if has("origin") => {
				let gen = !t.generics.params.is_empty();
				origin = Some(if gen { quote!(Origin<T>) } else { quote!(Origin) });
				out.push(t.to_token_stream());
			},
			Item::Struct(s) if has("origin") => {
				let gen = !s.generics.params.is_empty();
				let id = &s.ident;
				origin = Some(if gen { quote!(#id<T>) } else { quote!(#id) });
				out.push(s.to_token_stream());
			},
			Item::Enum(s) if has("origin") => {
				let gen = !s.generics.params.is_empty();
				let id = &s.ident;
				origin = Some(if gen { quote!(#id<T>) } else { quote!(#id) });
				out.push(s.to_token_stream());
			},
			other => out.push(other.to_token_stream()),
		}
	}

	// ---- Pallet struct
	let in_version = storage_version.map(|v| quote!(#v)).unwrap_or(quote!(::frame_support::traits::StorageVersion::default()));
	let _ = pallet_vis;
	out.push(quote! {
		impl<#ugen> core::clone::Clone for Pallet<#tgen> { fn clone(&self) -> Self { Self(core::marker::PhantomData) } }
		impl<#ugen> core::cmp::PartialEq for Pallet<#tgen> { fn eq(&self, _: &Self) -> bool { true } }
		impl<#ugen> core::cmp::Eq for Pallet<#tgen> {}
		impl<#ugen> core::fmt::Debug for Pallet<#tgen> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("Pallet") } }
		impl<#ugen> core::default::Default for Pallet<#tgen> { fn default() -> Self { Self(core::marker::PhantomData) } }
		#[doc(hidden)] pub type Module<#sgen> = Pallet<#tgen>;
		impl<#igen> ::frame_support::traits::PalletInfoAccess for Pallet<#tgen> {
			fn index() -> usize { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::index::<Self>().expect("pallet in runtime") }
			fn name() -> &'static str { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::name::<Self>().expect("pallet in runtime") }
			fn name_hash() -> [u8; 16] { ::frame_support::__private::twox_128(Self::name().as_bytes()) }
			fn module_name() -> &'static str { module_path!() }
			fn crate_version() -> ::frame_support::traits::CrateVersion { Default::default() }
		}
		impl<#igen> ::frame_support::traits::GetStorageVersion for Pallet<#tgen> {
			type CurrentStorageVersion = ::frame_support::traits::StorageVersion;
			fn current_storage_version() -> ::frame_support::traits::StorageVersion { #in_version }
			fn on_chain_storage_version() -> ::frame_support::traits::StorageVersion { ::frame_support::traits::StorageVersion::get::<Self>() }
		}
		impl<#igen> ::frame_support::traits::OnGenesis for Pallet<#tgen> {
			fn on_genesis() { let v: ::frame_support::traits::StorageVersion = #in_version; v.put::<Self>(); }
		}
	});

	// ---- hooks
	let hw = match hooks_where {
		Some(w) => quote!(#w),
		None => {
			out.push(quote!(impl<#igen> ::frame_support::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#tgen> {}));
			quote!()
		},
	};
	let bn = quote!(::frame_system::pallet_prelude::BlockNumberFor<T>);
	let hk = quote!(<Self as ::frame_support::traits::Hooks<#bn>>);
	out.push(quote! {
		impl<#igen> ::frame_support::traits::OnInitialize<#bn> for Pallet<#tgen> #hw { fn on_initialize(n: #bn) -> ::frame_support::weights::Weight { #hk::on_initialize(n) } }
		impl<#igen> ::frame_support::traits::OnFinalize<#bn> for Pallet<#tgen> #hw { fn on_finalize(n: #bn) { #hk::on_finalize(n) } }
		impl<#igen> ::frame_support::traits::OnIdle<#bn> for Pallet<#tgen> #hw { fn on_idle(n: #bn, w: ::frame_support::weights::Weight) -> ::frame_support::weights::Weight { #hk::on_idle(n, w) } }
		impl<#igen> ::frame_support::traits::OffchainWorker<#bn> for Pallet<#tgen> #hw { fn offchain_worker(n: #bn) { #hk::offchain_worker(n) } }
		impl<#igen> ::frame_support::traits::OnRuntimeUpgrade for Pallet<#tgen> #hw { fn on_runtime_upgrade() -> ::frame_support::weights::Weight { #hk::on_runtime_upgrade() } }
		impl<#igen> ::frame_support::traits::IntegrityTest for Pallet<#tgen> #hw { fn integrity_test() { #hk::integrity_test() } }
	});

	// ---- call
	let has_call = calls.is_some();
	let (cf, cwc) = calls.unwrap_or((vec![], None));
	let cw = quote!(#cwc);
	let mut next = 0u8;
	let mut variants = vec![];
	let mut news = vec![];
	let mut w_arms = vec![];
	let mut n_arms = vec![];
	let mut i_arms = vec![];
	let mut d_arms = vec![];
	let mut cnames = vec![];
	let mut cidx = vec![];
	for c in &cf {
		let n = &c.name;
		let sn = n.to_string().trim_start_matches("r#").to_string();
		let idx: u8 = match &c.index {
			Some(t) => t.to_string().trim_end_matches("u8").parse().expect("call index"),
			None => next,
		};
		next = idx + 1;
		let docs = &c.docs;
		let an: Vec<_> = c.args.iter().map(|a| a.0.clone()).collect();
		let at: Vec<_> = c.args.iter().map(|a| a.1.clone()).collect();
		let fields = c.args.iter().map(|(id, ty, compact)| if *compact { quote!(#[codec(compact)] #id: #ty) } else { quote!(#id: #ty) });
		variants.push(quote!(#(#docs)* #[codec(index = #idx)] #n { #(#fields),* }));
		let nn = format_ident!("new_call_variant_{}", sn);
		news.push(quote!(pub fn #nn(#(#an: #at),*) -> Self { Self::#n { #(#an),* } }));
		let w = &c.weight;
		w_arms.push(quote! {
			Self::#n { #(ref #an),* } => {
				let __b = #w;
				let weight = <dyn ::frame_support::dispatch::WeighData<(#(&#at,)*)>>::weigh_data(&__b, (#(#an,)*));
				let class = <dyn ::frame_support::dispatch::ClassifyDispatch<(#(&#at,)*)>>::classify_dispatch(&__b, (#(#an,)*));
				let pays_fee = <dyn ::frame_support::dispatch::PaysFee<(#(&#at,)*)>>::pays_fee(&__b, (#(#an,)*));
				::frame_support::dispatch::DispatchInfo { weight, class, pays_fee }
			},
		});
		n_arms.push(quote!(Self::#n { .. } => #sn,));
		i_arms.push(quote!(Self::#n { .. } => #idx,));
		d_arms.push(quote!(Self::#n { #(#an),* } => <Pallet<#tgen>>::#n(__origin, #(#an),*).map(Into::into).map_err(Into::into),));
		cnames.push(sn);
		cidx.push(idx);
	}
	let _ = has_call;
	out.push(quote! {
		#[derive(::frame_support::CloneNoBound, ::frame_support::PartialEqNoBound, ::frame_support::EqNoBound, ::frame_support::RuntimeDebugNoBound, ::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode)]
		#[codec(encode_bound())]
		#[codec(decode_bound())]
		#[allow(non_camel_case_types)]
		pub enum Call<#dgen> #cw {
			#[doc(hidden)] #[codec(skip)] __Ignore(core::marker::PhantomData<(#tgen,)>, ::frame_support::Never),
			#(#variants),*
		}
		impl<#igen> Call<#tgen> #cw { #(#news)* }
		impl<#igen> ::frame_support::dispatch::GetDispatchInfo for Call<#tgen> #cw {
			#[allow(unused, clippy::all)]
			fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { match *self { #(#w_arms)* Self::__Ignore(_, _) => unreachable!() } }
		}
		impl<#igen> ::frame_support::traits::GetCallName for Call<#tgen> #cw {
			fn get_call_name(&self) -> &'static str { match self { #(#n_arms)* Self::__Ignore(_, _) => unreachable!() } }
			fn get_call_names() -> &'static [&'static str] { &[#(#cnames),*] }
		}
		impl<#igen> ::frame_support::traits::GetCallIndex for Call<#tgen> #cw {
			fn get_call_index(&self) -> u8 { match self { #(#i_arms)* Self::__Ignore(_, _) => unreachable!() } }
			fn get_call_indices() -> &'static [u8] { &[#(#cidx),*] }
		}
		impl<#igen> ::frame_support::traits::UnfilteredDispatchable for Call<#tgen> #cw {
			type RuntimeOrigin = <T as ::frame_system::Config>::RuntimeOrigin;
			#[allow(unused)]
			fn dispatch_bypass_filter(self, __origin: Self::RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				match self { #(#d_arms)* Self::__Ignore(_, _) => unreachable!() }
			}
		}
		impl<#igen> ::frame_support::dispatch::Callable<T> for Pallet<#tgen> #cw { type RuntimeCall = Call<#tgen>; }
		impl<#igen> Pallet<#tgen> #cw {
			#[doc(hidden)] #[allow(dead_code)]
			pub fn call_functions() -> &'static [&'static str] { &[#(#cnames),*] }
		}
	});

	// ---- error
	if let Some(mut e) = error {
		let derives_eq = false;
		let _ = derives_eq;
		let arms: Vec<TS> = e
			.variants
			.iter()
			.map(|v| {
				let (n, s) = (&v.ident, v.ident.to_string());
				quote!(Self::#n { .. } => #s,)
			})
			.collect();
		e.attrs.retain(|a| !a.path().is_ident("derive") || !a.to_token_stream().to_string().contains("Debug"));
		let first: Variant = parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(core::marker::PhantomData<(#tgen,)>, ::frame_support::Never));
		e.variants.insert(0, first);
		let mut next = 0u8;
		for v in e.variants.iter_mut().skip(1) {
			if !v.attrs.iter().any(|a| a.path().is_ident("codec")) {
				let n = next;
				v.attrs.push(parse_quote!(#[codec(index = #n)]));
			}
			next = next.wrapping_add(1);
		}
		e.attrs.push(parse_quote!(#[derive(::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode)]));
		out.push(quote! {
			#e
			impl<#ugen> core::fmt::Debug for Error<#tgen> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(self.as_str()) } }
			impl<#ugen> Error<#tgen> {
				#[doc(hidden)]
				pub fn as_str(&self) -> &'static str { match self { Self::__Ignore(_, _) => unreachable!(), #(#arms)* } }
			}
			impl<#ugen> From<Error<#tgen>> for &'static str { fn from(e: Error<#tgen>) -> &'static str { e.as_str() } }
			impl<#igen> From<Error<#tgen>> for ::frame_support::sp_runtime::DispatchError {
				fn from(e: Error<#tgen>) -> Self {
					let index = <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::index::<Pallet<#tgen>>().expect("pallet in runtime") as u8;
					let mut b = ::frame_support::__private::codec::Encode::encode(&e);
					b.resize(4, 0);
					::frame_support::sp_runtime::DispatchError::Module(::frame_support::sp_runtime::ModuleError { index, error: [b[0], b[1], b[2], b[3]], message: Some(e.as_str()) })
				}
			}
		});
	}

	// ---- event
	let ev_ty = match event {
		Some((mut e, dep)) => {
			let gen = e.generics.params.clone();
			let has_gen = !gen.is_empty();
			let (ig, tg, wc) = {
				let (a, b, c) = e.generics.split_for_impl();
				(quote!(#a), quote!(#b), quote!(#c))
			};
			if has_gen {
				let v: Variant = parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(core::marker::PhantomData<(#tgen,)>, ::frame_support::Never));
				e.variants.push(v);
			}
			let mut next = 0u8;
			for v in e.variants.iter_mut() {
				if !v.attrs.iter().any(|a| a.path().is_ident("codec")) {
					let n = next;
					v.attrs.push(parse_quote!(#[codec(index = #n)]));
				}
				next = next.wrapping_add(1);
			}
			out.push(quote! {
				#[derive(::frame_support::CloneNoBound, ::frame_support::PartialEqNoBound, ::frame_support::EqNoBound, ::frame_support::RuntimeDebugNoBound, ::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode)]
				#[codec(encode_bound())]
				#[codec(decode_bound())]
				#e
				impl #ig From<Event #tg> for () #wc { fn from(_: Event #tg) {} }
			});
			if let Some(dep) = dep {
				// `pub(super) fn deposit_event`: keep the visibility tokens
				let mut vis = TS::new();
				for t in dep {
					if t.to_string() == "fn" {
						break;
					}
					vis.extend(std::iter::once(t));
				}
				out.push(quote! {
					impl<#igen> Pallet<#tgen> {
						#[allow(dead_code)]
						#vis fn deposit_event(event: Event #tg) {
							let event = <<T as #cfg>::RuntimeEvent as From<Event #tg>>::from(event);
							let event = <<T as #cfg>::RuntimeEvent as Into<<T as ::frame_system::Config>::RuntimeEvent>>::into(event);
							<::frame_system::Pallet<T>>::deposit_event(event)
						}
					}
				});
			}
			quote!(Event #tg)
		},
		None => quote!(::frame_support::__private::NoEvent<Pallet<#tgen>>),
	};

	// ---- genesis
	let gen_ty = match (&genesis, genesis_enum) {
		(Some(g), _) => {
			let (ig, tg, wc) = g.generics.split_for_impl();
			let with_t = !g.generics.params.is_empty();
			if with_t {
				out.push(quote! {
					impl #ig ::frame_support::sp_runtime::BuildStorage for GenesisConfig #tg #wc {
						fn assimilate_storage(&self, storage: &mut ::frame_support::sp_runtime::Storage) -> core::result::Result<(), ::frame_support::__private::String> {
							::frame_support::__private::execute_with_storage(storage, || ::frame_support::traits::BuildGenesisConfig::build(self));
							Ok(())
						}
					}
				});
			}
			quote!(GenesisConfig #tg)
		},
		_ => quote!(::frame_support::__private::NoGenesis<Pallet<#tgen>>),
	};
	let or_ty = origin.unwrap_or(quote!(::frame_support::__private::NoOrigin<Pallet<#tgen>>));
	let validate = if has_validate {
		quote! {
			fn validate_unsigned(source: ::frame_support::unsigned::TransactionSource, call: &Self::Call) -> ::frame_support::unsigned::TransactionValidity { <Self as ::frame_support::unsigned::ValidateUnsigned>::validate_unsigned(source, call) }
			fn pre_dispatch_unsigned(call: &Self::Call) -> core::result::Result<(), ::frame_support::unsigned::TransactionValidityError> { <Self as ::frame_support::unsigned::ValidateUnsigned>::pre_dispatch(call) }
		}
	} else {
		quote!()
	};
	out.push(quote! {
		impl<#igen> ::frame_support::__private::PalletParts for Pallet<#tgen> #cw {
			type Call = Call<#tgen>;
			type Event = #ev_ty;
			type Origin = #or_ty;
			type Genesis = #gen_ty;
			const STORAGES: &'static [&'static str] = &[#(#storages),*];
			#validate
		}
	});
	{
		static COUNTER: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
		let n = COUNTER.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
		let id = quote::format_ident!("__tt_parts_{}", n);
		let kind = |t: &TS, none: &str, what: &str| {
			let s = t.to_string();
			if s.contains(none) {
				quote!()
			} else if s.contains('<') {
				let i = quote::format_ident!("{}_generic", what);
				quote!(#i)
			} else {
				let i = quote::format_ident!("{}_plain", what);
				quote!(#i)
			}
		};
		let e = kind(&ev_ty, "NoEvent", "event");
		let o = kind(&or_ty, "NoOrigin", "origin");
		parts_macro = quote! {
			#[doc(hidden)]
			#[macro_export]
			macro_rules! #id {
				($($t:tt)*) => { ::frame_support::__private::construct_next! { {parts #e #o} $($t)* } };
			}
			#[doc(hidden)]
			pub use #id as tt_parts;
		};
	}
	if let Some(w) = &config_where {
		let file: syn::File = syn::parse2(quote!(#(#out)*))?;
		let mut items = file.items;
		for it in items.iter_mut() {
			add_where(it, w);
		}
		out = items.into_iter().map(|i| i.to_token_stream()).collect();
	}
	let (attrs, vis, id) = (&m.attrs, &m.vis, &m.ident);
	Ok(quote! {
		#(#attrs)*
		#[allow(clippy::all, unused_doc_comments, non_local_definitions)]
		#vis mod #id { #(#out)* #parts_macro }
	})
}

/// Repeats the `Config` trait's where clause on every item generic over `T: Config`.
fn add_where(it: &mut Item, w: &WhereClause) {
	struct SelfTo(syn::Ident);
	impl syn::visit_mut::VisitMut for SelfTo {
		fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
			if i == "Self" {
				*i = self.0.clone();
			}
		}
	}
	fn ext(g: &mut syn::Generics, w: &WhereClause) {
		let mut name = None;
		for p in g.type_params() {
			let direct = p.bounds.iter().any(|b| match b {
				syn::TypeParamBound::Trait(t) => t.path.segments.last().map(|s| s.ident == "Config").unwrap_or(false) && t.path.segments.len() == 1,
				_ => false,
			});
			if direct {
				name = Some(p.ident.clone());
			}
		}
		if let Some(n) = name {
			let mut w = w.clone();
			syn::visit_mut::VisitMut::visit_where_clause_mut(&mut SelfTo(n), &mut w);
			g.make_where_clause().predicates.extend(w.predicates);
		}
	}
	match it {
		Item::Impl(i) => ext(&mut i.generics, w),
		Item::Struct(i) => ext(&mut i.generics, w),
		Item::Enum(i) => ext(&mut i.generics, w),
		Item::Fn(i) => ext(&mut i.sig.generics, w),
		Item::Const(i) => {
			if let syn::Expr::Block(b) = &mut *i.expr {
				for s in b.block.stmts.iter_mut() {
					if let syn::Stmt::Item(x) = s {
						add_where(x, w);
					}
				}
			}
		},
		_ => {},
	}
}
