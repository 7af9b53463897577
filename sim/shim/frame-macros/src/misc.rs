use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote};
use syn::*;

pub fn hex(i: TS) -> TS {
	let mut s = String::new();
	for t in i {
		s.push_str(t.to_string().trim_matches('"'));
	}
	let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
	let bytes = (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).expect("hex"));
	quote!([#(#bytes),*])
}

pub fn transactional(i: TS) -> Result<TS> {
	let f: ItemFn = parse2(i)?;
	let ItemFn { attrs, vis, sig, block } = f;
	Ok(quote! {
		#(#attrs)* #vis #sig {
			::frame_support::storage::with_transaction(|| {
				let r = (|| #block)();
				if r.is_ok() {
					::frame_support::storage::TransactionOutcome::Commit(r)
				} else {
					::frame_support::storage::TransactionOutcome::Rollback(r)
				}
			})
		}
	})
}

/// `type X<T: Config> = StorageValue<Prefix, V, ..>`
pub fn storage_alias(i: TS) -> Result<TS> {
	let it: ItemType = parse2(i)?;
	let ItemType { attrs, vis, ident, generics, ty, .. } = it;
	let mut ty = match *ty {
		Type::Path(p) => p,
		_ => panic!("storage_alias"),
	};
	let seg = ty.path.segments.last_mut().unwrap();
	let args = match &mut seg.arguments {
		PathArguments::AngleBracketed(a) => a,
		_ => panic!("storage_alias args"),
	};
	let first = args.args.first().cloned().unwrap();
	let pname = format_ident!("__AliasPrefixFor{}", ident);
	let name = ident.to_string();
	let (ig, tg, _) = generics.split_for_impl();
	let params: Vec<Ident> = generics.type_params().map(|p| p.ident.clone()).collect();
	let (prefix_expr, uses_t) = match &first {
		GenericArgument::Type(Type::Path(p)) if p.path.get_ident().is_some() && p.path.segments[0].arguments.is_empty() => {
			let n = p.path.get_ident().unwrap().to_string();
			(quote!(#n), false)
		},
		GenericArgument::Type(t) => (quote!(<#t as ::frame_support::traits::PalletInfoAccess>::name()), true),
		_ => panic!("prefix"),
	};
	let _ = uses_t;
	args.args[0] = parse_quote!(#pname #tg);
	if ty.path.segments.len() == 1 {
		let seg = ty.path.segments[0].clone();
		ty = parse_quote!(::frame_support::storage::types::#seg);
	}
	let ty_params = params.iter();
	Ok(quote! {
		#[allow(type_alias_bounds, dead_code)]
		#(#attrs)* #vis type #ident #generics = #ty;
		#[allow(dead_code)]
		#vis struct #pname #ig (core::marker::PhantomData<(#(#ty_params,)*)>);
		impl #ig ::frame_support::traits::StorageInstance for #pname #tg {
			fn pallet_prefix() -> &'static str { #prefix_expr }
			const STORAGE_PREFIX: &'static str = #name;
		}
	})
}

#[derive(Clone, Copy, PartialEq)]
pub enum D {
	Debug,
	Clone,
	PartialEq,
	Eq,
	Default,
}

fn names(f: &Fields) -> Vec<TS> {
	f.iter()
		.enumerate()
		.map(|(i, f)| match &f.ident {
			Some(n) => quote!(#n),
			None => {
				let i = Index::from(i);
				quote!(#i)
			},
		})
		.collect()
}

pub fn derive(i: TS, d: D, bound: bool) -> Result<TS> {
	let mut input: DeriveInput = parse2(i)?;
	if bound {
		for p in input.generics.type_params_mut() {
			p.bounds.push(parse_quote!(::core::fmt::Debug));
		}
	}
	let name = &input.ident;
	let sname = name.to_string();
	let (ig, tg, wc) = input.generics.split_for_impl();
	let wc = quote!(#wc);
	let variants: Vec<(TS, String, Fields, bool)> = match &input.data {
		Data::Struct(s) => vec![(quote!(#name), sname.clone(), s.fields.clone(), true)],
		Data::Enum(e) => e
			.variants
			.iter()
			.map(|v| {
				let n = &v.ident;
				let def = v.attrs.iter().any(|a| a.path().is_ident("default"));
				(quote!(#name::#n), n.to_string(), v.fields.clone(), def)
			})
			.collect(),
		_ => panic!("union"),
	};
	let body = match d {
		D::Debug => {
			let arms = variants.iter().map(|(p, n, f, _)| {
				let ns = names(f);
				let ids: Vec<_> = (0..ns.len()).map(|i| format_ident!("__a{}", i)).collect();
				let dbg = match f {
					Fields::Named(_) => {
						let ss = ns.iter().map(|t| t.to_string());
						quote!(__f.debug_struct(#n)#(.field(#ss, #ids))*.finish())
					},
					_ if ns.is_empty() => quote!(__f.write_str(#n)),
					_ => quote!(__f.debug_tuple(#n)#(.field(#ids))*.finish()),
				};
				quote!(#p { #(#ns: #ids),* } => #dbg,)
			});
			quote!(impl #ig ::core::fmt::Debug for #name #tg #wc {
				fn fmt(&self, __f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { match self { #(#arms)* #[allow(unreachable_patterns)] _ => ::core::unreachable!() } }
			})
		},
		D::Clone => {
			let arms = variants.iter().map(|(p, _, f, _)| {
				let ns = names(f);
				let ids: Vec<_> = (0..ns.len()).map(|i| format_ident!("__a{}", i)).collect();
				quote!(#p { #(#ns: #ids),* } => #p { #(#ns: ::core::clone::Clone::clone(#ids)),* },)
			});
			quote!(impl #ig ::core::clone::Clone for #name #tg #wc {
				fn clone(&self) -> Self { match self { #(#arms)* #[allow(unreachable_patterns)] _ => ::core::unreachable!() } }
			})
		},
		D::PartialEq => {
			let arms = variants.iter().map(|(p, _, f, _)| {
				let ns = names(f);
				let a: Vec<_> = (0..ns.len()).map(|i| format_ident!("__a{}", i)).collect();
				let b: Vec<_> = (0..ns.len()).map(|i| format_ident!("__b{}", i)).collect();
				quote!((#p { #(#ns: #a),* }, #p { #(#ns: #b),* }) => true #(&& #a == #b)*,)
			});
			quote!(impl #ig ::core::cmp::PartialEq for #name #tg #wc {
				fn eq(&self, __o: &Self) -> bool { match (self, __o) { #(#arms)* #[allow(unreachable_patterns)] _ => false } }
			})
		},
		D::Eq => quote!(impl #ig ::core::cmp::Eq for #name #tg #wc {}),
		D::Default => {
			let v = variants.iter().find(|v| v.3).expect("default variant");
			let (p, f) = (&v.0, &v.2);
			let ns = names(f);
			quote!(impl #ig ::core::default::Default for #name #tg #wc {
				fn default() -> Self { #p { #(#ns: ::core::default::Default::default()),* } }
			})
		},
	};
	Ok(quote!(#[allow(deprecated, unused)] const _: () = { #body };))
}
