//! SCALE codec derives (shim).
use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote};
use syn::visit::Visit;
use syn::*;

struct Attrs {
	compact: bool,
	skip: bool,
	index: Option<Expr>,
}

fn attrs(a: &[Attribute]) -> Attrs {
	let mut r = Attrs { compact: false, skip: false, index: None };
	for at in a {
		if at.path().is_ident("codec") {
			let _ = at.parse_nested_meta(|m| {
				if m.path.is_ident("compact") {
					r.compact = true;
				} else if m.path.is_ident("skip") {
					r.skip = true;
				} else if m.path.is_ident("index") {
					r.index = Some(m.value()?.parse()?);
				} else if m.input.peek(token::Paren) {
					let c;
					parenthesized!(c in m.input);
					let _: TS = c.parse()?;
				} else if m.input.peek(Token![=]) {
					let _: Expr = m.value()?.parse()?;
				}
				Ok(())
			});
		}
	}
	r
}

struct Uses<'a> {
	params: &'a [Ident],
	found: bool,
}
impl<'a> Visit<'a> for Uses<'a> {
	fn visit_ident(&mut self, i: &'a Ident) {
		if self.params.iter().any(|p| p == i) {
			self.found = true;
		}
	}
}

fn uses(ty: &Type, params: &[Ident]) -> bool {
	let s: TS = quote!(#ty);
	fn walk(s: TS, params: &[Ident]) -> bool {
		s.into_iter().any(|t| match t {
			proc_macro2::TokenTree::Ident(i) => params.iter().any(|p| *p == i),
			proc_macro2::TokenTree::Group(g) => walk(g.stream(), params),
			_ => false,
		})
	}
	let _ = Uses { params: &[], found: false };
	walk(s, params)
}

fn has_custom_bound(input: &DeriveInput, tr: &TS) -> bool {
	let tr = tr.to_string().replace(' ', "");
	let n = if tr.ends_with("::Encode") { "encode_bound" } else if tr.ends_with("::Decode") { "decode_bound" } else { return false };
	input.attrs.iter().any(|a| a.path().is_ident("codec") && matches!(&a.meta, Meta::List(l) if l.tokens.to_string().starts_with(n)))
}

fn where_clause(input: &DeriveInput, tr: &TS, compact_tr: &TS) -> (TS, TS, TS) {
	let params: Vec<Ident> = if has_custom_bound(input, tr) { vec![] } else { input.generics.type_params().map(|t| t.ident.clone()).collect() };
	let mut preds: Vec<TS> = vec![];
	let mut do_fields = |fields: &Fields| {
		for f in fields {
			let a = attrs(&f.attrs);
			let ty = &f.ty;
			if a.skip {
				continue;
			}
			if uses(ty, &params) {
				let s = quote!(#ty).to_string();
				if s.contains("PhantomData") {
					continue;
				}
				// avoid infinite recursion on self referential types
				let name = input.ident.to_string();
				if s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == name) {
					continue;
				}
				if a.compact {
					preds.push(quote!(#ty: #compact_tr));
				} else {
					preds.push(quote!(#ty: #tr));
				}
			}
		}
	};
	match &input.data {
		Data::Struct(s) => do_fields(&s.fields),
		Data::Enum(e) => {
			for v in &e.variants {
				if !attrs(&v.attrs).skip {
					do_fields(&v.fields)
				}
			}
		},
		_ => {},
	}
	let (ig, tg, wc) = input.generics.split_for_impl();
	let existing: Vec<TS> = wc.map(|w| w.predicates.iter().map(|p| quote!(#p)).collect()).unwrap_or_default();
	let all: Vec<TS> = existing.into_iter().chain(preds).collect();
	(quote!(#ig), quote!(#tg), quote!(where #(#all),*))
}

fn variant_indices(e: &DataEnum) -> Vec<TS> {
	e.variants
		.iter()
		.enumerate()
		.map(|(i, v)| {
			let a = attrs(&v.attrs);
			if let Some(x) = a.index {
				quote!((#x as u8))
			} else if let Some((_, d)) = &v.discriminant {
				quote!((#d as u8))
			} else {
				let i = i as u8;
				quote!(#i)
			}
		})
		.collect()
}

fn pat(fields: &Fields) -> (TS, Vec<Ident>) {
	let ids: Vec<Ident> = (0..fields.len()).map(|i| format_ident!("__f{}", i)).collect();
	let p = match fields {
		Fields::Named(n) => {
			let names: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
			quote!({ #(#names: #ids),* })
		},
		Fields::Unnamed(_) => quote!(( #(#ids),* )),
		Fields::Unit => quote!(),
	};
	(p, ids)
}

fn enc_fields(fields: &Fields, ids: &[Ident]) -> TS {
	let mut out = TS::new();
	for (f, id) in fields.iter().zip(ids) {
		let a = attrs(&f.attrs);
		if a.skip {
			out.extend(quote!(let _ = #id;));
		} else if a.compact {
			out.extend(quote!(::codec::HasCompact::encode_compact_to(#id, __dest);));
		} else {
			out.extend(quote!(::codec::Encode::encode_to(#id, __dest);));
		}
	}
	out
}

#[proc_macro_derive(Encode, attributes(codec))]
pub fn derive_encode(i: TokenStream) -> TokenStream {
	let input = parse_macro_input!(i as DeriveInput);
	let name = &input.ident;
	let (ig, tg, wc) = where_clause(&input, &quote!(::codec::Encode), &quote!(::codec::HasCompact));
	let body = match &input.data {
		Data::Struct(s) => {
			let (p, ids) = pat(&s.fields);
			let e = enc_fields(&s.fields, &ids);
			quote!(let #name #p = self; #e)
		},
		Data::Enum(en) => {
			let idx = variant_indices(en);
			let arms = en.variants.iter().zip(idx).map(|(v, ix)| {
				let vn = &v.ident;
				if attrs(&v.attrs).skip {
					return quote!(#name::#vn { .. } => (),);
				}
				let (p, ids) = pat(&v.fields);
				let e = enc_fields(&v.fields, &ids);
				quote!(#name::#vn #p => { ::codec::Output::push_byte(__dest, #ix); #e },)
			});
			quote!(match self { #(#arms)* _ => () })
		},
		_ => panic!("union"),
	};
	quote! {
		#[allow(unused, deprecated, unreachable_patterns, non_snake_case)]
		const _: () = {
			#[automatically_derived]
			impl #ig ::codec::Encode for #name #tg #wc {
				fn encode_to<__Out: ::codec::Output + ?Sized>(&self, __dest: &mut __Out) { #body }
			}
			#[automatically_derived]
			impl #ig ::codec::EncodeLike for #name #tg #wc {}
		};
	}
	.into()
}

fn dec_fields(path: TS, fields: &Fields) -> TS {
	let vals: Vec<TS> = fields
		.iter()
		.map(|f| {
			let a = attrs(&f.attrs);
			let ty = &f.ty;
			if a.skip {
				quote!(::core::default::Default::default())
			} else if a.compact {
				quote!(<#ty as ::codec::HasCompact>::decode_compact(__input)?)
			} else {
				quote!(<#ty as ::codec::Decode>::decode(__input)?)
			}
		})
		.collect();
	match fields {
		Fields::Named(n) => {
			let names: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
			quote!(#path { #(#names: #vals),* })
		},
		Fields::Unnamed(_) => quote!(#path ( #(#vals),* )),
		Fields::Unit => quote!(#path),
	}
}

#[proc_macro_derive(Decode, attributes(codec))]
pub fn derive_decode(i: TokenStream) -> TokenStream {
	let input = parse_macro_input!(i as DeriveInput);
	let name = &input.ident;
	let (ig, tg, wc) = where_clause(&input, &quote!(::codec::Decode), &quote!(::codec::HasCompact));
	let sname = name.to_string();
	let body = match &input.data {
		Data::Struct(s) => {
			let d = dec_fields(quote!(#name), &s.fields);
			quote!(Ok(#d))
		},
		Data::Enum(en) => {
			let idx = variant_indices(en);
			let arms = en.variants.iter().zip(idx).filter(|(v, _)| !attrs(&v.attrs).skip).map(|(v, ix)| {
				let vn = &v.ident;
				let d = dec_fields(quote!(#name::#vn), &v.fields);
				quote!(__x if __x == #ix => { return Ok(#d); })
			});
			quote!(match ::codec::Input::read_byte(__input)? { #(#arms)* _ => Err(::codec::Error::from(concat!("Could not decode `", #sname, "`, variant doesn't exist"))) })
		},
		_ => panic!("union"),
	};
	quote! {
		#[allow(unused, deprecated, unreachable_patterns, non_snake_case)]
		const _: () = {
			#[automatically_derived]
			impl #ig ::codec::Decode for #name #tg #wc {
				fn decode<__In: ::codec::Input>(__input: &mut __In) -> ::core::result::Result<Self, ::codec::Error> { #body }
			}
		};
	}
	.into()
}

#[proc_macro_derive(MaxEncodedLen, attributes(codec, max_encoded_len_mod))]
pub fn derive_mel(i: TokenStream) -> TokenStream {
	let input = parse_macro_input!(i as DeriveInput);
	let name = &input.ident;
	let (ig, tg, wc) = where_clause(&input, &quote!(::codec::MaxEncodedLen), &quote!(::codec::HasCompact));
	let fsum = |fields: &Fields| {
		let mut t = quote!(0usize);
		for f in fields {
			let a = attrs(&f.attrs);
			let ty = &f.ty;
			if a.skip {
				continue;
			}
			if a.compact {
				t = quote!(#t.saturating_add(17usize));
			} else {
				t = quote!(#t.saturating_add(<#ty as ::codec::MaxEncodedLen>::max_encoded_len()));
			}
		}
		t
	};
	let body = match &input.data {
		Data::Struct(s) => fsum(&s.fields),
		Data::Enum(e) => {
			let v = e.variants.iter().map(|v| fsum(&v.fields));
			quote!({ let mut m = 0usize; #( m = m.max(#v); )* m.saturating_add(1) })
		},
		_ => panic!(),
	};
	quote! {
		const _: () = {
			#[automatically_derived]
			impl #ig ::codec::MaxEncodedLen for #name #tg #wc {
				fn max_encoded_len() -> usize { #body }
			}
		};
	}
	.into()
}

#[proc_macro_derive(CompactAs, attributes(codec))]
pub fn derive_compact_as(i: TokenStream) -> TokenStream {
	let input = parse_macro_input!(i as DeriveInput);
	let name = &input.ident;
	quote!(impl ::codec::HasCompact for #name {
		fn encode_compact_to<O: ::codec::Output + ?Sized>(&self, o: &mut O) { ::codec::HasCompact::encode_compact_to(&self.0, o) }
		fn decode_compact<I: ::codec::Input>(i: &mut I) -> ::core::result::Result<Self, ::codec::Error> { Ok(Self(::codec::HasCompact::decode_compact(i)?)) }
	})
	.into()
}
