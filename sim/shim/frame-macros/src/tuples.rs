use proc_macro2::*;
use quote::quote;
use syn::*;
use TokenStream as TS;

/// Replace `Tuple` in one repetition.
fn subst(ts: TS, ty: &Ident, idx: usize) -> TS {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let mut out = vec![];
	for (k, t) in v.iter().enumerate() {
		match t {
			TokenTree::Ident(i) if i == "Tuple" => {
				let dot = k > 0 && matches!(&v[k - 1], TokenTree::Punct(p) if p.as_char() == '.');
				if dot {
					out.push(TokenTree::Literal(Literal::usize_unsuffixed(idx)));
				} else {
					out.push(TokenTree::Ident(ty.clone()));
				}
			},
			TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), ty, idx)))),
			x => out.push(x.clone()),
		}
	}
	out.into_iter().collect()
}

fn expand_rep(ts: TS, tys: &[Ident]) -> TS {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let mut out = TS::new();
	let mut k = 0;
	while k < v.len() {
		if let TokenTree::Punct(p) = &v[k] {
			if p.as_char() == '#' {
				if let Some(TokenTree::Group(g)) = v.get(k + 1) {
					if g.delimiter() == Delimiter::Parenthesis {
						let mut sep = TS::new();
						let mut j = k + 2;
						while !matches!(&v[j], TokenTree::Punct(p) if p.as_char() == '*') {
							sep.extend(std::iter::once(v[j].clone()));
							j += 1;
						}
						for (n, t) in tys.iter().enumerate() {
							out.extend(subst(g.stream(), t, n));
							if n + 1 < tys.len() || (sep.to_string() == "," && tys.len() == 1) {
								out.extend(sep.clone());
							}
						}
						k = j + 1;
						continue;
					}
				}
			}
		}
		match &v[k] {
			TokenTree::Group(g) => out.extend(std::iter::once(TokenTree::Group(Group::new(g.delimiter(), expand_rep(g.stream(), tys))))),
			x => out.extend(std::iter::once(x.clone())),
		}
		k += 1;
	}
	out
}

fn walk(ts: TS, tys: &[Ident]) -> TS {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let mut out = TS::new();
	let mut k = 0;
	while k < v.len() {
		if let TokenTree::Ident(i) = &v[k] {
			if i == "for_tuples" {
				if let Some(TokenTree::Group(g)) = v.get(k + 2) {
					out.extend(expand_rep(g.stream(), tys));
					k += 3;
					continue;
				}
			}
		}
		match &v[k] {
			TokenTree::Group(g) => out.extend(std::iter::once(TokenTree::Group(Group::new(g.delimiter(), walk(g.stream(), tys))))),
			x => out.extend(std::iter::once(x.clone())),
		}
		k += 1;
	}
	out
}

pub fn tuples(a: TS, i: TS) -> Result<TS> {
	let nums: Vec<usize> = a.into_iter().filter_map(|t| t.to_string().parse().ok()).collect();
	let (lo, hi) = if nums.len() == 2 { (nums[0], nums[1]) } else { (0, nums[0]) };
	let hi = hi.min(40);
	if let Ok(_t) = parse2::<ItemTrait>(i.clone()) {
		panic!("full-automatic impl_for_tuples unsupported");
	}
	// locate the trait name: `impl Trait for Tuple { .. }` (token level: the body is not plain Rust)
	let toks: Vec<TokenTree> = i.into_iter().collect();
	let ip = toks.iter().position(|t| matches!(t, TokenTree::Ident(i) if i == "impl")).unwrap();
	let fp = toks.iter().position(|t| matches!(t, TokenTree::Ident(i) if i == "for")).unwrap();
	let tr: TS = toks[ip + 1..fp].iter().cloned().collect();
	let attrs: TS = toks[..ip].iter().cloned().collect();
	let body = match toks.last().unwrap() {
		TokenTree::Group(g) => g.stream(),
		_ => panic!("body"),
	};
	let mut out = TS::new();
	for n in lo..=hi {
		let tys: Vec<Ident> = (0..n).map(|k| Ident::new(&format!("TupleElement{k}"), Span::call_site())).collect();
		let b = walk(body.clone(), &tys);
		out.extend(quote!(#attrs #[allow(unused)] impl<#(#tys: #tr),*> #tr for (#(#tys,)*) { #b }));
	}
	Ok(out)
}
