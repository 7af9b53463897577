//! `paste!`-like identifier concatenation: [< a b c >]
use proc_macro::*;
fn walk(ts: TokenStream) -> TokenStream {
	ts.into_iter()
		.map(|t| match t {
			TokenTree::Group(g) => {
				if g.delimiter() == Delimiter::Bracket {
					let v: Vec<TokenTree> = g.stream().into_iter().collect();
					if v.len() >= 3 && v[0].to_string() == "<" && v[v.len() - 1].to_string() == ">" {
						let mut s = String::new();
						let mut span = Span::call_site();
						let mut i = 1;
						while i < v.len() - 1 {
							let x = v[i].to_string();
							if x == ":" {
								let m = v[i + 1].to_string();
								i += 2;
								if m == "lower" { s = s.to_lowercase() } else if m == "upper" { s = s.to_uppercase() }
								continue;
							}
							if i == 1 { span = v[i].span() }
							s.push_str(x.trim_matches('"'));
							i += 1;
						}
						return TokenTree::Ident(Ident::new(&s, span));
					}
				}
				let mut n = Group::new(g.delimiter(), walk(g.stream()));
				n.set_span(g.span());
				TokenTree::Group(n)
			},
			t => t,
		})
		.collect()
}
#[proc_macro]
pub fn paste(ts: TokenStream) -> TokenStream { walk(ts) }
#[proc_macro]
pub fn item(ts: TokenStream) -> TokenStream { walk(ts) }
