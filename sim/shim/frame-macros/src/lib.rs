//! FRAME proc macros (shim).  Same observable semantics as the polkadot-v1.1.0 macros for the
//! features that the repository uses; metadata is not generated.
use proc_macro::TokenStream;

mod construct;
mod misc;
mod pallet;
mod tuples;

#[proc_macro_attribute]
pub fn pallet(a: TokenStream, i: TokenStream) -> TokenStream {
	pallet::pallet(a.into(), i.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro]
pub fn construct_runtime(i: TokenStream) -> TokenStream {
	construct::construct(i.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_attribute]
pub fn transactional(_a: TokenStream, i: TokenStream) -> TokenStream {
	misc::transactional(i.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_attribute]
pub fn require_transactional(_a: TokenStream, i: TokenStream) -> TokenStream {
	i
}
#[proc_macro_attribute]
pub fn storage_alias(_a: TokenStream, i: TokenStream) -> TokenStream {
	misc::storage_alias(i.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_attribute]
pub fn impl_for_tuples(a: TokenStream, i: TokenStream) -> TokenStream {
	tuples::tuples(a.into(), i.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_derive(RuntimeDebug)]
pub fn runtime_debug(i: TokenStream) -> TokenStream {
	misc::derive(i.into(), misc::D::Debug, true).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn runtime_debug_nb(i: TokenStream) -> TokenStream {
	misc::derive(i.into(), misc::D::Debug, false).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_derive(DebugNoBound)]
pub fn debug_nb(i: TokenStream) -> TokenStream {
	misc::derive(i.into(), misc::D::Debug, false).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_derive(CloneNoBound)]
pub fn clone_nb(i: TokenStream) -> TokenStream {
	misc::derive(i.into(), misc::D::Clone, false).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_derive(PartialEqNoBound)]
pub fn partial_eq_nb(i: TokenStream) -> TokenStream {
	misc::derive(i.into(), misc::D::PartialEq, false).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_derive(EqNoBound)]
pub fn eq_nb(i: TokenStream) -> TokenStream {
	misc::derive(i.into(), misc::D::Eq, false).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_derive(DefaultNoBound, attributes(default))]
pub fn default_nb(i: TokenStream) -> TokenStream {
	misc::derive(i.into(), misc::D::Default, false).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_derive(PalletError, attributes(codec))]
pub fn pallet_error(_i: TokenStream) -> TokenStream {
	TokenStream::new()
}
#[proc_macro]
pub fn hex(i: TokenStream) -> TokenStream {
	misc::hex(i.into()).into()
}

#[proc_macro]
pub fn construct_next(i: TokenStream) -> TokenStream {
	construct::next(i.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
/// jsonrpsee's `#[rpc]`: the server side of the trait
#[proc_macro_attribute]
pub fn rpc(_a: TokenStream, i: TokenStream) -> TokenStream {
	let mut t = syn::parse_macro_input!(i as syn::ItemTrait);
	t.ident = quote::format_ident!("{}Server", t.ident);
	for it in t.items.iter_mut() {
		if let syn::TraitItem::Fn(f) = it {
			if f.attrs.iter().any(|a| a.path().is_ident("subscription")) {
				f.sig.inputs.push(syn::parse_quote!(sink: ::jsonrpsee::SubscriptionSink));
				f.sig.output = syn::parse_quote!(-> Result<(), ::jsonrpsee::types::SubscriptionEmptyError>);
			}
			f.attrs.retain(|a| !a.path().is_ident("subscription") && !a.path().is_ident("method"));
		}
	}
	quote::quote!(#t).into()
}
#[proc_macro_attribute]
pub fn identity(_a: TokenStream, i: TokenStream) -> TokenStream {
	i
}
