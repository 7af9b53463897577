#[proc_macro_derive(TypeInfo, attributes(scale_info, codec))]
pub fn ti(_: proc_macro::TokenStream) -> proc_macro::TokenStream { Default::default() }
