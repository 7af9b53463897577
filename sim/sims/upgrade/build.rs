//! What the runtime does when it is upgraded: `AllMigrations` and the modules it names. The helpers beside it, which
//! only their tests use, are left out.
use quote::ToTokens;
use std::fmt::Write;
use syn::*;
fn main() {
	let root = "/repo/runtime/src/migrations";
	println!("cargo:rerun-if-changed={root}");
	println!("cargo:rerun-if-changed=build.rs");
	let f = parse_file(&std::fs::read_to_string(format!("{root}/mod.rs")).unwrap()).unwrap();
	let mut o = String::from("use frame_support::{traits::OnRuntimeUpgrade, weights::Weight};\npub struct Value;\n");
	for i in &f.items {
		let s = i.to_token_stream().to_string();
		if s.contains("cfg (test)") {
			continue;
		}
		match i {
			Item::Mod(m) if m.content.is_none() => {
				let n = &m.ident;
				let p = [format!("{root}/{n}.rs"), format!("{root}/{n}/mod.rs")].into_iter().find(|p| std::path::Path::new(p).exists()).unwrap();
				writeln!(o, "#[path = \"{p}\"] pub mod {n};").unwrap();
			},
			Item::Struct(x) if x.ident != "Value" && x.ident != "Map" => writeln!(o, "{s}").unwrap(),
			Item::Impl(x) if x.trait_.is_some() => writeln!(o, "{s}").unwrap(),
			_ => {},
		}
	}
	std::fs::write(format!("{}/migrations.rs", std::env::var("OUT_DIR").unwrap()), o).unwrap();
}
