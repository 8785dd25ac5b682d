//! Stand-in for variant_count: the derive for enums without generics.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(VariantCount)]
pub fn variant_count(input: TokenStream) -> TokenStream {
	let mut it = input.into_iter();
	let mut name = String::new();
	while let Some(t) = it.next() {
		match t {
			TokenTree::Ident(i) if i.to_string() == "enum" => name = it.next().unwrap().to_string(),
			TokenTree::Group(g) if !name.is_empty() && g.delimiter() == Delimiter::Brace => {
				let mut count = 0;
				let mut pending = false;
				for t in g.stream() {
					match t {
						TokenTree::Punct(p) if p.as_char() == ',' => pending = false,
						TokenTree::Punct(p) if p.as_char() == '#' => {},
						TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket => {},
						TokenTree::Ident(_) if !pending => {
							pending = true;
							count += 1;
						},
						_ => {},
					}
				}
				return format!("impl {name} {{ pub const VARIANT_COUNT: usize = {count}; }}").parse().unwrap();
			},
			_ => {},
		}
	}
	panic!("not an enum")
}
