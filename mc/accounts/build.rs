//! Writes out every name of the enumerated alphabet, so that the macro expands all of them.
use std::{collections::BTreeSet, fmt::Write};
fn main() {
	println!("cargo:rerun-if-changed=build.rs");
	let mut names: BTreeSet<String> = BTreeSet::new();
	let upper: Vec<char> = ('A'..='Z').collect();
	// all of one and two characters
	for a in &upper {
		names.insert(format!("{a}"));
		for b in upper.iter().chain(['_', '0', '1', '9'].iter()) {
			names.insert(format!("{a}{b}"));
		}
	}
	// all of three and four characters over a small alphabet
	for n in 3..=4 {
		for k in 0..4usize.pow(n) {
			let s: String = (0..n).map(|i| ['A', 'B', '_', '1'][k / 4usize.pow(i) % 4]).collect();
			if s.starts_with(['A', 'B']) {
				names.insert(s);
			}
		}
	}
	// all orders of five letters
	fn perm(pre: String, rest: Vec<char>, out: &mut BTreeSet<String>) {
		if rest.is_empty() {
			out.insert(pre);
			return;
		}
		for i in 0..rest.len() {
			let mut r = rest.clone();
			let c = r.remove(i);
			perm(format!("{pre}{c}"), r, out);
		}
	}
	perm(String::new(), "ALICE".chars().collect(), &mut names);
	// every length up to the size of an account id, and single differences at every position
	for n in 1..=32usize {
		names.insert("A".repeat(n));
		for i in 0..n {
			let mut v: Vec<char> = "A".repeat(n).chars().collect();
			v[i] = 'B';
			names.insert(v.into_iter().collect());
		}
	}
	let mut code = String::new();
	let list: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
	// keywords and single underscores are not names
	writeln!(code, "macros::generate_accounts!({});", list.join(", ")).unwrap();
	writeln!(code, "pub const ALL: &[(&str, [u8; 32])] = &[").unwrap();
	for n in &list {
		writeln!(code, "(\"{n}\", {n}),").unwrap();
	}
	writeln!(code, "];").unwrap();
	// each call stands alone: the same name gives the same account in another call
	let alone = ["ALICE", "BOB", "A", "AB", "BA", "ELICA"];
	for n in alone {
		writeln!(code, "pub mod alone_{} {{ macros::generate_accounts!({n}); pub const ID: [u8; 32] = {n}; }}", n.to_lowercase()).unwrap();
	}
	writeln!(code, "pub const ALONE: &[(&str, [u8; 32])] = &[").unwrap();
	for n in alone {
		writeln!(code, "(\"{n}\", alone_{}::ID),", n.to_lowercase()).unwrap();
	}
	writeln!(code, "];").unwrap();
	std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("names.rs"), code).unwrap();
}
