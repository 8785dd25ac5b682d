//! Every account name of a finite alphabet through the real macro.
use engine::{Check, Enumeration, Run};
use std::collections::BTreeMap;

#[allow(dead_code)]
mod gen {
	include!(concat!(env!("OUT_DIR"), "/names.rs"));
}

const CHECKS: &[Check] = &[Check { property: "M01", run: m01 }];

fn m01(run: &mut Run) {
	let mut violation = None;
	let mut ids: BTreeMap<[u8; 32], &str> = BTreeMap::new();
	let names = gen::names();
	let mut bad = |s: String| {
		if violation.is_none() {
			violation = Some(s)
		}
	};
	for (n, id) in gen::ALL {
		if let Some(o) = ids.insert(*id, n) {
			bad(format!("names {o} and {n} give the same account {id:?}"));
		}
		if *id == [0; 32] {
			bad(format!("{n} gives the zero account"));
		}
		match names.get(id) {
			Some(x) if x == n => {},
			other => bad(format!("the account of {n} is looked up as {other:?}")),
		}
	}
	if names.len() != gen::ALL.len() {
		bad(format!("{} names can be looked up, {} were declared", names.len(), gen::ALL.len()));
	}
	let all: BTreeMap<&str, [u8; 32]> = gen::ALL.iter().copied().collect();
	for (n, id) in gen::ALONE {
		match all.get(n) {
			Some(x) if x == id => {},
			Some(x) => bad(format!("{n} is {id:?} when declared alone and {x:?} among others")),
			None => {},
		}
	}
	run.enumerate(Enumeration {
		name: "names".into(),
		evaluated: gen::ALL.len() as u64,
		nontrivial: ids.len() as u64,
		rule: "all names of one and two characters, three and four over {A,B,_,1}, the permutations of ALICE, and for every length up to 32 the names that differ in one position; non-trivial: distinct account".into(),
		samples: gen::ALL.iter().take(3).map(|(n, id)| format!("{n} => {id:?}")).collect(),
		violation,
	});
	run.assume("names of at most 32 characters; longer ones are folded and may collide");
}

fn main() {
	engine::main_with(CHECKS)
}
