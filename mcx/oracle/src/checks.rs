use crate::{node::*, sys::*};
use engine::{Check, Run, Scenario};
use pallet_oracle_ocw::types::AssetName;
use parity_scale_codec::Encode;
use std::collections::BTreeMap;
use Ans::*;
use Src::*;

pub const CHECKS: &[Check] = &[
	Check { property: "O01", run: o01 },
	Check { property: "O02", run: o02 },
	Check { property: "O03", run: o03 },
	Check { property: "O04", run: o04 },
];

fn go(run: &mut Run, name: &str, cfg: Cfg, quick: usize, thorough: usize) {
	let depth = if run.thorough { thorough } else { quick };
	run.scenario(Scenario { name: name.into(), sys: Sys { cfg }, prefix: vec![], depth });
}
fn base() -> Cfg {
	Cfg {
		interval: 10,
		window: 3,
		start: 18,
		end: 60,
		steps: vec![1],
		keys: vec![vec![1]],
		pool: vec![true],
		stops: vec![Stop::Never],
		..Default::default()
	}
}
/// everybody answers, but for some assets
fn all_but(missing: &[Asset], set: u8) -> Answers {
	let mut v = vec![];
	for a in 0..4 {
		if !missing.contains(&a) {
			v.extend(sources(a).iter().map(|s| (*s, a, Good(set))));
		}
	}
	v
}
/// All ways to answer for an asset.
fn every(a: Asset, with: impl Fn(Src) -> Vec<Ans>) -> Vec<Answers> {
	let mut out: Vec<Answers> = vec![vec![]];
	for s in sources(a) {
		out = out.into_iter().flat_map(|v| with(*s).into_iter().map(move |x| v.iter().copied().chain([(*s, a, x)]).collect())).collect();
	}
	out
}
fn record(assets: &[AssetName], block: u64) -> Db {
	let m: BTreeMap<AssetName, u64> = assets.iter().map(|a| (*a, block)).collect();
	Db::from([(b"oracle_ocw::last_send".to_vec(), m.encode())])
}
fn o01(run: &mut Run) {
	let mut c = base();
	c.answers = vec![all_but(&[], 1), vec![], vec![(Kraken, 2, Good(0))], all_but(&[3, 0], 2)];
	c.pool = vec![true, false];
	c.steps = vec![1, 2];
	go(run, "three-of-ten", c.clone(), 10, 16);
	c.start = 8;
	c.steps = vec![1, 9];
	c.pool = vec![true];
	go(run, "from-the-first-interval", c.clone(), 9, 12);
	for (i, w) in [(10, 5), (10, 1), (50, 5), (4, 2), (3, 1)] {
		let mut c = c.clone();
		c.interval = i;
		c.window = w;
		c.start = 2 * i - 1;
		c.end = 5 * i;
		c.steps = vec![1, i - w];
		go(run, &format!("{w}-of-{i}"), c, 9, 12);
	}
	// what older versions left behind
	for (n, db) in [
		("no-plmc", record(&[AssetName::USDT, AssetName::USDC, AssetName::DOT], 10)),
		("everything", record(&[AssetName::USDT, AssetName::USDC, AssetName::DOT, AssetName::PLMC], 11)),
		("unreadable", Db::from([(b"oracle_ocw::last_send".to_vec(), vec![9, 9])])),
	] {
		let mut c = c.clone();
		c.db = db;
		c.start = 19;
		c.steps = vec![1];
		go(run, &format!("record-of-{n}"), c, 10, 14);
	}
}
fn o02(run: &mut Run) {
	for (a, name) in [(0, "usdt"), (1, "usdc"), (2, "dot"), (3, "plmc")] {
		let mut c = base();
		c.start = 19;
				c.answers = every(a, |s| {
			let mut v: Vec<Ans> = (0..4).map(Good).collect();
			v.push(None);
			if matches!(s, Kraken | Coinbase) {
				v.push(Longer(1));
				v.push(Longer(3));
			}
			v
		});
		go(run, name, c, 1, 1);
	}
	// several at once, each with its own
	let mut c = base();
	c.start = 19;
	for sets in 0..81u32 {
		let of = |a: usize| (sets / 3u32.pow(a as u32) % 3) as u8;
		c.answers.push((0..4).flat_map(|a| sources(a).iter().map(move |s| (*s, a, Good((of(a) + *s as u8) % 4)))).collect());
	}
	go(run, "all-assets", c, 1, 1);
}
fn useless(s: Src) -> Vec<Ans> {
	let mut v = vec![None, Unsent, Broken, Code(500), Code(404), Code(301), Text, Binary, Shape, Empty, Idle, BadNumber(0), BadNumber(7), Cut];
	// an answer with fewer candles than asked for; the other two take what there is
	if !matches!(s, Kraken | Xt) {
		v.push(Short);
	}
	v
}
fn o03(run: &mut Run) {
	for (a, name) in [(3, "plmc"), (1, "usdc"), (2, "dot")] {
		let mut c = base();
		c.start = 19;
		c.answers = every(a, |s| {
			let mut v = useless(s);
			if a == 2 && !run.thorough {
				v.retain(|x| !matches!(x, Code(404 | 301) | Empty));
			}
			v.push(Good(s as u8 % 3));
			v
		});
		go(run, name, c, 1, 1);
	}
	// an asset nobody knows the price of does not hold up the others
	let mut c = base();
	c.start = 19;
	for a in 0..4 {
		for x in useless(Bitfinex) {
			let mut v = all_but(&[a], 1);
			v.extend(sources(a).iter().filter(|s| x != Short || !matches!(s, Kraken | Xt)).map(|s| (*s, a, x)));
			c.answers.push(v);
		}
	}
	c.answers.push(all_but(&[], 1));
	go(run, "one-without", c, 2, 3);
}
fn o04(run: &mut Run) {
	let mut c = base();
	c.answers = vec![all_but(&[], 1), all_but(&[1, 3], 0)];
	c.keys = vec![vec![1], vec![], vec![3], vec![3, 1], vec![1, 3], vec![4, 3, 2, 5], vec![2, 1], vec![3, 4]];
	c.pool = vec![true, false];
	c.steps = vec![1, 7];
	go(run, "keys", c, 7, 10);
	let mut c = base();
	c.answers = vec![all_but(&[], 1), vec![], all_but(&[1, 3], 0)];
	c.stops = vec![Stop::Never, Stop::BeforeSubmit, Stop::AfterSubmit];
	for k in 1..=6 {
		c.stops.push(Stop::AtWait(k));
	}
	c.window = 4;
	c.steps = vec![1];
	go(run, "killed", c.clone(), 12, 16);
	c.interval = 3;
	c.window = 1;
	c.start = 29;
	go(run, "killed-and-later", c.clone(), 12, 16);
	let mut c = base();
	c.answers = vec![all_but(&[], 1), vec![], all_but(&[1, 3], 0)];
	c.stops = vec![Stop::Never];
	for n in 20..=23 {
		for k in 1..=6 {
			c.stops.push(Stop::OtherAtWait(k, n));
		}
	}
	c.end = 23;
	c.start = 19;
	go(run, "two-at-a-time", c, 4, 4);
}
