use crate::sys::*;
use engine::{Check, Run, Scenario};
use User::*;

pub const CHECKS: &[Check] = &[
	Check { property: "R01", run: r01 },
	Check { property: "R02", run: r02 },
	Check { property: "R03", run: r03 },
];

fn go(run: &mut Run, name: &str, cfg: Cfg, quick: usize, thorough: usize) {
	let depth = if run.thorough { thorough } else { quick };
	run.scenario(Scenario { name: name.into(), sys: Sys { cfg }, prefix: vec![], depth });
}
const P: By = By::Para(POLIMEC);
fn base() -> Cfg {
	let mut keys = vec![];
	for u in [Local(1), Local(2), Polkadot(1), Elsewhere(1), Chain] {
		for t in 0..3 {
			for id in 0..2 {
				keys.push((u, t, id));
			}
		}
	}
	Cfg { stock: 60, keys, max_now: 16, ..Default::default() }
}
/// Every list of these of the given lengths.
fn lists(ms: &[Mig], most: usize) -> Vec<(By, Vec<Mig>)> {
	let mut out: Vec<Vec<Mig>> = vec![vec![]];
	let mut last = out.clone();
	for _ in 0..most {
		last = last.iter().flat_map(|l| ms.iter().map(move |m| l.iter().copied().chain([*m]).collect())).collect();
		out.extend(last.iter().cloned());
	}
	out.into_iter().map(|l| (P, l)).collect()
}
/// Users 1 to 12, each with a bid and a contribution, or an evaluation.
fn crowd(id: u32, n: u8, amount: u128) -> Vec<Mig> {
	(0..n).map(|i| ((Local(i % 12 + 1), 1 + i / 12 % 2, id), amount + i as u128, 1 + i as u64 % 4)).collect()
}
fn crowd_keys() -> Vec<Key> {
	(1..=12).flat_map(|w| (0..3).flat_map(move |t| [0, 1, 65_537].into_iter().map(move |id| (Local(w), t, id)))).collect()
}
fn r01(run: &mut Run) {
	let mut c = base();
	let good = ((Local(1), 1, 0), 12, 4);
	for by in [P, By::Para(POLIMEC + 1), By::Para(0), By::Relay, By::Signed(1), By::Root, By::None] {
		c.batches.push((by, vec![good]));
		c.batches.push((by, vec![]));
		c.batches.push((by, vec![((Local(2), 0, 1), 7, 2), good]));
	}
	go(run, "origins", c, 4, 6);
	// one bad entry undoes the whole batch, wherever it is
	let mut c = base();
	c.batches = lists(
		&[
			((Local(1), 1, 0), 12, 4),
			((Local(2), 2, 0), 9, 1),
			((Elsewhere(1), 1, 0), 5, 1),
			((Chain, 1, 1), 5, 1),
			((Local(3), 1, 0), 1, 1),
			((Local(2), 1, 0), 70, 1),
			((Local(2), 0, 0), 3, 5),
		],
		3,
	);
	go(run, "batches", c, 3, 4);
	// so it does in a long one
	let mut c = base();
	c.stock = 2000;
	c.keys = crowd_keys();
	for bad in [((Chain, 1, 1), 5, 1), ((Local(3), 0, 0), 1900, 1), ((Local(2), 0, 0), 3, 5), ((Local(1), 0, 0), 5, 1)] {
		for at in [0usize, 10, 16, 23] {
			let mut l = crowd(0, 23, 9);
			l.insert(at, bad);
			c.batches.push((P, l));
		}
	}
	c.batches.push((P, crowd(0, 12, 9)));
	go(run, "long-batches", c, 4, 5);
}
fn r02(run: &mut Run) {
	let mut c = base();
	c.batches = lists(
		&[
			((Local(1), 1, 0), 12, 4),
			((Local(1), 1, 1), 6, 1),
			((Local(1), 2, 0), 7, 2),
			((Local(2), 1, 0), 9, 1),
			((Local(1), 1, 0), 13, 2),
			((Polkadot(1), 0, 0), 5, 1),
			((Local(2), 0, 0), 0, 1),
		],
		2,
	);
	c.next = vec![6];
	go(run, "once-each", c.clone(), 5, 6);
	// until the stock is used up, down to the last unit
	c.batches = lists(&[((Local(1), 1, 0), 29, 1), ((Local(2), 1, 0), 29, 2), ((Local(2), 2, 0), 30, 1), ((Local(3), 0, 1), 2, 1), ((Local(3), 0, 0), 1, 1)], 3);
	c.next = vec![];
	go(run, "stock", c, 4, 5);
	// long batches that overlap
	let mut c = base();
	c.stock = 3000;
	c.keys = crowd_keys();
	for (id, n) in [(0, 24), (0, 13), (65_537, 12), (1, 12)] {
		c.batches.push((P, crowd(id, n, 9)));
	}
	let mut l = crowd(1, 12, 9);
	l.extend(crowd(0, 24, 30));
	l.extend(crowd(1, 12, 5));
	c.batches.push((P, l.clone()));
	l.reverse();
	c.batches.push((P, l));
	go(run, "long-batches", c, 5, 6);
}
fn r03(run: &mut Run) {
	let mut c = base();
	c.stock = 300;
	c.rich = vec![(1, 5)];
	c.batches = lists(
		&[
			((Local(1), 1, 0), 12, 4),
			((Local(1), 1, 1), 7, 2),
			((Local(1), 2, 0), 10, 3),
			((Local(1), 0, 0), 5, 1),
			((Local(1), 0, 1), 4, 0),
			((Local(1), 2, 1), 2, 3),
		],
		1,
	);
	c.batches.push((P, vec![((Local(1), 1, 0), 12, 4), ((Local(1), 1, 1), 7, 2)]));
	c.next = vec![1, 3];
	c.vest = vec![1];
	c.spend = vec![(1, 4), (1, 11)];
	go(run, "release", c, 9, 10);
	// amounts and times as in life
	let mut c = base();
	let x = 123_456_789_012_345_678_901_234;
	c.stock = 10 * x;
	c.batches = lists(&[((Local(1), 1, 0), x, 5_256_000), ((Local(1), 1, 1), x / 7, 70_000), ((Local(1), 2, 0), 9_999_999_999, 9_999)], 1);
	c.next = vec![1, 35_000, 70_000, 2_000_000, 4_000_000];
	c.max_now = 8_000_000;
	c.vest = vec![1];
	c.spend = vec![(1, x / 14), (1, x)];
	c.far = vec![35_000, 70_009, 70_010, 70_011, 2_628_010, 5_256_009, 5_256_010, 5_256_011];
	go(run, "amounts-as-in-life", c, 7, 8);
}
