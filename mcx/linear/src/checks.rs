use crate::sys::*;
use engine::{Check, Run, Scenario};
use Reason::*;

pub const CHECKS: &[Check] = &[
	Check { property: "L01", run: l01 },
	Check { property: "L02", run: l02 },
	Check { property: "L03", run: l03 },
	Check { property: "L04", run: l04 },
	Check { property: "L05", run: l05 },
];

fn go(run: &mut Run, name: &str, cfg: Cfg, quick: usize, thorough: usize) {
	from(run, name, cfg, vec![], quick, thorough)
}
fn from(run: &mut Run, name: &str, cfg: Cfg, prefix: Vec<Op>, quick: usize, thorough: usize) {
	let depth = if run.thorough { thorough } else { quick };
	run.scenario(Scenario { name: name.into(), sys: Sys { cfg }, prefix, depth });
}
fn base() -> Cfg {
	Cfg { next: vec![1, 3], max_now: 24, free: 400, most: 3, ..Default::default() }
}
/// so many schedules of each kind, some of which have ended when the history begins
fn many(n: u64) -> (Cfg, Vec<Op>) {
	let mut c = base();
	c.free = 2000;
	c.most = MAX + 1;
	c.max_now = 60;
	c.next = vec![1, 12];
	let mut p: Vec<Op> = (0..n)
		.map(|k| {
			let s = (10 + (k as u128 * 7) % 31, 1 + (k as u128 * 5) % 6, k * 3 % 17);
			if k % 2 == 0 {
				Op::Bond(WHO, s, A)
			} else {
				Op::Transfer(FUNDER, WHO, (s.0, s.1, s.2 + 2), A)
			}
		})
		.collect();
	p.push(Op::Next(6));
	(c, p)
}
fn l01(run: &mut Run) {
	let (mut c, p) = many(16);
	c.vest = vec![(WHO, A)];
	c.all = true;
	c.others = true;
	c.transfers = vec![(FUNDER, WHO, (50, 4, 9), A), (FUNDER, WHO, (30, 2, 30), A)];
	c.bonds = vec![(WHO, (20, 20, 3), A)];
	from(run, "many-schedules", c, p, 9, 11);
	let mut c = base();
	// even, uneven, future, at once, begun in the past
	c.transfers = vec![(FUNDER, WHO, (20, 5, 1), A), (FUNDER, WHO, (17, 3, 4), A)];
	c.bonds = vec![(WHO, (30, 7, 6), A), (WHO, (9, 20, 3), A), (WHO, (12, 6, 0), A)];
	c.vest = vec![(WHO, A)];
	go(run, "one-reason", c, 11, 13);
	// amounts per block near the largest number
	let mut c = base();
	c.bonds = vec![(WHO, (30, u128::MAX, 1), A), (WHO, (20, u128::MAX / 2, 2), A), (WHO, (12, u128::MAX / 7, 0), A)];
	c.vest = vec![(WHO, A)];
	c.all = true;
	go(run, "everything-at-once", c, 10, 12);
	let mut c = base();
	c.transfers = vec![(FUNDER, WHO, (20, 5, 1), A), (FUNDER, WHO, (17, 3, 4), B), (WHO, OTHER, (8, 2, 2), A)];
	c.bonds = vec![(WHO, (12, 3, 3), B), (OTHER, (10, 9, 0), A)];
	c.vest = vec![(WHO, A), (WHO, B), (OTHER, A)];
	c.others = true;
	c.all = true;
	go(run, "two-reasons", c, 9, 11);
}
fn l02(run: &mut Run) {
	let mut c = base();
	c.transfers =
		vec![(FUNDER, WHO, (20, 5, 1), A), (FUNDER, WHO, (17, 3, 4), A), (FUNDER, WHO, (30, 7, 6), A), (FUNDER, WHO, (5, 2, 9), A)];
	c.vest = vec![(WHO, A)];
	c.merge = vec![(WHO, 0, 1, A), (WHO, 1, 0, A), (WHO, 1, 2, A), (WHO, 0, 2, A), (WHO, 1, 1, A), (WHO, 0, 3, A)];
	go(run, "merges", c.clone(), 10, 12);
	c.transfers = vec![(FUNDER, WHO, (3, 1, 1), A), (FUNDER, WHO, (10, 1, 2), A), (FUNDER, WHO, (4, 9, 8), B)];
	c.merge = vec![(WHO, 0, 1, A), (WHO, 0, 1, B), (WHO, 2, 0, A)];
	c.bonds = vec![(WHO, (6, 2, 0), A)];
	go(run, "small", c, 10, 12);
	let (mut c, p) = many(18);
	c.vest = vec![(WHO, A)];
	c.merge = vec![(WHO, 0, 17, A), (WHO, 16, 3, A), (WHO, 15, 16, A), (WHO, 9, 9, A), (WHO, 4, 18, A), (WHO, 0, 1, A)];
	c.bonds = vec![(WHO, (20, 2, 3), A)];
	from(run, "merges-of-many", c, p, 8, 10);
}
fn l03(run: &mut Run) {
	let mut c = base();
	c.free = 40;
	c.transfers = vec![
		(FUNDER, WHO, (20, 5, 1), A),
		(FUNDER, WHO, (39, 3, 4), A),
		(FUNDER, WHO, (41, 3, 4), A),
		(WHO, OTHER, (2, 1, 1), A),
		(WHO, OTHER, (3, 1, 5), A),
		(WHO, OTHER, (5, 0, 5), B),
		(WHO, WHO, (6, 2, 2), B),
	];
	c.forced = vec![(OTHER, FUNDER, (7, 2, 3), A), (OTHER, FUNDER, (45, 2, 3), A)];
	c.bonds = vec![(WHO, (4, 0, 2), A), (WHO, (4, 4, 9), A)];
	c.vest = vec![(WHO, A)];
	c.next = vec![2];
	go(run, "transfers", c, 8, 10);
	let mut c = base();
	c.free = 40;
	c.bonds = vec![(WHO, (4, 1, 2), A), (WHO, (5, 2, 9), A), (WHO, (3, 9, 0), A), (WHO, (3, 1, 4), B)];
	c.transfers = vec![(OTHER, WHO, (4, 1, 3), A)];
	c.vest = vec![(WHO, A)];
	c.most = MAX + 1;
	let p = (0..MAX - 2).map(|_| Op::Bond(WHO, (1, 1, 30), A)).collect();
	from(run, "number-of-schedules", c, p, 10, 12);
	let (mut c, p) = many(19);
	c.bonds = vec![(WHO, (20, 2, 3), A), (WHO, (20, 2, 3), B)];
	c.transfers = vec![(FUNDER, WHO, (17, 3, 4), A), (FUNDER, WHO, (17, 30, 4), A)];
	c.forced = vec![(OTHER, WHO, (7, 2, 3), A)];
	c.vest = vec![(WHO, A)];
	from(run, "more-than-fit", c, p, 8, 10);
}
fn l04(run: &mut Run) {
	let mut c = base();
	c.transfers = vec![(FUNDER, WHO, (20, 5, 1), A), (FUNDER, WHO, (17, 3, 4), A), (FUNDER, WHO, (30, 7, 6), B)];
	c.bonds = vec![(WHO, (8, 4, 2), A)];
	c.vest = vec![(WHO, A)];
	c.remove = vec![(WHO, 0, A), (WHO, 1, A), (WHO, 2, A), (WHO, 0, B)];
	c.remove_all = vec![(WHO, A), (WHO, B)];
	go(run, "removals", c, 10, 11);
	let (mut c, p) = many(18);
	c.vest = vec![(WHO, A)];
	c.remove = vec![(WHO, 0, A), (WHO, 8, A), (WHO, 16, A), (WHO, 17, A), (WHO, 18, A)];
	c.remove_all = vec![(WHO, A)];
	c.bonds = vec![(WHO, (20, 2, 3), A)];
	from(run, "removals-from-many", c, p, 8, 10);
}
fn l05(run: &mut Run) {
	let mut c = base();
	c.bonds = vec![(WHO, (20, 5, 1), A), (WHO, (9, 20, 3), B)];
	c.extra = vec![(WHO, 50, A), (WHO, 7, B)];
	c.transfers = vec![(OTHER, WHO, (4, 2, 2), B)];
	c.vest = vec![(WHO, A), (WHO, B)];
	go(run, "other-holds", c, 10, 12);
}
