use crate::sys::*;
use engine::{Check, Run, Scenario};

pub const CHECKS: &[Check] = &[
	Check { property: "V01", run: v01 },
	Check { property: "V02", run: v02 },
	Check { property: "V03", run: v03 },
];

fn go(run: &mut Run, name: &str, cfg: Cfg, quick: usize, thorough: usize) {
	from(run, name, cfg, vec![], quick, thorough)
}
fn from(run: &mut Run, name: &str, cfg: Cfg, prefix: Vec<Op>, quick: usize, thorough: usize) {
	let depth = if run.thorough { thorough } else { quick };
	run.scenario(Scenario { name: name.into(), sys: Sys { cfg }, prefix, depth });
}
/// schedules that have begun, that begin later, that do not divide evenly, that end at once
fn base() -> Cfg {
	Cfg {
		free: 50,
		next: vec![1, 4],
		grants: vec![(WHO, (1000, 100, 1)), (WHO, (700, 350, 3)), (WHO, (907, 70, 6)), (WHO, (60, 90, 9))],
		hold: vec![(WHO, 130)],
		vest: vec![WHO],
		slash: vec![(WHO, 30), (WHO, 65), (WHO, 130)],
		told: vec![(WHO, 500), (WHO, 0)],
		max_now: 22,
		max_slashes: 3,
		max_schedules: 3,
		start: 0,
		..Default::default()
	}
}
fn all(run: &mut Run) {
	go(run, "large-amounts", base(), 8, 10);
	// amounts of the order of the number of blocks: rounding shows
	let mut cfg = base();
	cfg.grants = vec![(WHO, (12, 1, 1)), (WHO, (20, 3, 2)), (WHO, (9, 1, 7)), (WHO, (1, 1, 1))];
	cfg.hold = vec![(WHO, 5), (WHO, 20)];
	cfg.slash = vec![(WHO, 1), (WHO, 5), (WHO, 11)];
	cfg.told = vec![];
	go(run, "small-amounts", cfg, 8, 10);
	// as many schedules as fit
	let mut cfg = base();
	let grants = [(1000, 100, 1), (700, 350, 3), (907, 70, 6), (60, 90, 9), (400, 50, 2), (81, 9, 4), (333, 100, 12), (500, 20, 1)];
	let mut prefix: Vec<Op> = grants.iter().map(|g| Op::Grant(WHO, *g)).collect();
	prefix.push(Op::Hold(WHO, 400));
	cfg.next = vec![1, 3, 7];
	cfg.grants = vec![(WHO, (88, 8, 11))];
	cfg.max_schedules = 8;
	from(run, "eight-schedules", cfg, prefix, 6, 8);
	// as many schedules as the runtime allows
	let mut cfg = base();
	let mut prefix: Vec<Op> = (0..27u64).map(|k| {
		let (p, d) = (7 + k as u128 % 5, 12 + 11 * (k % 9));
		Op::Grant(WHO, (p * d as u128 + k as u128 % 3, p, 1 + 5 * (k % 7)))
	}).collect();
	prefix.push(Op::Hold(WHO, 3000));
	cfg.next = vec![1, 9, 40];
	cfg.max_now = 130;
	cfg.grants = vec![(WHO, (880, 8, 11))];
	cfg.slash = vec![(WHO, 30), (WHO, 150), (WHO, 700)];
	cfg.max_schedules = 28;
	from(run, "twenty-eight-schedules", cfg, prefix, 6, 8);
	// a clock that is ahead of the number of the block, and another lock on the same funds
	let mut cfg = base();
	cfg.ahead = 1000;
	cfg.start = 1001;
	cfg.max_now = 1022;
	cfg.also_locked = 400;
	for g in cfg.grants.iter_mut() {
		g.1.2 += 1000;
	}
	go(run, "a-clock-of-its-own", cfg, 7, 9);
	// amounts and blocks beyond 64 and 32 bits
	// (an unlocking of more than 2^128 / 10^18 in a block is beyond the fixed-point type)
	let big = 1u128 << 66;
	let at = 1u64 << 33;
	let cfg = Cfg {
		free: big,
		next: vec![1, 50],
		grants: vec![(WHO, (100 * big, big, at)), (WHO, (7 * big, 5 * big, at + 40)), (WHO, (big + 1, big / 9, at - 5))],
		hold: vec![(WHO, 30 * big)],
		vest: vec![WHO],
		slash: vec![(WHO, 3 * big), (WHO, 10 * big + 1)],
		told: vec![(WHO, big)],
		max_now: at + 120,
		max_slashes: 3,
		max_schedules: 3,
		start: at,
		..Default::default()
	};
	go(run, "beyond-64-bits", cfg, 7, 10);
}
fn v01(run: &mut Run) {
	all(run);
}
fn v02(run: &mut Run) {
	all(run);
	// realistic magnitudes: ten decimals, long schedules
	let cfg = Cfg {
		free: 10u128.pow(12),
		next: vec![100_000, 1_000_001],
		grants: vec![
			(WHO, (10u128.pow(16), 10u128.pow(10), 1)),
			(WHO, (10u128.pow(16) + 7, 3 * 10u128.pow(9), 1_000_000)),
		],
		hold: vec![(WHO, 3 * 10u128.pow(15))],
		vest: vec![WHO],
		slash: vec![(WHO, 10u128.pow(15)), (WHO, 1)],
		told: vec![],
		max_now: 2_000_000,
		max_slashes: 2,
		max_schedules: 3,
		start: 0,
		..Default::default()
	};
	go(run, "real-magnitudes", cfg, 8, 10);
}
fn v03(run: &mut Run) {
	let mut cfg = base();
	cfg.grants = vec![(WHO, (1000, 100, 1)), (OTHER, (700, 50, 3)), (OTHER, (90, 30, 6))];
	cfg.hold = vec![(WHO, 130), (OTHER, 40)];
	cfg.slash = vec![(WHO, 65), (OTHER, 40)];
	cfg.told = vec![(OTHER, 0), (WHO, 5)];
	let mut lock = cfg.clone();
	lock.also_locked = 300;
	go(run, "two-accounts", cfg, 9, 11);
	go(run, "two-accounts-with-other-locks", lock, 8, 10);
}
