use crate::sys::*;
use engine::{Check, Run, Scenario};

pub const CHECKS: &[Check] = &[
	Check { property: "P01", run: p01 },
	Check { property: "P02", run: p02 },
	Check { property: "P03", run: p03 },
	Check { property: "P04", run: p04 },
	Check { property: "P05", run: p05 },
];

fn go(run: &mut Run, name: &str, cfg: Cfg, quick: usize, thorough: usize) {
	let depth = if run.thorough { thorough } else { quick };
	run.scenario(Scenario { name: name.into(), sys: Sys { cfg }, prefix: vec![], depth });
}
fn after(run: &mut Run, name: &str, prefix: &[Op], cfg: Cfg, quick: usize, thorough: usize) {
	let depth = if run.thorough { thorough } else { quick };
	run.scenario(Scenario { name: name.into(), sys: Sys { cfg }, prefix: prefix.to_vec(), depth });
}
fn d(c: Cred) -> (By, Call) {
	(By::Signed(c.sub), Call::Dispense(c))
}
fn base() -> Cfg {
	Cfg { pot: 71, accounts: vec![1, 2, 3], dids: vec![1, 2, 3, 4], max_now: 16, ..Default::default() }
}
fn credentials() -> Vec<(By, Call)> {
	let c = cred(1, 1);
	vec![
		d(c),
		// another account of the same person, another DID of the same account, other kinds of investors
		d(cred(2, 1)),
		d(cred(1, 2)),
		d(Cred { kind: 1, ..cred(2, 3) }),
		d(Cred { kind: 2, ..cred(1, 4) }),
		// not good
		d(Cred { policy: 2, ..cred(2, 2) }),
		d(Cred { genuine: false, ..cred(2, 2) }),
		d(Cred { exp: NOW as i64 - 1, ..cred(2, 2) }),
		(By::Signed(2), Call::Dispense(c)),
		(By::Root, Call::Dispense(c)),
		(By::None, Call::Dispense(c)),
	]
}
fn p01(run: &mut Run) {
	let mut c = base();
	c.calls = credentials();
	c.fund = vec![10];
	c.next = vec![4, 5];
	c.vest = vec![1];
	go(run, "credentials", c.clone(), 8, 9);
	c.calls.truncate(5);
	c.calls.push((By::Signed(ADMIN), Call::SetAmount(36)));
	c.calls.push((By::Signed(ADMIN), Call::SetAmount(7)));
	c.calls.push((By::Signed(1), Call::Spend(3)));
	c.pot = 76;
	go(run, "until-nothing-is-left", c, 8, 9);
	// many people, and identities that are long and much alike
	let mut c = base();
	c.pot = 20 * 16 + 1;
	c.accounts = (1..=7).collect();
	c.dids = [100, 101, 102, 103].into_iter().chain(1..=14).collect();
	c.calls = [100, 101, 102, 103].map(|k| d(cred(1 + k % 2, k))).to_vec();
	go(run, "long-identities", c.clone(), 6, 6);
	let served: Vec<Op> = (1..=14).map(|n| d(cred((n - 1) % 7 + 1, n))).map(|(b, k)| Op::Do(b, k)).collect();
	c.accounts = (1..=10).collect();
	c.calls = [1, 5, 9, 14].map(|n| d(cred(9 + n % 2, n))).to_vec();
	c.calls.extend([101, 102, 103].map(|n| d(cred(8 + n % 3, n))));
	after(run, "many-people", &served, c, 6, 7);
}
fn p02(run: &mut Run) {
	let mut c = base();
	c.calls = vec![
		d(cred(1, 1)),
		d(cred(1, 2)),
		d(cred(2, 3)),
		(By::Signed(1), Call::Spend(2)),
		(By::Signed(1), Call::Spend(3)),
		(By::Signed(1), Call::Spend(4)),
		(By::Signed(1), Call::Spend(17)),
		(By::Signed(1), Call::Spend(20)),
	];
	c.next = vec![1, 3];
	c.vest = vec![1];
	go(run, "spending", c.clone(), 10, 12);
	c.calls = vec![
		d(cred(1, 1)),
		d(cred(1, 2)),
		(By::Signed(ADMIN), Call::SetAmount(7)),
		(By::Signed(ADMIN), Call::SetAmount(8)),
		(By::Signed(ADMIN), Call::SetAmount(35)),
		(By::Signed(1), Call::Spend(5)),
	];
	c.rich = vec![(1, 6)];
	c.max_now = 20;
	go(run, "other-amounts", c, 10, 12);
	// amounts and times as in life
	let x = 123_456_789_012_345_678_901_234;
	let mut c = base();
	c.terms = Terms { first: 700_000_000_000_000, free: 7_000_000_000_007, lock: 554_400, vest: 10_512_000 };
	c.pot = 10 * x;
	c.calls = vec![
		d(cred(1, 1)),
		d(cred(2, 2)),
		d(cred(1, 3)),
		(By::Signed(ADMIN), Call::SetAmount(x)),
		(By::Signed(ADMIN), Call::SetAmount(7_000_010_512_007)),
		(By::Signed(ADMIN), Call::SetAmount(7_000_010_512_006)),
		(By::Signed(ADMIN), Call::SetAmount(20_000_000_000_000)),
		(By::Signed(ADMIN), Call::SetAmount(7_000_000_000_007)),
		(By::Signed(1), Call::Spend(7_000_000_000_000)),
		(By::Signed(1), Call::Spend(x / 2)),
	];
	c.next = vec![554_399, 1, 5_256_000];
	c.max_now = 20_000_000;
	c.vest = vec![1];
	go(run, "as-in-life", c, 6, 7);
}
fn p03(run: &mut Run) {
	let mut c = base();
	c.calls = vec![d(cred(1, 1)), d(cred(2, 2)), d(cred(3, 3))];
	for by in [By::Signed(ADMIN), By::Signed(1), By::Root, By::None] {
		for x in [0, 2, 3, 4, 8, 30, 71] {
			c.calls.push((by, Call::SetAmount(x)));
		}
	}
	c.fund = vec![10];
	go(run, "who-and-what", c, 8, 10);
}
fn p04(run: &mut Run) {
	let mut c = base();
	c.rich = vec![(2, 9)];
	c.txs = vec![
		(1, Call::Dispense(cred(1, 1))),
		(1, Call::Dispense(Cred { genuine: false, ..cred(1, 1) })),
		(1, Call::Spend(2)),
		(1, Call::Spend(3)),
		(2, Call::Spend(4)),
		(2, Call::Spend(9)),
		(2, Call::Dispense(cred(2, 2))),
		(3, Call::SetAmount(9)),
		(3, Call::Spend(1)),
	];
	c.offsets = vec![-2, -1, 0, 1, 2];
	c.give = vec![(1, 2), (3, 4)];
	c.asset = vec![1, 3];
	c.next = vec![9];
	c.vest = vec![1];
	go(run, "transactions", c, 8, 9);
}
fn p05(run: &mut Run) {
	let mut c = base();
	c.calls = credentials();
	c.calls.push((By::Signed(ADMIN), Call::SetAmount(9)));
	c.calls.push((By::Signed(1), Call::Spend(1)));
	c.rich = vec![(3, 5)];
	c.calls.push((By::Signed(3), Call::Dispense(cred(1, 1))));
	c.calls.push(d(cred(3, 2)));
	c.next = vec![4];
	go(run, "fees", c, 8, 9);
}
