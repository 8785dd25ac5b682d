//! The real on-slash-vesting handler over the real vesting and balances pallets, with a model.
use engine::{Cx, Harness, Ignore};
use frame_support::{
	derive_impl, parameter_types,
	storage::unhashed,
	traits::{
		tokens::fungible::{BalancedHold, InspectHold, MutateHold},
		LockableCurrency,
		ConstU128, OnInitialize, VariantCount, WithdrawReasons,
	},
};
use on_slash_vesting::OnSlash;
use pallet_vesting::VestingInfo;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{traits::{ConvertInto, Dispatchable, IdentityLookup}, BuildStorage};

pub type Block = frame_system::mocking::MockBlock<Test>;
frame_support::construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Vesting: pallet_vesting,
	}
);
#[derive(
	Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo, Ord, PartialOrd,
)]
pub enum Hold {
	Bond,
	Other,
}
impl VariantCount for Hold {
	const VARIANT_COUNT: u32 = 2;
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<Self::AccountId>;
}
parameter_types! {
	pub const MinVestedTransfer: u128 = 1;
	pub UnvestedFundsAllowedWithdrawReasons: WithdrawReasons =
		WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = ConstU128<1>;
	type RuntimeHoldReason = Hold;
}
/// The clock of the vesting: the number of the block, or ahead of it (as a relay chain's is).
pub struct Clock;
impl Clock {
	const AHEAD: &'static [u8] = b"probe:ahead";
}
impl sp_runtime::traits::BlockNumberProvider for Clock {
	type BlockNumber = u64;
	fn current_block_number() -> u64 {
		System::block_number() + unhashed::get_or_default::<u64>(Self::AHEAD)
	}
}
impl pallet_vesting::Config for Test {
	type BlockNumberProvider = Clock;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = MinVestedTransfer;
	type RuntimeEvent = RuntimeEvent;
	type UnvestedFundsAllowedWithdrawReasons = UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();
	const MAX_VESTING_SCHEDULES: u32 = 28;
}

/// Further handlers of a slash: they write down what they are told.
pub struct Note<const N: u8>;
impl<const N: u8> OnSlash<u64, u128> for Note<N> {
	fn on_slash(account: &u64, amount: u128) {
		let k = [b"probe:", &[N][..]].concat();
		let mut v: Vec<(u64, u128)> = unhashed::get(&k).unwrap_or_default();
		v.push((*account, amount));
		unhashed::put(&k, &v);
	}
}
impl<const N: u8> Note<N> {
	fn take() -> Vec<(u64, u128)> {
		unhashed::take(&[b"probe:", &[N][..]].concat()).unwrap_or_default()
	}
}
/// All handlers of the runtime.
pub type Handlers = (Note<1>, pallet_vesting::Pallet<Test>, Note<2>);

pub const WHO: u64 = 1;
pub const OTHER: u64 = 2;
pub const FUNDER: u64 = 3;

/// (locked, per block, starting block)
pub type Sch = (u128, u128, u64);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
	/// this many blocks pass
	Next(u64),
	Grant(u64, Sch),
	Hold(u64, u128),
	Vest(u64),
	/// the bond is slashed and the handlers are told
	Slash(u64, u128),
	/// the handlers are told about a slash of funds that were not held
	Told(u64, u128),
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Acc {
	pub free: u128,
	pub held: u128,
	pub lock: u128,
	pub schedules: Vec<Sch>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M {
	pub now: u64,
	pub acc: [Acc; 2],
	pub slashes: u8,
}

pub fn locked_at(s: &Sch, n: u64) -> u128 {
	s.0.saturating_sub(n.saturating_sub(s.2) as u128 * s.1.max(1))
}
/// the block from which nothing is locked any more
pub fn end(s: &Sch) -> u64 {
	let p = s.1.max(1);
	s.2 + (if p >= s.0 { 1 } else { s.0.div_ceil(p) }) as u64
}
/// What remains of a schedule after a slash: the slashed amount is taken off what is still locked,
/// and the rest vests in equal steps of whole units up to where the schedule ended.
pub fn slashed(s: &Sch, now: u64, amount: u128) -> Option<Sch> {
	let start = now.max(s.2);
	let rest = locked_at(s, now).saturating_sub(amount);
	let blocks = end(s).saturating_sub(start);
	if rest == 0 || blocks == 0 {
		return None;
	}
	let step = rest / blocks as u128;
	(step > 0).then_some((rest, step, start))
}

impl Acc {
	fn usable(&self, also_locked: u128) -> u128 {
		self.free.saturating_sub(self.lock.max(also_locked).saturating_sub(self.held))
	}
	fn vest(&mut self, now: u64) {
		self.schedules.retain(|s| locked_at(s, now) > 0);
		self.lock = self.schedules.iter().map(|s| locked_at(s, now)).sum();
	}
	fn slash(&mut self, now: u64, amount: u128) {
		if !self.schedules.is_empty() {
			self.schedules = self.schedules.iter().filter_map(|s| slashed(s, now, amount)).collect();
			self.vest(now);
		}
	}
}

#[derive(Clone, Default)]
pub struct Cfg {
	pub free: u128,
	pub next: Vec<u64>,
	pub grants: Vec<(u64, Sch)>,
	pub hold: Vec<(u64, u128)>,
	pub vest: Vec<u64>,
	pub slash: Vec<(u64, u128)>,
	pub told: Vec<(u64, u128)>,
	pub max_now: u64,
	pub max_slashes: u8,
	pub max_schedules: usize,
	/// the block the history starts at (1 if 0)
	pub start: u64,
	/// how far the clock of the vesting is ahead of the number of the block
	pub ahead: u64,
	/// what another lock of each account keeps
	pub also_locked: u128,
}
pub struct Sys {
	pub cfg: Cfg,
}
fn i(w: u64) -> usize {
	w as usize - 1
}

impl Harness for Sys {
	type Op = Op;
	type Model = M;
	fn genesis(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
		let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
		pallet_balances::GenesisConfig::<Test> {
			balances: vec![(WHO, self.cfg.free), (OTHER, self.cfg.free), (FUNDER, 1u128 << 100)],
		}
		.assimilate_storage(&mut t)
		.unwrap();
		t.top.into_iter().collect()
	}
	fn ignore(&self) -> Ignore {
		let sys = sp_io::hashing::twox_128(b"System").to_vec();
		let acc = [sys.clone(), sp_io::hashing::twox_128(b"Account").to_vec()].concat();
		let num = [sys.clone(), sp_io::hashing::twox_128(b"Number").to_vec()].concat();
		Ignore { prefixes: vec![sys], keep: vec![acc, num] }
	}
	fn init(&self) -> M {
		System::set_block_number(self.cfg.start.max(1) - self.cfg.ahead);
		if self.cfg.ahead > 0 {
			unhashed::put(Clock::AHEAD, &self.cfg.ahead);
		}
		if self.cfg.also_locked > 0 {
			for w in [WHO, OTHER] {
				Balances::set_lock(*b"elsewhat", &w, self.cfg.also_locked, WithdrawReasons::all());
			}
		}
		let a = Acc { free: self.cfg.free, ..Default::default() };
		M { now: self.cfg.start.max(1), acc: [a.clone(), a], slashes: 0 }
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let c = &self.cfg;
		let mut o: Vec<Op> = c.next.iter().filter(|n| m.now + **n <= c.max_now).map(|n| Op::Next(*n)).collect();
		o.extend(c.grants.iter().filter(|g| m.acc[i(g.0)].schedules.len() < c.max_schedules).map(|g| Op::Grant(g.0, g.1)));
		// a bond is not raised beyond what is there
		o.extend(c.hold.iter().filter(|h| m.acc[i(h.0)].free > h.1).map(|h| Op::Hold(h.0, h.1)));
		o.extend(c.vest.iter().map(|w| Op::Vest(*w)));
		if m.slashes < c.max_slashes {
			o.extend(c.slash.iter().filter(|s| m.acc[i(s.0)].held >= s.1).map(|s| Op::Slash(s.0, s.1)));
			o.extend(c.told.iter().map(|s| Op::Told(s.0, s.1)));
		}
		o
	}
	fn step(&self, m: &mut M, op: &Op, cx: &mut Cx) {
		System::reset_events();
		match op.clone() {
			Op::Next(k) => {
				// nothing here happens at the start of a block
				let n = System::block_number() + k;
				System::set_block_number(n);
				<AllPalletsWithSystem as OnInitialize<u64>>::on_initialize(n);
				m.now += k;
			},
			Op::Grant(w, s) => {
				let r = RuntimeCall::Vesting(pallet_vesting::Call::vested_transfer {
					target: w,
					schedule: VestingInfo::new(s.0, s.1, s.2),
				})
				.dispatch(RuntimeOrigin::signed(FUNDER));
				assert!(r.is_ok(), "grant: {r:?}");
				let a = &mut m.acc[i(w)];
				a.free += s.0;
				a.schedules.push(s);
				a.vest(m.now);
			},
			Op::Hold(w, x) => {
				<Balances as MutateHold<u64>>::hold(&Hold::Bond, &w, x).expect("hold");
				let a = &mut m.acc[i(w)];
				a.free -= x;
				a.held += x;
			},
			Op::Vest(w) => {
				let r = RuntimeCall::Vesting(pallet_vesting::Call::vest {}).dispatch(RuntimeOrigin::signed(w));
				let a = &mut m.acc[i(w)];
				assert_eq!(r.is_ok(), !a.schedules.is_empty(), "vest");
				if r.is_ok() {
					a.vest(m.now);
				}
			},
			Op::Slash(w, x) | Op::Told(w, x) => {
				m.slashes += 1;
				let usable = Balances::usable_balance(w);
				if let Op::Slash(..) = op {
					let _ = <Balances as BalancedHold<u64>>::slash(&Hold::Bond, &w, x);
					m.acc[i(w)].held -= x;
				}
				let other = if w == WHO { OTHER } else { WHO };
				let untouched = || (Balances::usable_balance(other), pallet_vesting::Vesting::<Test>::get(other));
				let before = untouched();
				let supply = Balances::total_issuance();
				<Handlers as OnSlash<u64, u128>>::on_slash(&w, x);
				let had = m.acc[i(w)].schedules.len();
				m.acc[i(w)].slash(m.now, x);
				let have = m.acc[i(w)].schedules.len();
				cx.outcome(
					"slash",
					match (had, have) {
						(0, _) => "without vesting",
						(_, 0) => "ends the vesting",
						(a, b) if a > b => "ends a schedule",
						_ => "reduces",
					},
				);
				// another lock keeps its amount of what is left
				if matches!(op, Op::Slash(..)) && self.cfg.also_locked == 0 {
					let now = Balances::usable_balance(w);
					cx.check(&["V01"], now >= usable, || {
						format!("account {w} could spend {usable} before a slash of its bond by {x}, and only {now} after it")
					});
				}
				cx.check(&["V03"], untouched() == before, || format!("a slash of account {w} changed account {other}"));
				cx.check(&["V03"], Balances::total_issuance() == supply, || "handling a slash changed the issuance".into());
				let told = (Note::<1>::take(), Note::<2>::take());
				let want = vec![(w, x)];
				cx.check(&["V03"], told.0 == want && told.1 == want, || {
					format!("the other handlers were told {told:?}, each must be told once: {want:?}")
				});
			},
		}
		for w in [WHO, OTHER] {
			let a = &m.acc[i(w)];
			let locks = pallet_balances::Locks::<Test>::get(w);
			let lock = locks.iter().find(|l| &l.id == b"vesting ").map_or(0, |l| l.amount);
			cx.check(&["V01", "V02"], lock == a.lock, || {
				format!("block {}: account {w} has {lock} locked for vesting, must be {} ({:?})", m.now, a.lock, a.schedules)
			});
			let also = locks.iter().find(|l| &l.id == b"elsewhat").map_or(0, |l| l.amount);
			cx.check(&["V03"], also == self.cfg.also_locked, || {
				format!("block {}: another lock of account {w} keeps {also}, must be {}", m.now, self.cfg.also_locked)
			});
			let got = (Balances::free_balance(w), Balances::balance_on_hold(&Hold::Bond, &w));
			let want = (a.free, a.held);
			cx.check(&["V01", "V02", "V03"], got == want, || {
				format!("block {}: account {w} has (free, held) {got:?}, must be {want:?}", m.now)
			});
			// up to the existential deposit, which may have to stay
			let (u, want) = (Balances::usable_balance(w), a.usable(self.cfg.also_locked));
			cx.check(&["V01", "V02", "V03"], u == want || u + 1 == want, || {
				format!("block {}: account {w} can spend {u}, must be {want}", m.now)
			});
			// what will be locked in every later block
			if cx.on(&["V02", "V03"]) {
				let s: Vec<VestingInfo<u128, u64>> =
					pallet_vesting::Vesting::<Test>::get(w).map(|v| v.to_vec()).unwrap_or_default();
				let last = a.schedules.iter().map(end).max().unwrap_or(0).max(m.now) + 2;
				let points: Vec<u64> = if last - m.now <= 64 {
					(m.now..=last).collect()
				} else {
					a.schedules.iter().flat_map(|s| {
						let (b, e) = (s.2.max(m.now), end(s).max(m.now));
						[b, b + 1, b + (e - b) / 3, b + (e - b) / 2, e.saturating_sub(1).max(m.now), e, e + 1]
					}).collect()
				};
				for n in points {
					let got: u128 = s.iter().map(|s| s.locked_at::<ConvertInto>(n)).sum();
					let want: u128 = a.schedules.iter().map(|s| locked_at(s, n)).sum();
					cx.check(&["V02", "V03"], got == want, || {
						format!("block {}: account {w} will have {got} locked in block {n}, must be {want} ({:?}; recorded {s:?})", m.now, a.schedules)
					});
				}
			}
		}
	}
}
