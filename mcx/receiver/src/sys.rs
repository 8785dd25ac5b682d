//! The real receiver of migrations over the real vesting and balances pallets, with a model.
use cumulus_pallet_xcm::Origin as ParaOrigin;
use engine::{Cx, Harness, Ignore};
use frame_support::{
	construct_runtime, derive_impl, parameter_types,
	storage::{with_transaction, TransactionOutcome},
	traits::{ConstU128, ConstU64, OnInitialize, WithdrawReasons},
};
use pallet_vesting::VestingInfo;
use polimec_common::migration_types::{Migration, MigrationInfo, MigrationOrigin, Migrations, ParticipationType};
use polkadot_parachain_primitives::primitives::{Id as ParaId, Sibling};
use sp_runtime::{
	traits::{AccountIdConversion, Convert, ConvertInto, Dispatchable, IdentityLookup},
	AccountId32, BuildStorage, DispatchError,
};
use std::collections::{BTreeMap, BTreeSet};
use xcm::v4::{Junction, Location, NetworkId};

pub type Acc = AccountId32;
pub type Block = frame_system::mocking::MockBlock<Rt>;
construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Balances: pallet_balances,
		Vesting: pallet_vesting,
		Xcm: cumulus_pallet_xcm,
		Receiver: polimec_receiver,
	}
);
pub const ED: u128 = 2;
pub const GENESIS: u64 = 3;
pub const POLIMEC: u32 = 3344;
pub const MAX: usize = 3;

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Rt {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = Acc;
	type Block = Block;
	type Lookup = IdentityLookup<Acc>;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Rt {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = ConstU128<ED>;
}
parameter_types! {
	pub UnvestedFundsAllowedWithdrawReasons: WithdrawReasons =
		WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
	pub PolimecId: ParaId = ParaId::new(POLIMEC);
}
impl pallet_vesting::Config for Rt {
	type BlockNumberProvider = System;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = ConstU128<1>;
	type RuntimeEvent = RuntimeEvent;
	type UnvestedFundsAllowedWithdrawReasons = UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();
	const MAX_VESTING_SCHEDULES: u32 = MAX as u32;
}
impl cumulus_pallet_xcm::Config for Rt {}
/// The tokens are released evenly over the vesting time.
pub struct PerBlock;
impl Convert<MigrationInfo, u128> for PerBlock {
	fn convert(i: MigrationInfo) -> u128 {
		i.contribution_token_amount / u128::from(i.vesting_time.max(1))
	}
}
impl polimec_receiver::Config for Rt {
	type Balance = u128;
	type Balances = Balances;
	type GenesisMoment = ConstU64<GENESIS>;
	type MaxMigrations = ConstU128<10>;
	type MigrationInfoToPerBlockBalance = PerBlock;
	type PolimecParaId = PolimecId;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeOrigin = RuntimeOrigin;
	type Vesting = Vesting;
}

pub fn acc(n: u8) -> Acc {
	Acc::new([n; 32])
}
/// takes what others spend
pub const SINK: u8 = 8;
/// a sibling chain's account of the Polimec chain
pub fn sovereign() -> Acc {
	Sibling(ParaId::new(POLIMEC)).into_account_truncating()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum User {
	/// an account of this chain
	Local(u8),
	/// the same, said to be on Polkadot
	Polkadot(u8),
	/// not an account of this chain
	Elsewhere(u8),
	Chain,
}
/// (user, 0 evaluation 1 bid 2 contribution, id)
pub type Key = (User, u8, u32);
/// what is migrated, its amount and vesting time
pub type Mig = (Key, u128, u64);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum By {
	Para(u32),
	Relay,
	Signed(u8),
	Root,
	None,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
	Next(u64),
	Migrate(By, Vec<Mig>),
	Vest(u8),
	Spend(u8, u128),
}

fn real(m: &Mig) -> Migration {
	let ((user, t, id), amount, time) = *m;
	let user = match user {
		User::Local(n) => Location::new(0, Junction::AccountId32 { network: None, id: [n; 32] }),
		User::Polkadot(n) => Location::new(0, Junction::AccountId32 { network: Some(NetworkId::Polkadot), id: [n; 32] }),
		User::Elsewhere(n) => Location::new(1, Junction::AccountId32 { network: None, id: [n; 32] }),
		User::Chain => Location::new(0, Junction::Parachain(7)),
	};
	let participation_type =
		[ParticipationType::Evaluation, ParticipationType::Bid, ParticipationType::Contribution][t as usize];
	Migration::new(MigrationOrigin { user, id, participation_type }, MigrationInfo::from((amount, time)))
}

/// (locked, per block, starting block)
pub type Sch = (u128, u128, u64);
pub fn locked_at(s: &Sch, n: u64) -> u128 {
	s.0.saturating_sub(n.saturating_sub(s.2) as u128 * s.1)
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct A {
	pub free: u128,
	pub lock: u128,
	pub schedules: Vec<Sch>,
}
impl A {
	fn vest(&mut self, now: u64) {
		self.schedules.retain(|s| locked_at(s, now) > 0);
		self.lock = self.schedules.iter().map(|s| locked_at(s, now)).sum();
	}
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M {
	pub now: u64,
	pub acc: BTreeMap<u8, A>,
	pub stock: u128,
	pub done: BTreeSet<Key>,
	pub issuance: u128,
}
impl M {
	/// Err: which property the refusal belongs to
	fn migrate(&mut self, by: By, l: &[Mig]) -> Result<(), &'static str> {
		if by != By::Para(POLIMEC) {
			return Err("origin");
		}
		for (k, amount, time) in l {
			let (User::Local(w) | User::Polkadot(w)) = k.0 else { return Err("user") };
			if self.done.contains(k) {
				continue;
			}
			let a = self.acc.entry(w).or_default();
			if *amount > 0 {
				if self.stock < amount + ED {
					return Err("funds");
				}
				if a.free + amount < ED {
					return Err("below the existential deposit");
				}
				let step = amount / u128::from((*time).max(1));
				if step == 0 {
					return Err("schedule");
				}
				if a.schedules.len() >= MAX {
					return Err("schedules");
				}
				self.stock -= amount;
				a.free += amount;
				a.schedules.push((*amount, step, GENESIS));
				a.vest(self.now);
			}
			self.done.insert(*k);
		}
		Ok(())
	}
	/// the account is gone when less than the existential deposit is left
	fn spend(&mut self, w: u8, x: u128) -> bool {
		let a = self.acc.entry(w).or_default();
		if a.free < x {
			return false;
		}
		let rest = a.free - x;
		if a.lock > 0 && rest < a.lock.max(ED) {
			return false;
		}
		a.free = rest;
		if rest < ED {
			self.issuance -= rest;
			a.free = 0;
		}
		self.acc.entry(SINK).or_default().free += x;
		true
	}
}

#[derive(Clone, Default)]
pub struct Cfg {
	pub stock: u128,
	pub rich: Vec<(u8, u128)>,
	pub keys: Vec<Key>,
	pub batches: Vec<(By, Vec<Mig>)>,
	pub next: Vec<u64>,
	pub max_now: u64,
	pub vest: Vec<u8>,
	pub spend: Vec<(u8, u128)>,
	/// blocks far away in which to look at what is locked
	pub far: Vec<u64>,
}
pub struct Sys {
	pub cfg: Cfg,
}

impl Harness for Sys {
	type Op = Op;
	type Model = M;
	fn genesis(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
		let mut t = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
		let mut balances: Vec<(Acc, u128)> = self.cfg.rich.iter().map(|(w, x)| (acc(*w), *x)).collect();
		balances.push((acc(SINK), 1000));
		balances.push((sovereign(), self.cfg.stock));
		pallet_balances::GenesisConfig::<Rt> { balances }.assimilate_storage(&mut t).unwrap();
		t.top.into_iter().collect()
	}
	fn ignore(&self) -> Ignore {
		let sys = sp_io::hashing::twox_128(b"System").to_vec();
		let acc = [sys.clone(), sp_io::hashing::twox_128(b"Account").to_vec()].concat();
		let num = [sys.clone(), sp_io::hashing::twox_128(b"Number").to_vec()].concat();
		Ignore { prefixes: vec![sys], keep: vec![acc, num] }
	}
	fn init(&self) -> M {
		System::set_block_number(1);
		let mut a: BTreeMap<u8, A> = [1, 2, 3].into_iter().map(|w| (w, A::default())).collect();
		for (w, x) in self.cfg.rich.iter() {
			a.entry(*w).or_default().free = *x;
		}
		a.entry(SINK).or_default().free = 1000;
		let issuance = self.cfg.stock + a.values().map(|a| a.free).sum::<u128>();
		M { now: 1, acc: a, stock: self.cfg.stock, done: Default::default(), issuance }
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let c = &self.cfg;
		let mut o: Vec<Op> = c.next.iter().filter(|n| m.now + **n <= c.max_now).map(|n| Op::Next(*n)).collect();
		o.extend(c.batches.iter().map(|(b, l)| Op::Migrate(*b, l.clone())));
		o.extend(c.vest.iter().map(|w| Op::Vest(*w)));
		o.extend(c.spend.iter().map(|(w, x)| Op::Spend(*w, *x)));
		o
	}
	fn step(&self, m: &mut M, op: &Op, cx: &mut Cx) {
		System::reset_events();
		match op.clone() {
			Op::Next(k) => {
				let n = System::block_number() + k;
				System::set_block_number(n);
				<AllPalletsWithSystem as OnInitialize<u64>>::on_initialize(n);
				m.now += k;
			},
			Op::Vest(w) => {
				let r = RuntimeCall::Vesting(pallet_vesting::Call::vest {}).dispatch(RuntimeOrigin::signed(acc(w)));
				let a = m.acc.entry(w).or_default();
				assert_eq!(r.is_ok(), !a.schedules.is_empty(), "vest");
				if r.is_ok() {
					a.vest(m.now);
				}
			},
			Op::Spend(w, x) => {
				let r = with_transaction(|| {
					match RuntimeCall::Balances(pallet_balances::Call::transfer_allow_death { dest: acc(SINK), value: x })
						.dispatch(RuntimeOrigin::signed(acc(w)))
					{
						Ok(_) => TransactionOutcome::Commit(Ok::<_, DispatchError>(())),
						Err(e) => TransactionOutcome::Rollback(Err(e.error)),
					}
				});
				let want = m.spend(w, x);
				if r.is_ok() != want {
					cx.check(&["R03"], false, || format!("{op:?} gives {r:?}, must be {}", if want { "accepted" } else { "refused" }));
					cx.prune = true;
					return;
				}
			},
			Op::Migrate(by, l) => {
				let origin: RuntimeOrigin = match by {
					By::Para(n) => ParaOrigin::SiblingParachain(n.into()).into(),
					By::Relay => ParaOrigin::Relay.into(),
					By::Signed(w) => RuntimeOrigin::signed(acc(w)),
					By::Root => RuntimeOrigin::root(),
					By::None => RuntimeOrigin::none(),
				};
				let migrations: Migrations = l.iter().map(real).collect();
				let r = with_transaction(|| {
					match RuntimeCall::Receiver(polimec_receiver::Call::execute_migrations { migrations }).dispatch(origin) {
						Ok(_) => TransactionOutcome::Commit(Ok::<_, DispatchError>(())),
						Err(e) => TransactionOutcome::Rollback(Err(e.error)),
					}
				});
				let before = m.clone();
				let want = m.migrate(by, &l);
				cx.outcome("execute_migrations", want.err().unwrap_or("ok"));
				if want.is_err() {
					*m = before.clone();
				}
				if r.is_ok() != want.is_ok() {
					let props: &[&str] = match want {
						Err("origin" | "user") => &["R01"],
						Err("schedule" | "schedules") => &["R03"],
						Err(_) => &["R02"],
						Ok(()) => &["R01", "R02", "R03"],
					};
					cx.check(props, false, || format!("{op:?} gives {r:?}, must be {want:?} (before: {before:?})"));
					cx.prune = true;
					return;
				}
			},
		}
		for k in self.cfg.keys.iter() {
			let o = real(&(*k, 0, 0)).origin;
			let x = polimec_receiver::ExecutedMigrations::<Rt>::get((o.user, o.participation_type, o.id));
			cx.check(&["R01", "R02"], x == m.done.contains(k), || {
				format!("after {op:?}: {k:?} counts as {}migrated, must be the opposite", if x { "" } else { "not " })
			});
		}
		let (x, want) = (Balances::free_balance(sovereign()), m.stock);
		cx.check(&["R01", "R02"], x == want, || format!("after {op:?}: {x} tokens are left to migrate, must be {want}"));
		let (x, want) = (Balances::total_issuance(), m.issuance);
		cx.check(&["R02"], x == want, || format!("after {op:?}: issuance is {x}, must be {want}"));
		for (w, a) in m.acc.iter() {
			let x = Balances::free_balance(acc(*w));
			cx.check(&["R01", "R02"], x == a.free, || format!("after {op:?}: account {w} has {x}, must have {}", a.free));
			let x: u128 = pallet_balances::Locks::<Rt>::get(acc(*w)).iter().map(|l| l.amount).sum();
			cx.check(&["R03"], x == a.lock, || format!("block {}: account {w} has {x} locked, must be {}", m.now, a.lock));
			if cx.on(&["R03"]) {
				let s: Vec<VestingInfo<u128, u64>> =
					pallet_vesting::Vesting::<Rt>::get(acc(*w)).map(|v| v.to_vec()).unwrap_or_default();
				for n in (m.now..m.now.max(GENESIS) + 12).chain(self.cfg.far.iter().copied()) {
					let got: u128 = s.iter().map(|s| s.locked_at::<ConvertInto>(n)).sum();
					let want: u128 = a.schedules.iter().map(|s| locked_at(s, n)).sum();
					cx.check(&["R03"], got == want, || {
						format!("block {}: account {w} will have {got} locked in block {n}, must be {want} ({:?})", m.now, a.schedules)
					});
				}
			}
		}
	}
}
