//! The real dispenser over the real vesting and balances pallets, with a model.
use engine::{Cx, Harness, Ignore};
use frame_support::{
	construct_runtime, derive_impl,
	dispatch::{CheckIfFeeless, GetDispatchInfo},
	parameter_types,
	storage::{with_transaction, TransactionOutcome},
	traits::{fungible::Mutate, ConstU128, ConstU64, OnInitialize, WithdrawReasons},
	PalletId,
};
use frame_system::EnsureSignedBy;
use pallet_dispenser::extensions::CheckNonce;
use pallet_vesting::VestingInfo;
use parity_scale_codec::Encode;
use polimec_common::credentials::{Cid, Did, EnsureInvestor, InvestorType, SampleClaims};
use sp_runtime::{
	traits::{ConvertInto, Dispatchable, IdentityLookup, SignedExtension},
	transaction_validity::{InvalidTransaction, TransactionLongevity, TransactionValidityError, ValidTransaction},
	AccountId32, BuildStorage, DispatchError,
};
use std::{
	cell::RefCell,
	collections::{BTreeMap, BTreeSet, HashMap},
};

pub type Acc = AccountId32;
pub type Block = frame_system::mocking::MockBlock<Rt>;
construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Timestamp: pallet_timestamp,
		Balances: pallet_balances,
		Vesting: pallet_vesting,
		Dispenser: pallet_dispenser,
	}
);
pub const ED: u128 = 2;
pub const FREE: u128 = 3;
pub const FIRST_AMOUNT: u128 = 20;
pub const LOCK: u64 = 3;
pub const VEST: u64 = 5;
pub const MAX: usize = 2;
/// time in the first block and later (the clock stands still), in seconds
pub const NOW: u64 = 1000;

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Rt {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = Acc;
	type Block = Block;
	type Lookup = IdentityLookup<Acc>;
}
impl pallet_timestamp::Config for Rt {
	type MinimumPeriod = ConstU64<5>;
	type Moment = u64;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Rt {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = ConstU128<ED>;
}
parameter_types! {
	// set by the scenario
	pub storage Free: u128 = FREE;
	pub storage First: u128 = FIRST_AMOUNT;
	pub storage Lock: u64 = LOCK;
	pub storage Vest: u64 = VEST;
	pub UnvestedFundsAllowedWithdrawReasons: WithdrawReasons =
		WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
	pub const Pot: PalletId = PalletId(*b"plmc/dsp");
	pub Admin: Acc = acc(ADMIN);
	pub VerifierPublicKey: [u8; 32] = [
		32, 118, 30, 171, 58, 212, 197, 27, 146, 122, 255, 243, 34, 245, 90, 244, 221, 37, 253,
		195, 18, 202, 111, 55, 39, 48, 123, 17, 101, 78, 215, 94,
	];
	pub Policy: Cid = cid(1);
}
impl pallet_vesting::Config for Rt {
	type BlockNumberProvider = System;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = ConstU128<1>;
	type RuntimeEvent = RuntimeEvent;
	type UnvestedFundsAllowedWithdrawReasons = UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();
	const MAX_VESTING_SCHEDULES: u32 = MAX as u32;
}
impl pallet_dispenser::Config for Rt {
	type AdminOrigin = EnsureSignedBy<AdminSet, Acc>;
	type BlockNumberToBalance = ConvertInto;
	type FreeDispenseAmount = Free;
	type InitialDispenseAmount = First;
	type InvestorOrigin = EnsureInvestor<Rt>;
	type LockPeriod = Lock;
	type PalletId = Pot;
	type RuntimeEvent = RuntimeEvent;
	type VerifierPublicKey = VerifierPublicKey;
	type VestPeriod = Vest;
	type VestingSchedule = Vesting;
	type WeightInfo = ();
	type WhitelistedPolicy = Policy;
}
pub struct AdminSet;
impl frame_support::traits::SortedMembers<Acc> for AdminSet {
	fn sorted_members() -> Vec<Acc> {
		vec![acc(ADMIN)]
	}
}

pub const ADMIN: u8 = 9;
/// takes what others spend
pub const SINK: u8 = 8;
pub fn acc(n: u8) -> Acc {
	Acc::new([n; 32])
}
pub fn did(n: u8) -> Did {
	match n {
		// as long as can be, and alike but for the end or the start
		100.. if n % 2 == 0 => format!("did:{}{n}", "x".repeat(50)),
		100.. => format!("{n}{}", "x".repeat(54)),
		_ => format!("did:{n}"),
	}
	.into_bytes()
	.try_into()
	.unwrap()
}
pub fn cid(n: u8) -> Cid {
	format!("policy-{n}").into_bytes().try_into().unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cred {
	pub sub: u8,
	pub did: u8,
	/// 0 retail, 1 professional, 2 institutional
	pub kind: u8,
	pub policy: u8,
	/// seconds
	pub exp: i64,
	/// signed by the verifier (or by some other key)
	pub genuine: bool,
}
pub fn cred(sub: u8, did: u8) -> Cred {
	Cred { sub, did, kind: 0, policy: 1, exp: NOW as i64 + 500, genuine: true }
}
impl Cred {
	/// may `who` show this credential?
	fn good(&self, who: u8) -> bool {
		self.genuine && self.sub == who && self.exp > NOW as i64
	}
}
thread_local! { static TOKENS: RefCell<HashMap<Cred, jwt_compact::UntrustedToken>> = Default::default(); }
/// The signed token with these claims.
pub fn token(c: &Cred) -> jwt_compact::UntrustedToken {
	use chrono::TimeZone;
	use jwt_compact::{alg::SigningKey, AlgorithmExt};
	if let Some(t) = TOKENS.with(|t| t.borrow().get(c).cloned()) {
		return t;
	}
	let mut key: [u8; 32] = [
		80, 168, 164, 18, 76, 133, 92, 116, 50, 20, 155, 28, 33, 89, 151, 207, 199, 247, 113, 185, 127, 156, 2, 132,
		65, 58, 76, 156, 143, 109, 29, 251,
	];
	if !c.genuine {
		key[0] ^= 1;
	}
	let key = <<jwt_compact::alg::Ed25519 as jwt_compact::Algorithm>::SigningKey as SigningKey<_>>::from_slice(&key)
		.expect("a key");
	let claims = SampleClaims::<Acc> {
		subject: acc(c.sub),
		issuer: "verifier".into(),
		ipfs_cid: cid(c.policy),
		investor_type: [InvestorType::Retail, InvestorType::Professional, InvestorType::Institutional][c.kind as usize].clone(),
		did: did(c.did),
	};
	let mut claims = jwt_compact::Claims::new(claims);
	claims.expiration = Some(chrono::Utc.timestamp_opt(c.exp, 0).unwrap());
	let text = jwt_compact::alg::Ed25519.token(&jwt_compact::Header::empty(), &claims, &key).expect("a token");
	let t = jwt_compact::UntrustedToken::new(&text).expect("a token");
	TOKENS.with(|m| m.borrow_mut().insert(*c, t.clone()));
	t
}

/// (locked, per block, starting block)
pub type Sch = (u128, u128, u64);
pub fn locked_at(s: &Sch, n: u64) -> u128 {
	s.0.saturating_sub(n.saturating_sub(s.2) as u128 * s.1)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Call {
	Dispense(Cred),
	Spend(u128),
	SetAmount(u128),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum By {
	Signed(u8),
	Root,
	None,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
	Next(u64),
	/// the call is executed for its origin
	Do(By, Call),
	Vest(u8),
	/// someone gives to the pot
	Fund(u128),
	/// an account comes to hold an asset that suffices to exist (or no longer does)
	Asset(u8),
	/// someone gives to an account
	Give(u8, u128),
	/// a signed transaction with this nonce arrives in the pool and, if valid, is included
	Tx(u8, u32, Call),
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct A {
	pub free: u128,
	pub lock: u128,
	pub nonce: u32,
	pub asset: bool,
	pub schedules: Vec<Sch>,
}
impl A {
	fn vest(&mut self, now: u64) {
		self.schedules.retain(|s| locked_at(s, now) > 0);
		self.lock = self.schedules.iter().map(|s| locked_at(s, now)).sum();
	}
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M {
	pub now: u64,
	pub acc: BTreeMap<u8, A>,
	pub pot: u128,
	pub amount: u128,
	pub dids: BTreeSet<u8>,
	pub issuance: u128,
	pub terms: Terms,
}
/// the first amount, what of any amount is free, and the times for which the rest is locked and vests
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Terms {
	pub first: u128,
	pub free: u128,
	pub lock: u64,
	pub vest: u64,
}
impl Default for Terms {
	fn default() -> Self {
		Terms { first: FIRST_AMOUNT, free: FREE, lock: LOCK, vest: VEST }
	}
}

#[derive(Clone, Default)]
pub struct Cfg {
	pub pot: u128,
	pub rich: Vec<(u8, u128)>,
	pub accounts: Vec<u8>,
	pub dids: Vec<u8>,
	pub next: Vec<u64>,
	pub max_now: u64,
	pub calls: Vec<(By, Call)>,
	pub vest: Vec<u8>,
	pub fund: Vec<u128>,
	pub give: Vec<(u8, u128)>,
	pub asset: Vec<u8>,
	pub txs: Vec<(u8, Call)>,
	/// nonces of transactions, relative to the next one
	pub offsets: Vec<i32>,
	pub terms: Terms,
}
pub struct Sys {
	pub cfg: Cfg,
}
fn pot() -> Acc {
	Dispenser::dispense_account()
}
fn real(c: &Call) -> RuntimeCall {
	match c {
		Call::Dispense(c) => RuntimeCall::Dispenser(pallet_dispenser::Call::dispense { jwt: token(c) }),
		Call::Spend(x) => RuntimeCall::Balances(pallet_balances::Call::transfer_allow_death { dest: acc(SINK), value: *x }),
		Call::SetAmount(x) => RuntimeCall::Dispenser(pallet_dispenser::Call::set_dispense_amount { amount: *x }),
	}
}

impl M {
	/// the account is gone when less than the existential deposit is left
	fn spend(&mut self, w: u8, x: u128) -> bool {
		let a = self.acc.entry(w).or_default();
		if a.free < x {
			return false;
		}
		let rest = a.free - x;
		if a.lock > 0 && rest < a.lock.max(ED) {
			return false;
		}
		// a transfer to an account that exists may be of any amount
		if rest < ED {
			self.issuance -= rest;
			*a = A { schedules: a.schedules.clone(), asset: a.asset, nonce: if a.asset { a.nonce } else { 0 }, ..Default::default() };
		} else {
			a.free = rest;
		}
		self.acc.entry(SINK).or_default().free += x;
		true
	}
	fn dispense(&mut self, w: u8, c: &Cred) -> bool {
		let a = self.acc.entry(w).or_default();
		if !c.good(w) || c.policy != 1 || self.dids.contains(&c.did) || self.pot < self.amount || a.schedules.len() >= MAX {
			return false;
		}
		let locked = self.amount - self.terms.free;
		let step = locked / self.terms.vest as u128;
		if step == 0 {
			// such an amount cannot be vested in whole units
			return false;
		}
		a.free += self.amount;
		a.schedules.push((locked, step, self.now + self.terms.lock));
		a.vest(self.now);
		self.pot -= self.amount;
		if self.pot < ED {
			self.issuance -= self.pot;
			self.pot = 0;
		}
		self.dids.insert(c.did);
		true
	}
	fn call(&mut self, by: By, c: &Call) -> bool {
		match (c, by) {
			(Call::SetAmount(x), By::Signed(ADMIN)) if *x > self.terms.free => {
				self.amount = *x;
				true
			},
			(Call::Spend(x), By::Signed(w)) => self.spend(w, *x),
			(Call::Dispense(c), By::Signed(w)) => self.dispense(w, c),
			_ => false,
		}
	}
}

fn dispatch(by: By, c: &Call) -> Result<(), DispatchError> {
	let origin = match by {
		By::Signed(w) => RuntimeOrigin::signed(acc(w)),
		By::Root => RuntimeOrigin::root(),
		By::None => RuntimeOrigin::none(),
	};
	with_transaction(|| match real(c).dispatch(origin) {
		Ok(_) => TransactionOutcome::Commit(Ok(())),
		Err(e) => TransactionOutcome::Rollback(Err(e.error)),
	})
}

impl Harness for Sys {
	type Op = Op;
	type Model = M;
	fn genesis(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
		let mut t = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
		let mut balances: Vec<(Acc, u128)> = self.cfg.rich.iter().map(|(w, x)| (acc(*w), *x)).collect();
		balances.push((acc(SINK), 1000));
		pallet_balances::GenesisConfig::<Rt> { balances }.assimilate_storage(&mut t).unwrap();
		t.top.into_iter().collect()
	}
	fn ignore(&self) -> Ignore {
		let sys = sp_io::hashing::twox_128(b"System").to_vec();
		let acc = [sys.clone(), sp_io::hashing::twox_128(b"Account").to_vec()].concat();
		let num = [sys.clone(), sp_io::hashing::twox_128(b"Number").to_vec()].concat();
		Ignore { prefixes: vec![sys], keep: vec![acc, num] }
	}
	fn init(&self) -> M {
		let Terms { first, free, lock, vest } = self.cfg.terms;
		if self.cfg.terms != Terms::default() {
			First::set(&first);
			Free::set(&free);
			Lock::set(&lock);
			Vest::set(&vest);
		}
		System::set_block_number(1);
		pallet_timestamp::Pallet::<Rt>::set_timestamp(NOW * 1000);
		if self.cfg.pot > 0 {
			<Balances as Mutate<Acc>>::mint_into(&pot(), self.cfg.pot).unwrap();
		}
		let mut a: BTreeMap<u8, A> = self.cfg.accounts.iter().map(|w| (*w, A::default())).collect();
		for (w, x) in self.cfg.rich.iter() {
			a.entry(*w).or_default().free = *x;
		}
		a.entry(SINK).or_default().free = 1000;
		let issuance = self.cfg.pot + a.values().map(|a| a.free).sum::<u128>();
		M { now: 1, acc: a, pot: self.cfg.pot, amount: first, dids: Default::default(), issuance, terms: self.cfg.terms }
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let c = &self.cfg;
		let mut o: Vec<Op> = c.next.iter().filter(|n| m.now + **n <= c.max_now).map(|n| Op::Next(*n)).collect();
		o.extend(c.calls.iter().map(|(b, k)| Op::Do(*b, k.clone())));
		o.extend(c.vest.iter().map(|w| Op::Vest(*w)));
		o.extend(c.fund.iter().filter(|x| m.pot + **x < 200).map(|x| Op::Fund(*x)));
		o.extend(c.give.iter().filter(|g| m.acc[&g.0].free < 50).map(|g| Op::Give(g.0, g.1)));
		o.extend(c.asset.iter().map(|w| Op::Asset(*w)));
		for (w, k) in c.txs.iter() {
			for d in c.offsets.iter() {
				let n = m.acc[w].nonce as i32 + d;
				if n >= 0 {
					o.push(Op::Tx(*w, n as u32, k.clone()));
				}
			}
		}
		o
	}
	fn step(&self, m: &mut M, op: &Op, cx: &mut Cx) {
		System::reset_events();
		match op.clone() {
			Op::Next(k) => {
				let n = System::block_number() + k;
				System::set_block_number(n);
				<AllPalletsWithSystem as OnInitialize<u64>>::on_initialize(n);
				m.now += k;
			},
			Op::Vest(w) => {
				let r = RuntimeCall::Vesting(pallet_vesting::Call::vest {}).dispatch(RuntimeOrigin::signed(acc(w)));
				let a = m.acc.entry(w).or_default();
				assert_eq!(r.is_ok(), !a.schedules.is_empty(), "vest");
				if r.is_ok() {
					a.vest(m.now);
				}
			},
			Op::Fund(x) => {
				let r = <Balances as Mutate<Acc>>::mint_into(&pot(), x).is_ok();
				assert_eq!(r, m.pot + x >= ED, "fund");
				if r {
					m.pot += x;
					m.issuance += x;
				}
			},
			Op::Give(w, x) => {
				<Balances as Mutate<Acc>>::mint_into(&acc(w), x).expect("give");
				m.acc.entry(w).or_default().free += x;
				m.issuance += x;
			},
			Op::Asset(w) => {
				let a = m.acc.entry(w).or_default();
				if a.asset {
					System::dec_sufficients(&acc(w));
					if a.free == 0 {
						// the account is gone, with its nonce
						a.nonce = 0;
					}
				} else {
					System::inc_sufficients(&acc(w));
				}
				a.asset = !a.asset;
			},
			Op::Do(by, c) => self.call(m, by, &c, op, cx),
			Op::Tx(w, n, c) => {
				let a = m.acc.entry(w).or_default().clone();
				let call = real(&c);
				let info = call.get_dispatch_info();
				let ext = || CheckNonce::<Rt>::from(n.into());
				let v = ext().validate(&acc(w), &call, &info, 0);
				let opens = a.free > 0 || a.asset || matches!(c, Call::Dispense(_));
				let bad = TransactionValidityError::Invalid;
				let want = if !opens {
					Err(bad(InvalidTransaction::Payment))
				} else if n < a.nonce {
					Err(bad(InvalidTransaction::Stale))
				} else {
					let tag = |n: u32| (acc(w), n).encode();
					Ok(ValidTransaction {
						priority: 0,
						provides: vec![tag(n)],
						requires: if n > a.nonce { vec![tag(n - 1)] } else { vec![] },
						longevity: TransactionLongevity::MAX,
						propagate: true,
					})
				};
				cx.check(&["P04"], v == want, || format!("the pool answers {v:?} to {op:?}, must be {want:?}"));
				let r = ext().pre_dispatch(&acc(w), &call, &info, 0);
				let want = if !opens {
					Err(bad(InvalidTransaction::Payment))
				} else if n < a.nonce {
					Err(bad(InvalidTransaction::Stale))
				} else if n > a.nonce {
					Err(bad(InvalidTransaction::Future))
				} else {
					Ok(())
				};
				cx.outcome("transaction", match &want {
					Ok(()) => "included",
					Err(TransactionValidityError::Invalid(InvalidTransaction::Payment)) => "no funds",
					Err(TransactionValidityError::Invalid(InvalidTransaction::Stale)) => "stale",
					_ => "future",
				});
				cx.check(&["P04"], r == want, || format!("inclusion of {op:?} gives {r:?}, must be {want:?}"));
				if r != want {
					cx.prune = true;
					return;
				}
				if r.is_ok() {
					m.acc.entry(w).or_default().nonce += 1;
					self.call(m, By::Signed(w), &c, op, cx);
				}
			},
		}
		if cx.prune {
			return;
		}
		self.compare(m, cx);
	}
}

impl Sys {
	fn call(&self, m: &mut M, by: By, c: &Call, op: &Op, cx: &mut Cx) {
		if let By::Signed(w) = by {
			let call = real(c);
			let free = call.is_feeless(&RuntimeOrigin::signed(acc(w)));
			let want = match c {
				// whether a credential of another policy pays for its failure is left open
				Call::Dispense(k) if k.policy != 1 && k.good(w) => free,
				Call::Dispense(k) => k.good(w) && !m.dids.contains(&k.did),
				_ => false,
			};
			cx.check(&["P05"], free == want, || format!("{op:?} is {}, must {}be", if free { "free of charge" } else { "charged" }, if want { "not " } else { "" }));
		}
		let before = m.clone();
		let r = dispatch(by, c);
		let want = m.call(by, c);
		let name = match c {
			Call::Dispense(_) => "dispense",
			Call::Spend(_) => "spend",
			Call::SetAmount(_) => "set_dispense_amount",
		};
		cx.outcome(name, if want { "ok" } else { "refused" });
		let props: &[&str] = match c {
			Call::Dispense(_) => &["P01"],
			Call::SetAmount(_) => &["P03"],
			Call::Spend(_) => &["P02"],
		};
		if r.is_ok() != want {
			cx.check(props, false, || format!("{op:?} gives {r:?}, must be {} (before: {before:?})", if want { "accepted" } else { "refused" }));
			cx.prune = true;
		}
	}
	fn compare(&self, m: &M, cx: &mut Cx) {
		let (x, want) = (pallet_dispenser::DispenseAmount::<Rt>::get(), m.amount);
		cx.check(&["P03"], x == want, || format!("the amount to dispense is {x}, must be {want}"));
		for d in self.cfg.dids.iter() {
			let (x, want) = (pallet_dispenser::Dispensed::<Rt>::get(did(*d)).is_some(), m.dids.contains(d));
			cx.check(&["P01"], x == want, || format!("DID {d} counts as {}served, must be the opposite", if x { "" } else { "not " }));
		}
		let (x, want) = (Balances::free_balance(pot()), m.pot);
		cx.check(&["P02", "P03", "P01"], x == want, || format!("the pot has {x}, must have {want}"));
		let (x, want) = (Balances::total_issuance(), m.issuance);
		cx.check(&["P02"], x == want, || format!("issuance is {x}, must be {want}"));
		for (w, a) in m.acc.iter() {
			let x = System::account_nonce(acc(*w)) as u32;
			cx.check(&["P04"], x == a.nonce, || format!("account {w} has nonce {x}, must be {}", a.nonce));
			let x = Balances::free_balance(acc(*w));
			cx.check(&["P02", "P03"], x == a.free, || format!("account {w} has {x}, must have {}", a.free));
			let x: u128 = pallet_balances::Locks::<Rt>::get(acc(*w)).iter().map(|l| l.amount).sum();
			cx.check(&["P02"], x == a.lock, || format!("block {}: account {w} has {x} locked, must be {}", m.now, a.lock));
			if cx.on(&["P02"]) {
				let s: Vec<VestingInfo<u128, u64>> =
					pallet_vesting::Vesting::<Rt>::get(acc(*w)).map(|v| v.to_vec()).unwrap_or_default();
				let Terms { lock, vest, .. } = m.terms;
				let far = [lock, lock + vest / 2, lock + vest].into_iter().flat_map(|n| m.now + n - 1..m.now + n + 8);
				for n in (m.now..m.now + 8).chain(far) {
					let got: u128 = s.iter().map(|s| s.locked_at::<ConvertInto>(n)).sum();
					let want: u128 = a.schedules.iter().map(|s| locked_at(s, n)).sum();
					cx.check(&["P02"], got == want, || {
						format!("block {}: account {w} will have {got} locked in block {n}, must be {want} ({:?})", m.now, a.schedules)
					});
				}
			}
		}
	}
}
