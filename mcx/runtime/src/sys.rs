//! What all checks of the runtime share: accounts, the first state, every call there is.
use crate::*;
use engine::{Ext, Ignore};
use frame_support::{
	traits::{GetCallMetadata, GetCallName},
	storage::{with_transaction, TransactionOutcome},
};
use parity_scale_codec::Decode;
use sp_runtime::traits::{Dispatchable, TrailingZeroInput};
use std::sync::Arc;

pub type Acc = AccountId;
pub fn acc(n: u8) -> Acc {
	[n; 32].into()
}
/// the author of the block
pub const AUTHOR: u8 = 90;
/// an account with nothing but a balance
pub const RICH: u8 = 91;
pub const FUNDS: Balance = 100_000 * PLMC;

pub fn genesis(balances: Vec<(Acc, Balance)>, foreign: Vec<(AssetId, Acc, Balance)>) -> Vec<(Vec<u8>, Vec<u8>)> {
	let mut t = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Runtime> { balances }.assimilate_storage(&mut t).unwrap();
	pallet_assets::GenesisConfig::<Runtime, ForeignAssetsInstance> {
		assets: ASSETS.iter().map(|(id, _, _)| (*id, acc(0xff), true, 10)).collect(),
		metadata: ASSETS.iter().map(|(id, n, d)| (*id, n.as_bytes().to_vec(), n.as_bytes().to_vec(), *d)).collect(),
		accounts: foreign,
	}
	.assimilate_storage(&mut t)
	.unwrap();
	t.top.into_iter().collect()
}
/// the foreign assets: id, name, decimals
pub const ASSETS: [(AssetId, &str, u8); 3] = [(10, "DOT", 10), (1337, "USDC", 6), (1984, "USDT", 6)];

pub fn ignore() -> Ignore {
	let sys = sp_io::hashing::twox_128(b"System").to_vec();
	let acc = [sys.clone(), sp_io::hashing::twox_128(b"Account").to_vec()].concat();
	let num = [sys.clone(), sp_io::hashing::twox_128(b"Number").to_vec()].concat();
	Ignore { prefixes: vec![sys], keep: vec![acc, num] }
}
pub fn new_ext(balances: Vec<(Acc, Balance)>, foreign: Vec<(AssetId, Acc, Balance)>) -> Ext {
	Ext::from_pairs(genesis(balances, foreign), Arc::new(ignore()))
}
/// Hash of all storage but events and the like.
pub fn fingerprint() -> u128 {
	let ig = ignore();
	let mut key = vec![];
	let mut h: u128 = 0;
	while let Some(k) = sp_io::storage::next_key(&key) {
		// how deep transactions are nested
		let skip = k.starts_with(b":") || ig.prefixes.iter().any(|p| k.starts_with(p)) && !ig.keep.iter().any(|p| k.starts_with(p));
		if !skip {
			let v = sp_io::storage::get(&k).unwrap_or_default();
			h = h.wrapping_add(u128::from_le_bytes(sp_io::hashing::blake2_128(&(&k, &v[..]).encode())));
		}
		key = k;
	}
	h
}
/// Whatever `f` does is undone.
pub fn undone<R>(f: impl FnOnce() -> R) -> R {
	with_transaction(|| TransactionOutcome::Rollback(Ok::<R, sp_runtime::DispatchError>(f()))).unwrap()
}

/// Every call of every pallet that can be had from a handful of fixed encodings of its arguments.
pub fn every_call() -> Vec<(&'static str, &'static str, RuntimeCall)> {
	let mut out: Vec<(&'static str, &'static str, RuntimeCall)> = vec![];
	let mut put = |c: RuntimeCall| {
		let m = c.get_call_metadata();
		if !out.iter().any(|o| o.0 == m.pallet_name && o.1 == m.function_name) {
			out.push((m.pallet_name, m.function_name, c));
		}
	};
	for pallet in 0..=255u8 {
		for call in 0..=255u8 {
			for fill in [0u8, 1, 4] {
				let mut b = vec![pallet, call];
				b.extend(vec![fill; 400]);
				if let Ok(c) = RuntimeCall::decode(&mut TrailingZeroInput::new(&b)) {
					put(c);
				}
			}
		}
	}
	// calls with a reason to hold something
	let reason = participation();
	use pallet_linear_release::Call as L;
	let schedule = pallet_linear_release::VestingInfo::new(0, 0, 0);
	put(L::vest { reason }.into());
	put(L::vest_other { target: acc(0), reason }.into());
	put(L::vested_transfer { target: acc(0), schedule, reason }.into());
	put(L::force_vested_transfer { source: acc(0), target: acc(0), schedule, reason }.into());
	put(L::merge_schedules { schedule1_index: 0, schedule2_index: 1, reason }.into());
	use pallet_proxy_bonding::Call as B;
	put(B::transfer_bonds_back_to_treasury { derivation_path: 0, hold_reason: reason }.into());
	put(B::transfer_fees_to_recipient { derivation_path: 0, hold_reason: reason, fee_asset: 10 }.into());
	out
}
pub fn participation() -> RuntimeHoldReason {
	RuntimeHoldReason::Funding(pallet_funding::HoldReason::Participation)
}
/// The calls that the list above has to have.
pub fn all_names() -> Vec<(&'static str, &'static str)> {
	RuntimeCall::get_module_names()
		.iter()
		.flat_map(|m| RuntimeCall::get_call_names(m).iter().map(move |c| (*m, *c)))
		.collect()
}
pub fn names(c: &RuntimeCall) -> (&'static str, &'static str) {
	let m = c.get_call_metadata();
	(m.pallet_name, m.function_name)
}
/// What a call comes to, in short.
pub fn result(r: Result<(), sp_runtime::DispatchError>) -> &'static str {
	use sp_runtime::DispatchError as E;
	match r {
		Ok(()) => "ok",
		Err(E::BadOrigin) => "BadOrigin",
		Err(E::Module(m)) => m.message.unwrap_or("module"),
		Err(E::Other(x)) => x,
		Err(E::Token(_)) => "token",
		Err(_) => "other",
	}
}
/// Dispatch with a clean slate of inner results.
pub fn dispatch(c: RuntimeCall, o: RuntimeOrigin) -> Result<(), sp_runtime::DispatchError> {
	stubs::INNER.with(|i| i.borrow_mut().clear());
	with_transaction(|| match c.dispatch(o) {
		Ok(_) => TransactionOutcome::Commit(Ok(())),
		Err(e) => TransactionOutcome::Rollback(Err(e.error)),
	})
}
pub fn signed(n: u8) -> RuntimeOrigin {
	frame_system::RawOrigin::Signed(acc(n)).into()
}
pub fn root() -> RuntimeOrigin {
	frame_system::RawOrigin::Root.into()
}
pub fn none() -> RuntimeOrigin {
	frame_system::RawOrigin::None.into()
}
/// Counts and remembers the first thing wrong.
pub struct Tally {
	pub e: engine::Enumeration,
}
impl Tally {
	pub fn new(name: &str, rule: &str) -> Self {
		Tally {
			e: engine::Enumeration {
				name: name.into(),
				evaluated: 0,
				nontrivial: 0,
				rule: rule.into(),
				samples: vec![],
				violation: None,
			},
		}
	}
	/// `ok` has to hold; `counts` when the case is not trivially fine
	pub fn case(&mut self, counts: bool, ok: bool, what: impl Fn() -> String) {
		self.e.evaluated += 1;
		self.e.nontrivial += counts as u64;
		if counts && self.e.samples.len() < 5 && self.e.evaluated % 7 == 1 {
			self.e.samples.push(what());
		}
		if !ok && self.e.violation.is_none() {
			self.e.violation = Some(what());
		}
	}
	pub fn done(self, run: &mut engine::Run) {
		run.enumerate(self.e);
	}
}

/// Run enumerations in a fresh state; that anything panics is a violation.
pub fn explore(
	run: &mut engine::Run,
	balances: Vec<(Acc, Balance)>,
	foreign: Vec<(AssetId, Acc, Balance)>,
	f: impl FnOnce() -> Vec<Tally>,
) {
	let mut ext = new_ext(balances, foreign);
	match engine::run_in(&mut ext, f) {
		Ok(v) => v.into_iter().for_each(|t| t.done(run)),
		Err(e) => {
			let mut t = Tally::new("panic", "panics");
			t.case(true, false, || format!("panics: {e}"));
			t.done(run);
		},
	}
}
