//! What fees come to, and where they go.
use crate::{sys::*, *};
use engine::Run;
use frame_support::{
	dispatch::{DispatchInfo, PostDispatchInfo},
	traits::{
		fungible::{self, Balanced as _, Inspect as _, InspectHold as _},
		fungibles::{Inspect as _, Mutate as _},
		tokens::{Fortitude, Precision, Preservation},
		OnUnbalanced,
	},
	weights::{Weight, WeightToFee as _},
};
use pallet_asset_tx_payment::OnChargeAssetTransaction;
use pallet_transaction_payment::OnChargeTransaction;
use sp_runtime::{
	traits::AccountIdConversion,
	transaction_validity::{InvalidTransaction, TransactionValidityError},
	FixedU128,
};
use xcm::v3::MultiLocation;

/// where fees and dust go
pub fn operations() -> Acc {
	frame_support::PalletId(*b"plmc/stk").into_account_truncating()
}
/// where what is taken for bad behaviour goes
pub fn treasury() -> Acc {
	Treasury::account_id()
}
/// what assets are called elsewhere
pub fn location(asset: AssetId) -> MultiLocation {
	use xcm::v3::{Junction::*, Junctions::*};
	match asset {
		10 => MultiLocation { parents: 1, interior: Here },
		n => MultiLocation { parents: 1, interior: X3(Parachain(1000), PalletInstance(50), GeneralIndex(n.into())) },
	}
}
fn price(asset: AssetId, micro_usd: Option<u128>) {
	match micro_usd {
		Some(p) => Oracle::agree(&asset, FixedU128::from_rational(p, 1_000_000)),
		None => Oracle::forget(&asset),
	}
}
type Charge = <Runtime as pallet_asset_tx_payment::Config>::OnChargeAssetTransaction;
type Native = <Runtime as pallet_transaction_payment::Config>::OnChargeTransaction;
fn no_call() -> RuntimeCall {
	frame_system::Call::remark { remark: vec![] }.into()
}
/// What `plmc` is worth in an asset: exactly, and by how much the payment may differ. Prices are millionths of a dollar
/// for a whole coin.
fn worth(plmc: Balance, plmc_price: u128, price: u128, decimals: u8) -> (f64, f64) {
	let dollars = plmc as f64 / 1e10 * plmc_price as f64 / 1e6;
	let unit = 10f64.powi(decimals as i32);
	let exact = dollars / (price as f64 / 1e6) * unit;
	// dollars are counted in millionths, amounts in units
	let slack = 1e-6 / (price as f64 / 1e6) * unit + 2. + exact * 1e-9;
	(exact, slack)
}
fn all(asset: AssetId) -> Vec<Balance> {
	let mut v: Vec<Balance> =
		[acc(RICH), operations(), acc(AUTHOR), treasury()].iter().map(|a| ForeignAssets::balance(asset, a)).collect();
	v.push(ForeignAssets::total_issuance(asset));
	v
}
pub fn t03(run: &mut Run) {
	let thorough = run.thorough;
	let foreign = ASSETS
		.iter()
		.flat_map(|(id, _, d)| {
			[RICH, AUTHOR, 4].iter().map(|n| (*id, acc(*n), 10u128.pow(*d as u32) * 1_000_000)).collect::<Vec<_>>()
		})
		.chain(ASSETS.iter().map(|(id, _, _)| (*id, operations(), 1000)))
		.collect();
	explore(run, vec![(acc(RICH), FUNDS), (acc(AUTHOR), FUNDS), (operations(), PLMC)], foreign, || {
		pallet_authorship::Author::<Runtime>::put(acc(AUTHOR));
		let me = acc(RICH);
		let (c, i, p) = (no_call(), DispatchInfo::default(), PostDispatchInfo::default());
		let mut t = Tally::new("every-fee-and-price", "a fee that is not zero, with a price for both");
		let mut poor = Tally::new("every-balance", "an account that cannot pay");
		let mut moved = Tally::new("every-change-of-price", "a price that changes while the fee is held");
		let mut else_ = Tally::new("every-location", "locations that name nothing that fees are paid in");
		let mut fees: Vec<Balance> = vec![0, 1, 9_999, 10_000, 16_667, 1_000_003, 100 * 10u128.pow(6), 123_456_789, PLMC, 1_234 * PLMC + 567];
		let mut coin: Vec<u128> = vec![1, 10_000, 587_123, 1_000_000, 13_000_001, 1_000_000_000];
		let mut asset_prices: Vec<u128> = vec![20_000, 999_999, 1_000_000, 1_000_001, 7_654_321, 1_234_567_890];
		if thorough {
			fees.extend((0..60).map(|k| 3u128.pow(k % 38).wrapping_add(k as u128)));
			coin.extend((1..20).map(|k| 7u128.pow(k % 11) + k as u128));
			asset_prices.extend((1..20).map(|k| 11_003 + 5u128.pow(k % 14)));
		}
		let withdraw = |asset: AssetId, who: &Acc, fee: Balance, tip: Balance| {
			<Charge as OnChargeAssetTransaction<Runtime>>::withdraw_fee(who, &c, &i, location(asset), fee, tip)
		};
		let correct = |fee: Balance, tip: Balance, paid| {
			<Charge as OnChargeAssetTransaction<Runtime>>::correct_and_deposit_fee(&me, &i, &p, fee, tip, paid)
		};
		for (asset, name, decimals) in ASSETS {
			// whatever the others cost
			for other in [10, 1337, 1984] {
				price(other, Some(777_777_777));
			}
			for coin in &coin {
				for asset_price in &asset_prices {
					price(3344, Some(*coin));
					price(asset, Some(*asset_price));
					for fee in &fees {
						let (exact, slack) = worth(*fee, *coin, *asset_price, decimals);
						if exact > 1e6 * 10f64.powi(decimals as i32) {
							continue;
						}
						let near = |x: Balance, fee: Balance| {
							let (exact, slack) = worth(fee, *coin, *asset_price, decimals);
							(x as f64 - exact).abs() <= slack && (fee == 0 || x >= 1) && (fee > 0 || x == 0)
						};
						for (tip, spent) in [
							(0, *fee),
							(fee / 3, *fee),
							(*fee, *fee),
							(0, fee / 2),
							(fee / 4, fee / 2),
							(fee / 7, fee / 7),
							(0, 0),
						] {
							let ok = undone(|| {
								let a = all(asset);
								let paid = match withdraw(asset, &me, *fee, tip) {
									Ok(x) => x,
									Err(e) => return Err(format!("is refused: {e:?}")),
								};
								let b = all(asset);
								let w = a[0] - b[0];
								if !near(w, *fee) {
									return Err(format!("{w} is withdrawn"));
								}
								if b[1] != a[1] || b[2] != a[2] || b[3] != a[3] {
									return Err("somebody is paid at once".into());
								}
								let said = correct(spent, tip, paid);
								let z = all(asset);
								let (pot, author) = (z[1] - a[1], z[2] - a[2]);
								if z[0] + pot + author != a[0] || z[4] != a[4] || z[3] != a[3] {
									return Err(format!("the sums are off: {a:?} becomes {z:?}"));
								}
								let cost = a[0] - z[0];
								if !near(cost, spent) || cost > w {
									return Err(format!("{cost} is paid after {w} was withdrawn"));
								}
								// a tip has no least amount of its own
								let (te, ts) = worth(tip, *coin, *asset_price, decimals);
								if (author as f64 - te).abs() > ts || author > cost || (tip == 0 && author > 0) {
									return Err(format!("{author} is for the author"));
								}
								if said != Ok((cost, author)) {
									return Err(format!("{said:?} is said of {cost}, of which {author} for the author"));
								}
								Ok(())
							});
							t.case(*fee > 0, ok.is_ok(), || {
								format!(
									"a fee of {fee} (tip {tip}, spent {spent}) in {name} at {asset_price}, PLMC at {coin}, about {exact:.1}±{slack:.1}: {}",
									ok.clone().err().unwrap_or("is as it should be".into())
								)
							});
						}
					}
				}
			}
			// who cannot pay
			price(3344, Some(587_123));
			price(asset, Some(7_654_321));
			for fee in [16_667, PLMC, 1_234 * PLMC] {
				let w = undone(|| {
					let a = ForeignAssets::balance(asset, &me);
					let _ = withdraw(asset, &me, fee, 0);
					a - ForeignAssets::balance(asset, &me)
				});
				for has in [0, 1, w / 2, w.saturating_sub(1), w, w + 9, w + 10, 2 * w + 10] {
					let ok = undone(|| {
						let x = acc(5);
						if has >= 10 {
							ForeignAssets::mint_into(asset, &x, has).unwrap();
						}
						let has = ForeignAssets::balance(asset, &x);
						let issued = ForeignAssets::total_issuance(asset);
						let r = withdraw(asset, &x, fee, 0).map(|p| {
							let _ = correct(fee, 0, p);
						});
						let left = ForeignAssets::balance(asset, &x);
						let want = has >= w + 10;
						match r {
							// may be left with what is less than the least there is of it
							Ok(()) if has >= w && left == has - w && issued == ForeignAssets::total_issuance(asset) => Ok(()),
							Err(TransactionValidityError::Invalid(InvalidTransaction::Payment))
								if !want && left == has && issued == ForeignAssets::total_issuance(asset) =>
								Ok(()),
							r => Err(format!("{r:?}, and {left} is left")),
						}
					});
					poor.case(has < w + 10, ok.is_ok(), || format!("a fee of {w} {name} from {has}: {:?}", ok.clone()));
				}
			}
			// the price changes
			for (x, y) in [(1_000_000, 2_000_000), (2_000_000, 1_000_000), (1_000_000, 20_000), (1_000_000, 1_000_000_000)] {
				for which in [asset, 3344] {
					for (fee, tip, spent) in [(PLMC, 0, PLMC), (PLMC, PLMC / 10, PLMC / 2), (PLMC, PLMC / 2, PLMC), (777_777, 0, 0)] {
						let ok = undone(|| {
							price(3344, Some(600_000));
							price(asset, Some(1_000_000));
							price(which, Some(x));
							let a = all(asset);
							let paid = withdraw(asset, &me, fee, tip).map_err(|e| format!("{e:?}"))?;
							let w = a[0] - all(asset)[0];
							price(which, Some(y));
							let _ = correct(spent, tip, paid);
							let z = all(asset);
							let cost = a[0].checked_sub(z[0]).ok_or("more comes back than was paid")?;
							let now = |fee| {
								let (p, q) = if which == asset { (600_000, y) } else { (y, 1_000_000) };
								worth(fee, p, q, decimals)
							};
							let (exact, slack) = now(spent);
							let fine = cost <= w && (cost as f64 - exact.min(w as f64)).abs() <= slack;
							if !fine || z[1] - a[1] + z[2] - a[2] != cost || z[3] != a[3] || z[4] != a[4] {
								return Err(format!("{a:?} becomes {z:?}, {exact}±{slack} due of {w}"));
							}
							Ok(())
						});
						moved.case(true, ok.is_ok(), || format!("{fee} (tip {tip}, spent {spent}) in {name}, {which} from {x} to {y}: {:?}", ok.clone()));
					}
				}
			}
			// a price is missing
			for gone in [3344, asset] {
				let ok = undone(|| {
					price(3344, Some(600_000));
					price(asset, Some(1_000_000));
					price(gone, None);
					let a = all(asset);
					let r = withdraw(asset, &me, PLMC, 0).map(|_| ());
					r == Err(InvalidTransaction::Payment.into()) && all(asset) == a
				});
				poor.case(true, ok, || format!("a fee in {name} with no price for {gone} is not refused"));
			}
		}
		// what else there might be: locations that look alike
		use xcm::v3::{Junction::*, Junctions::*};
		for other in [10, 1337, 1984, 3344] {
			price(other, Some(1_000_000));
		}
		let known: Vec<MultiLocation> = ASSETS.iter().map(|a| location(a.0)).collect();
		let single = [
			Parachain(1000), Parachain(1001), Parachain(2034), PalletInstance(50), PalletInstance(51), PalletInstance(14),
			GeneralIndex(1337), GeneralIndex(1984), GeneralIndex(10), GeneralIndex(3344), GeneralIndex(0), OnlyChild,
		];
		let mut interiors = vec![Here];
		for a in single {
			interiors.push(X1(a));
			for b in single {
				interiors.push(X2(a, b));
				for c in single {
					interiors.push(X3(a, b, c));
					interiors.push(X4(a, b, c, OnlyChild));
				}
			}
		}
		for parents in 0..=2 {
			for interior in &interiors {
				let l = MultiLocation { parents, interior: *interior };
				let want = ASSETS.iter().map(|a| a.0).filter(|a| location(*a) == l).next();
				let (r, paid) = undone(|| {
					let before: Vec<_> = ASSETS.iter().map(|a| ForeignAssets::balance(a.0, &me)).collect();
					let r = <Charge as OnChargeAssetTransaction<Runtime>>::withdraw_fee(&me, &c, &i, l, PLMC, 0).map(|x| x.asset());
					let paid: Vec<AssetId> = ASSETS
						.iter()
						.zip(before)
						.filter(|(a, b)| ForeignAssets::balance(a.0, &me) != *b)
						.map(|(a, _)| a.0)
						.collect();
					(r.ok(), paid)
				});
				else_.case(!known.contains(&l), r == want && paid == want.into_iter().collect::<Vec<_>>(), || {
					format!("a fee in {l:?} is paid in {r:?}: {paid:?}")
				});
			}
		}
		vec![t, poor, moved, else_]
	});
}

pub fn t04(run: &mut Run) {
	let thorough = run.thorough;
	let plenty = 1_000 * PLMC;
	let who = || vec![acc(RICH), acc(AUTHOR), operations(), treasury()];
	explore(run, who().into_iter().map(|a| (a, plenty)).collect(), vec![], || {
		let (c, i, p) = (no_call(), DispatchInfo::default(), PostDispatchInfo::default());
		let state = || who().iter().map(Balances::balance).chain([Balances::total_issuance()]).collect::<Vec<_>>();
		let mut t = Tally::new("every-fee", "fees that are not zero");
		let mut fees: Vec<Balance> = vec![0, 1, 2, 3, 99, 100, 101, 12_345, PLMC, 500 * PLMC, plenty - EXISTENTIAL, plenty, plenty + 1];
		if thorough {
			fees.extend((0..25).flat_map(|k| [3u128.pow(k), 3u128.pow(k) + 1]));
		}
		for payer in [RICH, AUTHOR] {
			pallet_authorship::Author::<Runtime>::put(acc(AUTHOR));
			let me = acc(payer);
			for fee in &fees {
				for tip in [0, 1, fee / 100, fee / 2, *fee] {
					for spent in [*fee, fee / 2, tip, 0] {
						if tip > *fee || spent < tip {
							continue;
						}
						let ok = undone(|| {
							let a = state();
							let paid = match <Native as OnChargeTransaction<Runtime>>::withdraw_fee(&me, &c, &i, *fee, tip) {
								Ok(x) => x,
								Err(_) if *fee > plenty - EXISTENTIAL && state() == a => return Ok(()),
								Err(e) => return Err(format!("is refused: {e:?}")),
							};
							if *fee > plenty - EXISTENTIAL {
								return Err("is taken".into());
							}
							let r = <Native as OnChargeTransaction<Runtime>>::correct_and_deposit_fee(&me, &i, &p, spent, tip, paid);
							let z = state();
							let mut want = a.clone();
							want[if payer == RICH { 0 } else { 1 }] -= spent;
							want[2] += spent - tip;
							want[1] += tip;
							if r.is_err() || z != want {
								return Err(format!("{r:?}: {a:?} becomes {z:?}"));
							}
							Ok(())
						});
						t.case(*fee > 0, ok.is_ok(), || format!("a fee of {fee} (tip {tip}, spent {spent}) from {payer}: {:?}", ok.clone()));
					}
				}
			}
		}
		// what is too little to keep
		let mut d = Tally::new("every-dust", "an account that goes with something left on it");
		for dust in [1, 2, EXISTENTIAL / 2, EXISTENTIAL - 1] {
			for to in [acc(AUTHOR), treasury(), operations(), acc(9)] {
				let ok = undone(|| {
					let a = state();
					let there = Balances::balance(&to);
					let sent = plenty - dust;
					let r = dispatch(pallet_balances::Call::transfer_allow_death { dest: to.clone().into(), value: sent }.into(), signed(RICH));
					let z = state();
					let mine = if to == operations() { dust } else { 0 };
					r.is_ok() && z[0] == 0 && z[4] == a[4] &&
						z[2] == a[2] + dust + if mine > 0 { sent } else { 0 } &&
						Balances::balance(&to) == there + sent + mine
				});
				d.case(true, ok, || format!("{dust} left by a transfer to {to:?} does not go where it should"));
			}
		}
		// what is taken
		let mut s = Tally::new("everything-taken", "what is taken for bad behaviour");
		for amount in [1, 2, 99, EXISTENTIAL, PLMC, 999 * PLMC] {
			for which in 0..4 {
				let ok = undone(|| {
					let a = state();
					let credit = <Balances as fungible::Balanced<Acc>>::withdraw(
						&acc(RICH),
						amount,
						Precision::Exact,
						Preservation::Expendable,
						Fortitude::Polite,
					)
					.map_err(|e| format!("{e:?}"))?;
					match which {
						0 => <Runtime as pallet_democracy::Config>::Slash::on_unbalanced(credit),
						1 => <Runtime as pallet_elections_phragmen::Config>::LoserCandidate::on_unbalanced(credit),
						2 => <Runtime as pallet_democracy::Config>::Slash::on_nonzero_unbalanced(credit),
						_ => <Runtime as pallet_democracy::Config>::Slash::on_unbalanceds(Some(credit).into_iter()),
					}
					let z = state();
					let mut want = a.clone();
					want[0] -= amount;
					want[3] += amount;
					if z != want {
						return Err(format!("{a:?} becomes {z:?}"));
					}
					Ok(())
				});
				s.case(true, ok.is_ok(), || format!("{amount} taken by {which}: {:?}", ok.clone()));
			}
		}
		// and by the calls that take it
		let ok = undone(|| {
			let a = state();
			let held = 100 * PLMC;
			let call = RuntimeCall::System(frame_system::Call::remark { remark: vec![1] });
			use frame_support::traits::{Bounded, StorePreimage};
			let proposal = <Runtime as pallet_democracy::Config>::Preimages::bound(call).unwrap();
			let r = dispatch(pallet_democracy::Call::propose { proposal, value: held }.into(), signed(RICH));
			if r.is_err() || Balances::total_balance_on_hold(&acc(RICH)) != held {
				return Err(format!("the proposal comes to {r:?}"));
			}
			let r = dispatch(pallet_democracy::Call::cancel_proposal { prop_index: 0 }.into(), root());
			let z = state();
			let mut want = a.clone();
			want[0] -= held;
			want[3] += held;
			if r.is_err() || z != want || Balances::total_balance_on_hold(&acc(RICH)) != 0 {
				return Err(format!("{r:?}: {a:?} becomes {z:?}"));
			}
			Ok(())
		});
		s.case(true, ok.is_ok(), || format!("the deposit of a cancelled proposal: {:?}", ok.clone()));
		vec![t, d, s]
	});
}
pub const EXISTENTIAL: Balance = 10 * 10u128.pow(7);

/// Who has a say: what there is but for what the treasuries have.
pub fn t07(run: &mut Run) {
	let amounts: Vec<Balance> = vec![0, EXISTENTIAL, 3 * PLMC, 1_000_000 * PLMC, u64::MAX as u128 * 1000];
	explore(run, vec![], vec![], || {
		let mut t = Tally::new("every-balance-of-the-treasuries", "a treasury has something");
		let held: RuntimeHoldReason = pallet_democracy::HoldReason::Proposal.into();
		for rest in &amounts {
			for growth in &amounts {
				for operation in &amounts {
					for part in [0u128, 1, 2] {
						let (got, want) = undone(|| {
							for (a, n) in [(acc(1), rest), (treasury(), growth), (operations(), operation)] {
								if *n > 0 {
									let _ = dispatch(
										pallet_balances::Call::force_set_balance { who: a.into(), new_free: *n }.into(),
										root(),
									);
								}
							}
							// what others have on hold is still theirs to vote with
							let hold = rest / 2 * (part.min(1)).min(rest / PLMC);
							if hold > 0 {
								use frame_support::traits::fungible::MutateHold;
								Balances::hold(&held, &acc(1), hold).unwrap();
							}
							// what is sent there counts at once
							if part == 2 && *rest > 2 * PLMC {
								let _ = dispatch(
									pallet_balances::Call::transfer_allow_death { dest: treasury().into(), value: PLMC }.into(),
									signed(1),
								);
							}
							use pallet_democracy::GetElectorate;
							let got = <Runtime as pallet_democracy::Config>::Electorate::get_electorate();
							let all = Balances::total_issuance();
							(got, all - Balances::balance(&treasury()) - Balances::balance(&operations()))
						});
						t.case(growth + operation > 0, got == want, || {
							format!("{rest} with the people, {growth} and {operation} in the treasuries: {got} votes, to be {want}")
						});
					}
				}
			}
		}
		vec![t]
	});
}

/// What weight and length cost.
pub fn t08(run: &mut Run) {
	let thorough = run.thorough;
	explore(run, vec![], vec![], || {
		let cost = |t: u64, p: u64| <Runtime as pallet_transaction_payment::Config>::WeightToFee::weight_to_fee(&Weight::from_parts(t, p));
		let base = frame_support::weights::constants::ExtrinsicBaseWeight::get().ref_time();
		let mut t = Tally::new("every-weight", "weights that are not zero");
		let mut times: Vec<u64> = vec![0, 1, 2, 999, base / 2, base - 1, base, base + 1, 10 * base, 1_000 * base, 500_000_000_000, 2_000_000_000_000];
		let mut sizes: Vec<u64> = vec![0, 1, 9, 10, 9_999, 10_000, 10_001, 65_536, 5 * 1024 * 1024, 10 * 1024 * 1024];
		let steps = if thorough { 400 } else { 60 };
		times.extend((1..steps).map(|k| 2_000_000_000_000 / steps * k));
		sizes.extend((1..steps).map(|k| 10 * 1024 * 1024 / steps * k));
		times.sort();
		sizes.sort();
		// 0.01 PLMC for a hundred times the least, and for ten thousand bytes
		let (per_time, per_size) = (10u128.pow(8) as f64 / (100. * base as f64), 10u128.pow(8) as f64 / 10_000.);
		for x in &times {
			for y in &sizes {
				let got = cost(*x, *y) as f64;
				let want = (*x as f64 * per_time).max(*y as f64 * per_size);
				let ok = (got - want).abs() <= 2. + want * 1e-6;
				t.case(*x + *y > 0, ok, || format!("{x} and {y} cost {got}, to be {want}"));
			}
		}
		let mut m = Tally::new("every-step", "more weight");
		for x in times.windows(2) {
			for y in &sizes {
				m.case(x[0] < x[1], cost(x[0], *y) <= cost(x[1], *y), || format!("{x:?} and {y}: more time costs less"));
			}
		}
		for y in sizes.windows(2) {
			for x in &times {
				m.case(y[0] < y[1], cost(*x, y[0]) <= cost(*x, y[1]), || format!("{x} and {y:?}: more proof costs less"));
			}
		}
		let mut l = Tally::new("every-length", "a call that has a length");
		for len in (0..2_000u32).chain([10_000, 100_000, 5 * 1024 * 1024]) {
			let got = TransactionPayment::length_to_fee(len);
			l.case(len > 0, got == len as u128 * 100_000, || format!("{len} bytes cost {got}"));
		}
		vec![t, m, l]
	});
}
