//! Exhaustive enumeration of the inputs of the parts without state.
use crate::{runtime::*, sys::*};
use engine::{Enumeration, Run};
use pallet_funding::{
	traits::{BondingRequirementCalculation, VestingDurationCalculation},
	types::{
		AcceptedFundingAsset, BiddingTicketSizes, Bucket, ContributingTicketSizes, Multiplier, TicketSize,
	},
};
use polimec_common::ProvideAssetPrice;
use sp_arithmetic::{FixedPointNumber, FixedU128, Percent};

const ONE: u128 = 1_000_000_000_000_000_000;
/// of the token in the enumeration of buckets
const UNIT: u128 = 1_000_000_000_000;

/// Metadata at and around every limit.
pub fn metadata(run: &mut Run, meta: &Meta) {
	let mut e = Enumeration {
		name: "metadata-at-the-limits".into(),
		rule: "every combination of decimals 5, 6, 10, 18, 19, a price of 0, 0.000009, 0.00001, 0.5, 1000 and 1000.000001 \
		       USD, an allocation of 0, 1 token less one unit, 1, 100, 2000 and 3*10^9 tokens, a supply equal to it, one \
		       unit less, or large, an auction share of 0, 1 or 100 percent, ticket sizes at and below their minima and \
		       with a maximum below the minimum, and currencies with and without repetition, against integer arithmetic \
		       from the description; non-trivial: valid"
			.into(),
		..Default::default()
	};
	// (decimals, price in millionths of a USD)
	let usd = [0u128, 9, 10, 500_000, 1_000_000_000, 1_000_000_001];
	let sizes = |bid: bool| {
		let m = if bid { 5000 * USD } else { USD };
		vec![(m, None, true), (m - 1, None, false), (m, Some(m), true), (m + 1, Some(m), false), (m - 1, Some(m), false)]
	};
	let currencies: Vec<(Vec<AcceptedFundingAsset>, bool)> = {
		use AcceptedFundingAsset::*;
		vec![
			(vec![USDT], true),
			(vec![DOT, USDC, USDT], true),
			(vec![USDT, USDT], false),
			(vec![USDC, USDT, USDC], false),
			(vec![], true),
		]
	};
	'all: for dec in [5u8, 6, 10, 18, 19] {
		let unit = 10u128.pow(dec.into());
		for usd in usd {
			// decimal-aware: USD units per unit of the token
			let price = FixedU128::from_inner(usd * ONE / unit);
			// the price that this stands for, in 10^-18 USD
			let exact = price.into_inner() as i128;
			let normal = if dec >= 6 { exact * 10i128.pow(dec as u32 - 6) } else { exact / 10 };
			for alloc in [0, unit - 1, unit, 100 * unit, 2000 * unit, 3_000_000_000 * unit] {
				for supply in [alloc, alloc.saturating_sub(1), 10_000_000_000 * unit] {
					for share in [0u8, 1, 100] {
						for (bmin, bmax, bok) in sizes(true) {
							for (cmin, cmax, cok) in sizes(false) {
								for which in 0..5 {
									for (cur, uok) in &currencies {
										// ticket sizes other than the one at hand are fine
										let t = |k: usize, min: u128, max: Option<u128>, dflt: u128| {
											if which == k {
												TicketSize::new(min, max)
											} else {
												TicketSize::new(dflt, None)
											}
										};
										let mut m = meta.clone();
										m.token_information.decimals = dec;
										m.minimum_price = price;
										m.total_allocation_size = alloc;
										m.mainnet_token_max_supply = supply;
										m.auction_round_allocation_percentage = Percent::from_percent(share);
										m.bidding_ticket_sizes = BiddingTicketSizes {
											professional: t(0, bmin, bmax, 5000 * USD),
											institutional: t(1, bmin, bmax, 5000 * USD),
											phantom: Default::default(),
										};
										m.contributing_ticket_sizes = ContributingTicketSizes {
											retail: t(2, cmin, cmax, USD),
											professional: t(3, cmin, cmax, USD),
											institutional: t(4, cmin, cmax, USD),
											phantom: Default::default(),
										};
										m.participation_currencies = cur.clone().try_into().unwrap();
										let target = exact as u128 * (alloc / ONE) + exact as u128 * (alloc % ONE) / ONE;
										let want = (6..=18).contains(&dec) &&
											usd > 0 && normal >= ONE as i128 / 100_000 &&
											normal <= 1000 * ONE as i128 &&
											alloc >= unit && alloc <= supply &&
											share > 0 && *uok && (if which < 2 { bok } else { cok }) &&
											(1000 * USD..=1_000_000_000 * USD).contains(&target);
										e.evaluated += 1;
										e.nontrivial += want as u64;
										let got = m.is_valid().is_ok();
										if got != want {
											e.violation = Some(format!(
												"valid={got}, must be {want}: decimals {dec}, price {usd} millionths, \
												 allocation {alloc}, supply {supply}, auction {share}%, ticket sizes \
												 {:?} {:?}, currencies {cur:?}",
												m.bidding_ticket_sizes, m.contributing_ticket_sizes
											));
											break 'all;
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	e.samples = vec!["decimals 6, 0.5 USD, 2000 tokens of 2000, 1%, minima 5000 and 1 USD".into()];
	run.enumerate(e);
}

/// Prices and what is computed with them.
pub fn prices(run: &mut Run) {
	let mut e = Enumeration {
		name: "prices-there-and-back".into(),
		rule: "every price of up to 20000 millionths of a USD and around every power of ten up to 10^12 millionths, every \
		       number of decimals from 0 to 18: the decimal-aware price is exact, converts back to the price, and \
		       converts whole tokens and 1, 999, 10^9+7 units exactly; non-trivial: more decimals than USD"
			.into(),
		..Default::default()
	};
	let mut ks: Vec<u128> = (0..=if run.thorough { 2_000_000 } else { 20_000 }).collect();
	for p in 4..=12 {
		for d in 0..3u128 {
			ks.extend([10u128.pow(p) + d, 10u128.pow(p) - d, 3 * 10u128.pow(p) + d]);
		}
	}
	'all: for dec in 0..=18u8 {
		let unit = 10u128.pow(dec.into());
		for k in &ks {
			e.evaluated += 1;
			e.nontrivial += (dec > 6 && *k > 0) as u64;
			let price = FixedU128::from_inner(k * ONE / 1_000_000);
			let aware = Prices::calculate_decimals_aware_price(price, 6, dec);
			let want = FixedU128::from_inner(k * (ONE / unit));
			let back = aware.and_then(|a| Prices::convert_back_to_normal_price(a, 6, dec));
			if aware != Some(want) || back != Some(price) {
				e.violation =
					Some(format!("price {price:?}, {dec} decimals: {aware:?} and back {back:?}, must be {want:?}"));
				break 'all;
			}
			for a in [unit, 7 * unit, 1, 999, 1_000_000_007] {
				let usd = a / unit * k + a % unit * k / unit;
				if want.saturating_mul_int(a) != usd {
					e.violation = Some(format!("{a} units with {dec} decimals at {price:?} are not {usd} USD units"));
					break 'all;
				}
			}
		}
	}
	e.samples = vec!["8.4 USD, 10 decimals: 0.00084 USD units per unit".into()];
	run.enumerate(e);
}

pub fn multipliers(run: &mut Run) {
	let mut e = Enumeration {
		name: "every-multiplier".into(),
		rule: "every multiplier from 0 to 255: accepted exactly from 1 to 25; the bond required for tickets around powers \
		       of ten is the ticket divided by it; the vesting duration is (multiplier-1)*2.167 weeks in blocks of 12 \
		       seconds, at least one block; non-trivial: accepted"
			.into(),
		..Default::default()
	};
	'all: for x in 0..=255u8 {
		e.evaluated += 1;
		let m = Multiplier::try_from(x);
		if m.is_ok() != (1..=25).contains(&x) {
			e.violation = Some(format!("multiplier {x}: accepted={}", m.is_ok()));
			break;
		}
		let Ok(m) = m else { continue };
		e.nontrivial += 1;
		let got: u64 = m.calculate_vesting_duration::<Rt>();
		// 7 * 7200 blocks are a week
		let want = ((x as u64 - 1) * 2167 * 7 * 7200 / 1000).max(1);
		if got != want {
			e.violation = Some(format!("multiplier {x}: {got} blocks, must be {want}"));
			break;
		}
		for p in 0..30 {
			for d in 0..3 {
				let t = 10u128.pow(p) + d;
				if m.calculate_usd_bonding_requirement::<Rt>(t) != Some(t / x as u128) {
					e.violation = Some(format!("multiplier {x}: wrong bond for a ticket of {t}"));
					break 'all;
				}
			}
		}
	}
	e.samples = vec!["multiplier 25: 2621203 blocks".into()];
	run.enumerate(e);
}

/// The weighted average price of everything that can be sold in buckets.
pub fn buckets(run: &mut Run) {
	let mut e = Enumeration {
		name: "every-amount-sold".into(),
		rule: "allocations of 10 to 60 (quick) or 200 (thorough) tokens at three prices, everything up to three times the \
		       allocation sold one, three or all that is left of the bucket at a time: the bucket's price and rest after \
		       every sale, and the weighted average price, weighted by the value of what wins at each price (within \
		       10^-9), are as computed from the whole list of tokens; non-trivial: oversubscribed"
			.into(),
		..Default::default()
	};
	let most = if run.thorough { 200 } else { 60 };
	'all: for n in (10..=most).step_by(10) {
		for price in [ONE / 10, ONE, 7 * ONE + ONE / 3] {
			for step in [1u128, 3, u128::MAX] {
				let alloc = n as u128 * UNIT;
				let delta = alloc / 10;
				let p0 = FixedU128::from_inner(price);
				let dp = FixedU128::from_inner(price / 10);
				let mut b = Bucket::new(alloc, p0, dp, delta);
				let (mut sold, mut left, mut at) = (0u128, alloc, price);
				// (price, amount)
				let mut list: Vec<(u128, u128)> = vec![];
				while sold < 3 * alloc {
					let x = step.saturating_mul(UNIT).min(left);
					b.update(x);
					list.push((at, x));
					sold += x;
					left -= x;
					if left == 0 {
						left = delta;
						at += price / 10;
					}
					e.evaluated += 1;
					if (b.amount_left, b.current_price.into_inner()) != (left, at) {
						e.violation = Some(format!(
							"{n} tokens at {price}: after {sold} units the bucket has {} at {:?}, must have {left} at {at}",
							b.amount_left, b.current_price
						));
						break 'all;
					}
					// what wins
					let mut rest = alloc;
					let (mut num, mut den) = (0f64, 0f64);
					for (p, x) in list.iter().rev() {
						let w = rest.min(*x);
						rest -= w;
						let v = *p as f64 * w as f64;
						num += v * *p as f64;
						den += v;
					}
					// not sold: counted at the initial price
					let v = price as f64 * rest as f64;
					num += v * price as f64;
					den += v;
					let want = num / den;
					let got = b.calculate_wap(alloc).into_inner() as f64;
					e.nontrivial += (at > price) as u64;
					if (got - want).abs() > want * 1e-9 {
						e.violation = Some(format!(
							"{n} tokens at {price}, {sold} units sold in steps of {step}: average {got}, must be {want}"
						));
						break 'all;
					}
				}
			}
		}
	}
	e.samples = vec!["10 tokens at 1, 12 sold: 1.0208...".into()];
	run.enumerate(e);
}
