//! Messages from other chains: what is believed, and what assets are called.
use crate::{sys::*, *};
use engine::Run;
use frame_support::traits::{Contains, ContainsPair, ProcessMessageError};
use sp_runtime::traits::{Convert, MaybeEquivalence};
use crate::AssetId;
use xcm::v4::{
	Asset, AssetInstance, BodyId, BodyPart,
	Fungibility::{self, Fungible, NonFungible},
	Instruction::{self, HrmpChannelAccepted, HrmpChannelClosing, HrmpNewChannelOpenRequest, RefundSurplus, UnpaidExecution, WithdrawAsset},
	Junction::{AccountId32, GeneralIndex, GlobalConsensus, OnlyChild, PalletInstance, Parachain, Plurality},
	Junctions::{self, Here},
	Location,
	NetworkId::{Kusama, Polkadot},
	WeightLimit::Unlimited,
	Xcm,
};
use xcm_config::{cfg_pallet_xcm as pallet, cfg_xcm_executor as exec};

/// Locations: up to three junctions below this chain, its parent or its grandparent.
pub fn locations(deep: bool) -> Vec<Location> {
	let junctions = [
		Parachain(1000),
		Parachain(1001),
		Parachain(3344),
		PalletInstance(50),
		PalletInstance(51),
		GeneralIndex(1337),
		GeneralIndex(1984),
		GeneralIndex(10),
		AccountId32 { network: None, id: [1; 32] },
		Plurality { id: BodyId::Executive, part: BodyPart::Voice },
		Plurality { id: BodyId::Technical, part: BodyPart::Voice },
		GlobalConsensus(Polkadot),
		GlobalConsensus(Kusama),
		OnlyChild,
	];
	let mut inner: Vec<Junctions> = vec![Here];
	for a in &junctions {
		inner.push(a.clone().into());
		for b in &junctions {
			inner.push((a.clone(), b.clone()).into());
			if deep {
				inner.extend(junctions.iter().map(|c| Junctions::X3([a.clone(), b.clone(), c.clone()])));
			}
		}
	}
	let mut v: Vec<Location> =
		(0..=2).flat_map(|parents| inner.iter().map(move |i| Location { parents, interior: i.clone() })).collect();
	v.extend(names().into_iter().map(|n| n.0));
	v.sort();
	v.dedup();
	v
}
/// What the foreign assets are called elsewhere.
pub fn names() -> Vec<(Location, AssetId)> {
	let hub = |n| Location { parents: 1, interior: Junctions::X3([Parachain(1000), PalletInstance(50), GeneralIndex(n)]) };
	vec![(Location { parents: 1, interior: Here }, 10), (hub(1337), 1337), (hub(1984), 1984)]
}
pub fn hub() -> Location {
	Location { parents: 1, interior: Junctions::X1([Parachain(1000)]) }
}
fn known(l: &Location) -> Option<AssetId> {
	names().into_iter().find(|n| n.0 == *l).map(|n| n.1)
}

pub fn t10(run: &mut Run) {
	explore(run, vec![], vec![], || {
		let mut t = Tally::new("every-location", "a location that is an asset's name");
		use xcm_config::SupportedAssets as S;
		for l in locations(true) {
			let want = known(&l);
			t.case(want.is_some(), <S as Contains<Location>>::contains(&l) == want.is_some(), || format!("{l:?} is supported or not"));
			let got = <S as MaybeEquivalence<Location, AssetId>>::convert(&l);
			t.case(want.is_some(), got == want, || format!("{l:?} is taken for {got:?}"));
		}
		let mut n = Tally::new("every-number", "the number of an asset");
		for id in (0..=4000).chain([u32::MAX, 1337 << 8, 1984 << 8, 65_536 + 10]) {
			let want = names().into_iter().find(|n| n.1 == id).map(|n| n.0);
			let got = <xcm_config::SupportedAssets as MaybeEquivalence<Location, AssetId>>::convert_back(&id);
			n.case(want.is_some(), got == want, || format!("{id} is called {got:?}"));
		}
		let mut m = Tally::new("every-list", "all lists of the assets agree");
		use pallet_funding::AcceptedFundingAsset as F;
		use pallet_oracle_ocw::types::AssetName as N;
		use shared_configuration::currency::AssetPriceConverter as P;
		let price = sp_runtime::FixedU128::from_rational(7, 3);
		for (asset, name, id, decimals) in [
			(Some(F::DOT), N::DOT, 10, 10u8),
			(Some(F::USDC), N::USDC, 1337, 6),
			(Some(F::USDT), N::USDT, 1984, 6),
			(None, N::PLMC, 3344, 10),
		] {
			let what = format!("{name:?}");
			if let Some(a) = asset {
				m.case(true, a.id() == id, || format!("{what} is {} to the funding pallet", a.id()));
				m.case(true, ASSETS.iter().any(|x| x.0 == id && x.2 == decimals), || format!("{what} has other decimals"));
				let v3 = ConvertMultilocationToAssetId::convert(fees::location(id));
				m.case(true, v3 == id, || format!("{what} is {v3} when fees are paid"));
			}
			let got = <P as Convert<_, _>>::convert((name, price));
			m.case(true, got == (id, price), || format!("the price of {what} is fed as {got:?}"));
		}
		m.case(true, polimec_common::PLMC_FOREIGN_ID == 3344, || "PLMC has another number".into());
		vec![t, n, m]
	});
}

/// What a message may bring here, and what may be sent from here.
pub fn t05(run: &mut Run) {
	let deep = run.thorough;
	explore(run, vec![(acc(1), FUNDS)], vec![], || {
		let all = locations(true);
		let some = locations(false);
		let mut r = Tally::new("every-asset-from-every-origin", "assets that are not believed");
		let origins = if deep { &all } else { &some };
		let asset = |l: &Location, fun: Fungibility| Asset { id: l.clone().into(), fun };
		let amounts = [Fungible(1), Fungible(u128::MAX), NonFungible(AssetInstance::Undefined)];
		for o in origins {
			for l in if *o == hub() { &all } else { &some } {
				for fun in &amounts {
					let a = asset(l, *fun);
					let want = *o == hub() && known(l).is_some();
					let got = <exec::IsReserve as ContainsPair<Asset, Location>>::contains(&a, o);
					r.case(!want, got == want, || format!("{a:?} from {o:?} is believed: {got}"));
					let got = <exec::IsTeleporter as ContainsPair<Asset, Location>>::contains(&a, o);
					r.case(true, !got, || format!("{a:?} is teleported from {o:?}"));
				}
			}
		}
		let mut c = Tally::new("every-call", "calls in messages");
		for (p, n, call) in every_call() {
			let got = <exec::SafeCallFilter as Contains<RuntimeCall>>::contains(&call);
			c.case(true, !got, || format!("{p}.{n} can be called by a message"));
		}
		// what accounts may do
		let mut s = Tally::new("every-transfer", "transfers by accounts");
		for o in &some {
			for l in if *o == hub() { &all } else { &some } {
				let a = asset(l, Fungible(5));
				let dot = asset(&names()[0].0, Fungible(5));
				for assets in [vec![a.clone()], vec![a.clone(), dot.clone()], vec![dot.clone(), a.clone()]] {
					let item = (o.clone(), assets);
					let want = known(l).is_some();
					let got = <pallet::XcmReserveTransferFilter as Contains<(Location, Vec<Asset>)>>::contains(&item);
					s.case(!want, got == want, || format!("{item:?} may be transferred: {got}"));
					let got = <pallet::XcmTeleportFilter as Contains<(Location, Vec<Asset>)>>::contains(&item);
					s.case(true, !got, || format!("{item:?} may be teleported"));
				}
			}
			let item = (o.clone(), Xcm::<RuntimeCall>(vec![WithdrawAsset(vec![asset(&names()[0].0, Fungible(5))].into())]));
			let got = <pallet::XcmExecuteFilter as Contains<(Location, Xcm<RuntimeCall>)>>::contains(&item);
			s.case(true, !got, || format!("{o:?} may have a message executed"));
		}
		// notes about channels come from the relay chain
		let mut h = Tally::new("every-note", "notes about channels that are not heard");
		use stubs::xcm_executor::traits::{Properties, ShouldExecute};
		type Notes = xcm_config::AllowHrmpNotifications<xcm_config::ParentOrParentsExecutivePlurality>;
		let kinds = 6;
		let make = |k: usize| -> Instruction<RuntimeCall> {
			match k {
				0 => HrmpNewChannelOpenRequest { sender: 1, max_message_size: 1, max_capacity: 1 },
				1 => HrmpChannelAccepted { recipient: 1 },
				2 => HrmpChannelClosing { initiator: 1, sender: 1, recipient: 1 },
				3 => UnpaidExecution { weight_limit: Unlimited, check_origin: None },
				4 => RefundSurplus,
				_ => WithdrawAsset(vec![].into()),
			}
		};
		for o in &all {
			let trusted = o.parents == 1 &&
				match o.interior.clone() {
					Here => true,
					Junctions::X1([Plurality { id: BodyId::Executive, .. }]) => true,
					_ => false,
				};
			let mut lists: Vec<Vec<usize>> = vec![vec![]];
			lists.extend((0..kinds).map(|a| vec![a]));
			lists.extend((0..kinds).flat_map(|a| (0..kinds).map(move |b| vec![a, b])));
			for l in lists {
				let want = trusted && l.len() == 1 && l[0] < 3;
				let mut m: Vec<_> = l.iter().map(|k| make(*k)).collect();
				let mut p = Properties { weight_credit: Default::default(), message_id: None };
				let got = Notes::should_execute(o, &mut m, Default::default(), &mut p);
				h.case(!want, got.is_ok() == want, || format!("{l:?} from {o:?}: {got:?}"));
			}
		}
		let _ = ProcessMessageError::Unsupported;
		// the relay chain's notes reach the funding pallet
		let mut f = Tally::new("every-channel", "notes about channels of this chain");
		use xcm_executor_shim::traits::{HandleHrmpChannelAccepted, HandleHrmpNewChannelOpenRequest};
		for para in [0, 1, 1000, 3344] {
			for (size, capacity) in [(50_000, 8), (102_400, 1000), (49_999, 8), (102_401, 8), (60_000, 7), (60_000, 1001)] {
				// no project waits for one
				let a = fingerprint();
				let r = undone(|| <exec::HrmpNewChannelOpenRequestHandler as HandleHrmpNewChannelOpenRequest>::handle(para, size, capacity));
				let direct = undone(|| <Funding as HandleHrmpNewChannelOpenRequest>::handle(para, size, capacity));
				f.case(true, r == direct && r.is_err() && fingerprint() == a, || format!("a channel from {para} comes to {r:?}"));
			}
			let r = undone(|| <exec::HrmpChannelAcceptedHandler as HandleHrmpChannelAccepted>::handle(para));
			let direct = undone(|| <Funding as HandleHrmpChannelAccepted>::handle(para));
			f.case(true, r == direct && r.is_err(), || format!("an accepted channel to {para} comes to {r:?}"));
		}
		vec![r, c, s, h, f]
	});
}
