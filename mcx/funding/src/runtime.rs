//! A runtime of the real funding, proxy-bonding, linear-release and balances pallets.
use frame_support::{
	construct_runtime, derive_impl, parameter_types,
	traits::{ConstU32, ConstU64, ConstU8, WithdrawReasons},
	PalletId,
};
use pallet_funding::types::{AcceptedFundingAsset, DaysToBlocks, Multiplier};
use polimec_common::{
	credentials::{Cid, Did, EnsureInvestor, InvestorType, SampleClaims},
	ProvideAssetPrice, PLMC_DECIMALS, PLMC_FOREIGN_ID, USD_DECIMALS,
};
use sp_runtime::{
	traits::{Convert, ConvertBack, ConvertInto, IdentityLookup},
	AccountId32, FixedU128, Perbill, Percent, Perquintill,
};
use std::{
	cell::RefCell,
	collections::{BTreeMap, HashMap},
	ops::RangeInclusive,
};

pub type Acc = AccountId32;
pub type Block = frame_system::mocking::MockBlock<Rt>;
pub type PlmcAssets = pallet_assets::Instance1;
pub type ForeignInstance = pallet_assets::Instance2;

pub const USD: u128 = 10u128.pow(USD_DECIMALS as u32);
pub const PLMC: u128 = 10u128.pow(PLMC_DECIMALS as u32);
pub const ED: u128 = PLMC / 100;
/// decimals of the token that a project sells
pub const CT: u128 = 1_000_000;
pub const MIN_ASSET: u128 = 70_000;
pub const DOT_MIN: u128 = 100_000_000;

construct_runtime!(
	pub enum Rt
	{
		System: frame_system,
		Timestamp: pallet_timestamp,
		Balances: pallet_balances,
		LinearRelease: pallet_linear_release,
		ContributionTokens: pallet_assets::<Instance1>,
		ForeignAssets: pallet_assets::<Instance2>,
		PolkadotXcm: pallet_xcm,
		Funding: pallet_funding = 52,
		ProxyBonding: pallet_proxy_bonding,
	}
);

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Rt {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = Acc;
	type Block = Block;
	type Lookup = IdentityLookup<Acc>;
}
impl pallet_timestamp::Config for Rt {
	type MinimumPeriod = ConstU64<5>;
	type Moment = u64;
}
parameter_types! {
	pub const ExistentialDeposit: u128 = ED;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Rt {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = ExistentialDeposit;
	type RuntimeHoldReason = RuntimeHoldReason;
}
impl pallet_assets::Config<Instance1> for Rt {
	type AssetAccountDeposit = frame_support::traits::ConstU128<0>;
	type AssetId = u32;
	type Balance = u128;
	type Currency = Balances;
}
impl pallet_assets::Config<Instance2> for Rt {
	type AssetAccountDeposit = frame_support::traits::ConstU128<0>;
	type AssetId = u32;
	type Balance = u128;
	type Currency = Balances;
}
use pallet_assets::{Instance1, Instance2};
pub struct Router;
impl xcm::v4::SendXcm for Router {
	type Ticket = (xcm::v4::Location, xcm::v4::Xcm<()>);

	fn validate(
		to: &mut Option<xcm::v4::Location>,
		msg: &mut Option<xcm::v4::Xcm<()>>,
	) -> xcm::v4::SendResult<Self::Ticket> {
		Ok(((to.take().expect("a destination"), msg.take().expect("a message")), xcm::v4::Assets::new()))
	}
	fn deliver((to, msg): Self::Ticket) -> Result<xcm::v4::XcmHash, xcm::v4::SendError> {
		pallet_xcm::Pallet::<Rt>::send_xcm(xcm::v4::Junctions::Here, to, msg)
	}
}
impl pallet_xcm::Config for Rt {
	type RuntimeCall = RuntimeCall;
	type RuntimeOrigin = RuntimeOrigin;
	type XcmRouter = Router;
}
parameter_types! {
	pub const MinVestedTransfer: u128 = 512;
	pub UnvestedFundsAllowedWithdrawReasons: WithdrawReasons =
		WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
}
impl pallet_linear_release::Config for Rt {
	type Balance = u128;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = MinVestedTransfer;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type UnvestedFundsAllowedWithdrawReasons = UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();
	const MAX_VESTING_SCHEDULES: u32 = 20;
}

/// Prices are part of the state, under keys of their own.
pub struct Prices;
pub fn price_key(id: u32) -> Vec<u8> {
	[b"price:".as_ref(), &id.to_le_bytes()].concat()
}
pub fn set_price(id: u32, p: FixedU128) {
	frame_support::storage::unhashed::put(&price_key(id), &p)
}
impl ProvideAssetPrice for Prices {
	type AssetId = u32;
	type Price = FixedU128;

	fn get_price(id: u32) -> Option<FixedU128> {
		frame_support::storage::unhashed::get(&price_key(id))
	}
}
pub struct Raw;
impl Convert<Acc, [u8; 32]> for Raw {
	fn convert(a: Acc) -> [u8; 32] {
		a.into()
	}
}
impl ConvertBack<Acc, [u8; 32]> for Raw {
	fn convert_back(b: [u8; 32]) -> Acc {
		b.into()
	}
}

pub const EVAL: u64 = 3;
pub const AUCTION: u64 = 3;
pub const COMMUNITY: u64 = 3;
pub const REMAINDER: u64 = 3;
pub const MIN_EVAL: u128 = 100 * USD;

parameter_types! {
	// set by the scenario
	pub storage MaxBids: u32 = 6;
	pub storage MaxBidsUser: u32 = 3;
	pub storage MaxEvals: u32 = 3;
	pub storage MaxEvalsUser: u32 = 2;
	pub storage MaxContribsUser: u32 = 2;
	pub const FundingPalletId: PalletId = PalletId(*b"plmc-fun");
	pub FeeBrackets: Vec<(Percent, u128)> = vec![
		(Percent::from_percent(10), BRACKET_1),
		(Percent::from_percent(8), BRACKET_2),
		(Percent::from_percent(6), u128::MAX),
	];
	pub EarlyEvaluationThreshold: Percent = Percent::from_percent(10);
	pub EvaluatorSlash: Percent = Percent::from_percent(20);
	pub OpTreasury: Acc = acc(11);
	pub ContributionTreasury: Acc = acc(12);
	pub BondTreasury: Acc = acc(10);
	pub FeeRecipient: Acc = acc(13);
	pub FundingSuccessThreshold: Perquintill = Perquintill::from_percent(33);
	pub MaxMessageSizeThresholds: RangeInclusive<u32> = 50000..=102_400;
	pub MaxCapacityThresholds: RangeInclusive<u32> = 8..=1000;
	pub RequiredMaxCapacity: u32 = 8;
	pub RequiredMaxMessageSize: u32 = 102_400;
	pub VerifierPublicKey: [u8; 32] = [
		32, 118, 30, 171, 58, 212, 197, 27, 146, 122, 255, 243, 34, 245, 90, 244, 221, 37, 253,
		195, 18, 202, 111, 55, 39, 48, 123, 17, 101, 78, 215, 94,
	];
	pub MinUsdPerEvaluation: u128 = MIN_EVAL;
	pub FeePercentage: Perbill = Perbill::from_rational(75u32, 1000u32);
	pub const RootId: PalletId = PalletId(*b"treasury");
}
/// The brackets of the fee, small enough to matter for the projects of the model.
pub const BRACKET_1: u128 = 20_000 * USD;
pub const BRACKET_2: u128 = 10_000 * USD;

impl pallet_funding::Config for Rt {
	type AccountId32Conversion = Raw;
	type AllPalletsWithoutSystem = (Balances, ContributionTokens, ForeignAssets, Funding, LinearRelease);
	type AuctionRoundDuration = ConstU64<AUCTION>;
	type BlockNumber = u64;
	type BlockchainOperationTreasury = OpTreasury;
	type CommunityRoundDuration = ConstU64<COMMUNITY>;
	type ContributionTokenCurrency = ContributionTokens;
	type ContributionTreasury = ContributionTreasury;
	type DaysToBlocks = DaysToBlocks;
	type EvaluationRoundDuration = ConstU64<EVAL>;
	type EvaluationSuccessThreshold = EarlyEvaluationThreshold;
	type EvaluatorSlash = EvaluatorSlash;
	type FeeBrackets = FeeBrackets;
	type FundingCurrency = ForeignAssets;
	type FundingSuccessThreshold = FundingSuccessThreshold;
	type InvestorOrigin = EnsureInvestor<Rt>;
	type MaxBidsPerProject = MaxBids;
	type MaxBidsPerUser = MaxBidsUser;
	type MaxCapacityThresholds = MaxCapacityThresholds;
	type MaxContributionsPerUser = MaxContribsUser;
	type MaxEvaluationsPerProject = MaxEvals;
	type MaxEvaluationsPerUser = MaxEvalsUser;
	type MaxMessageSizeThresholds = MaxMessageSizeThresholds;
	type MinUsdPerEvaluation = MinUsdPerEvaluation;
	type Multiplier = Multiplier;
	type NativeCurrency = Balances;
	type OnSlash = ();
	type PalletId = FundingPalletId;
	type Price = FixedU128;
	type PriceProvider = Prices;
	type RemainderRoundDuration = ConstU64<REMAINDER>;
	type RequiredMaxCapacity = RequiredMaxCapacity;
	type RequiredMaxMessageSize = RequiredMaxMessageSize;
	type RuntimeCall = RuntimeCall;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type RuntimeOrigin = RuntimeOrigin;
	type StringLimit = ConstU32<64>;
	type VerifierPublicKey = VerifierPublicKey;
	type WeightInfo = ();
}
impl pallet_proxy_bonding::Config for Rt {
	type BondingToken = Balances;
	type BondingTokenDecimals = ConstU8<PLMC_DECIMALS>;
	type BondingTokenId = ConstU32<PLMC_FOREIGN_ID>;
	type FeePercentage = FeePercentage;
	type FeeRecipient = FeeRecipient;
	type FeeToken = ForeignAssets;
	type Id = PalletId;
	type PriceProvider = Prices;
	type RootId = RootId;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type Treasury = BondTreasury;
	type UsdDecimals = ConstU8<USD_DECIMALS>;
}

pub fn acc(n: u8) -> Acc {
	Acc::new([n; 32])
}
pub fn did(n: u8) -> Did {
	format!("did:{n}").into_bytes().try_into().unwrap()
}
pub fn cid(n: u8) -> Cid {
	format!("policy-{n}").into_bytes().try_into().unwrap()
}
pub const ASSETS: [AcceptedFundingAsset; 3] =
	[AcceptedFundingAsset::USDT, AcceptedFundingAsset::USDC, AcceptedFundingAsset::DOT];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cred {
	pub sub: u8,
	pub did: u8,
	pub kind: InvestorKind,
	pub policy: u8,
	/// seconds; None leaves the claim out
	pub exp: Option<i64>,
	/// signed by the verifier (or by some other key)
	pub genuine: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum InvestorKind {
	R,
	P,
	I,
}
impl From<InvestorKind> for InvestorType {
	fn from(k: InvestorKind) -> Self {
		match k {
			InvestorKind::R => InvestorType::Retail,
			InvestorKind::P => InvestorType::Professional,
			InvestorKind::I => InvestorType::Institutional,
		}
	}
}
thread_local! { static TOKENS: RefCell<HashMap<Cred, jwt_compact::UntrustedToken>> = Default::default(); }
/// The signed token with these claims.
pub fn token(c: &Cred) -> jwt_compact::UntrustedToken {
	use chrono::TimeZone;
	use jwt_compact::{alg::SigningKey, AlgorithmExt};
	if let Some(t) = TOKENS.with(|t| t.borrow().get(c).cloned()) {
		return t;
	}
	let mut key: [u8; 32] = [
		80, 168, 164, 18, 76, 133, 92, 116, 50, 20, 155, 28, 33, 89, 151, 207, 199, 247, 113, 185, 127, 156, 2, 132,
		65, 58, 76, 156, 143, 109, 29, 251,
	];
	if !c.genuine {
		key[0] ^= 1;
	}
	let key = <<jwt_compact::alg::Ed25519 as jwt_compact::Algorithm>::SigningKey as SigningKey<_>>::from_slice(&key)
		.expect("a key");
	let claims = SampleClaims::<Acc> {
		subject: acc(c.sub),
		issuer: "verifier".into(),
		ipfs_cid: cid(c.policy),
		investor_type: c.kind.into(),
		did: did(c.did),
	};
	let mut claims = jwt_compact::Claims::new(claims);
	claims.expiration = c.exp.map(|e| chrono::Utc.timestamp_opt(e, 0).unwrap());
	let text = jwt_compact::alg::Ed25519.token(&jwt_compact::Header::empty(), &claims, &key).expect("a token");
	let t = jwt_compact::UntrustedToken::new(&text).expect("a token");
	TOKENS.with(|m| m.borrow_mut().insert(c.clone(), t.clone()));
	t
}
#[allow(unused)]
pub type Map<K, V> = BTreeMap<K, V>;
