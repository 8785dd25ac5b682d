use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

pub use bounded_collections::{BoundedVec, ConstU32};
pub use sp_weights::Weight;

pub type QueryId = u64;
pub type XcmHash = [u8; 32];
pub type MaxPalletNameLen = ConstU32<48>;
pub type MaxPalletsInfo = ConstU32<64>;
pub type InteriorLocation = Junctions;

macro_rules! data {
	($i:item) => {
		#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
		$i
	};
}
macro_rules! msg {
	($i:item) => {
		#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
		$i
	};
}

data! {
#[derive(Copy)]
pub enum NetworkId {
	#[codec(index = 0)]
	ByGenesis([u8; 32]),
	#[codec(index = 2)]
	Polkadot,
	#[codec(index = 3)]
	Kusama,
}
}

data! {
#[derive(Copy)]
pub enum BodyId {
	Unit,
	#[codec(index = 3)]
	Executive,
	#[codec(index = 4)]
	Technical,
	#[codec(index = 8)]
	Administration,
	#[codec(index = 9)]
	Treasury,
}
}
data! {
#[derive(Copy)]
pub enum BodyPart {
	Voice,
	#[codec(index = 3)]
	AtLeastProportion {
		#[codec(compact)]
		nom: u32,
		#[codec(compact)]
		denom: u32,
	},
}
}

data! {
#[derive(Copy)]
pub enum Junction {
	Parachain(#[codec(compact)] u32),
	AccountId32 { network: Option<NetworkId>, id: [u8; 32] },
	AccountIndex64 { network: Option<NetworkId>, #[codec(compact)] index: u64 },
	AccountKey20 { network: Option<NetworkId>, key: [u8; 20] },
	PalletInstance(u8),
	GeneralIndex(#[codec(compact)] u128),
	GeneralKey { length: u8, data: [u8; 32] },
	OnlyChild,
	Plurality { id: BodyId, part: BodyPart },
	#[codec(index = 9)]
	GlobalConsensus(NetworkId),
}
}

/// Junctions, encoded as the real enum is: the arity as the variant, then the items.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, TypeInfo)]
pub enum Junctions {
	Here,
	X1([Junction; 1]),
	X2([Junction; 2]),
	X3([Junction; 3]),
}
impl Junctions {
	pub const fn here() -> Self {
		Junctions::Here
	}
	pub fn as_slice(&self) -> &[Junction] {
		match self {
			Junctions::Here => &[],
			Junctions::X1(a) => a,
			Junctions::X2(a) => a,
			Junctions::X3(a) => a,
		}
	}
}
impl Encode for Junctions {
	fn encode_to<O: parity_scale_codec::Output + ?Sized>(&self, out: &mut O) {
		let s = self.as_slice();
		out.push_byte(s.len() as u8);
		for j in s {
			j.encode_to(out)
		}
	}
}
impl parity_scale_codec::EncodeLike for Junctions {}
impl Decode for Junctions {
	fn decode<I: parity_scale_codec::Input>(i: &mut I) -> Result<Self, parity_scale_codec::Error> {
		Ok(match i.read_byte()? {
			0 => Junctions::Here,
			1 => Junctions::X1([Junction::decode(i)?]),
			2 => Junctions::X2([Junction::decode(i)?, Junction::decode(i)?]),
			3 => Junctions::X3([Junction::decode(i)?, Junction::decode(i)?, Junction::decode(i)?]),
			_ => return Err("too many junctions".into()),
		})
	}
}
impl MaxEncodedLen for Junctions {
	fn max_encoded_len() -> usize {
		1 + 8 * Junction::max_encoded_len()
	}
}
impl From<Junction> for Junctions {
	fn from(j: Junction) -> Self {
		Junctions::X1([j])
	}
}
impl From<(Junction, Junction)> for Junctions {
	fn from(j: (Junction, Junction)) -> Self {
		Junctions::X2([j.0, j.1])
	}
}

impl From<[Junction; 0]> for Junctions {
	fn from(_: [Junction; 0]) -> Self {
		Junctions::Here
	}
}
impl From<[Junction; 1]> for Junctions {
	fn from(j: [Junction; 1]) -> Self {
		Junctions::X1(j)
	}
}
impl From<[Junction; 2]> for Junctions {
	fn from(j: [Junction; 2]) -> Self {
		Junctions::X2(j)
	}
}
impl From<[Junction; 3]> for Junctions {
	fn from(j: [Junction; 3]) -> Self {
		Junctions::X3(j)
	}
}

data! {
pub struct Location {
	pub parents: u8,
	pub interior: Junctions,
}
}
impl Location {
	pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self {
		Location { parents, interior: interior.into() }
	}
	pub const fn here() -> Self {
		Location { parents: 0, interior: Junctions::Here }
	}
	pub const fn parent() -> Self {
		Location { parents: 1, interior: Junctions::Here }
	}
	pub fn unpack(&self) -> (u8, &[Junction]) {
		(self.parents, self.interior.as_slice())
	}
}
impl Default for Location {
	fn default() -> Self {
		Self::here()
	}
}
impl From<Junction> for Location {
	fn from(j: Junction) -> Self {
		Location { parents: 0, interior: j.into() }
	}
}
impl From<Junctions> for Location {
	fn from(interior: Junctions) -> Self {
		Location { parents: 0, interior }
	}
}
/// A location below the parent.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct ParentThen(pub Junctions);
impl From<ParentThen> for Location {
	fn from(p: ParentThen) -> Self {
		Location { parents: 1, interior: p.0 }
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Parent;
impl From<Parent> for Location {
	fn from(_: Parent) -> Self {
		Location::parent()
	}
}

impl<J: Into<Junctions>> From<(Parent, J)> for Location {
	fn from((_, j): (Parent, J)) -> Self {
		Location { parents: 1, interior: j.into() }
	}
}

data! { pub struct AssetId(pub Location); }
impl<L: Into<Location>> From<L> for AssetId {
	fn from(l: L) -> Self {
		AssetId(l.into())
	}
}
data! {
#[derive(Copy)]
pub enum AssetInstance {
	Undefined,
	Index(#[codec(compact)] u128),
}
}
data! {
#[derive(Copy)]
pub enum Fungibility {
	Fungible(#[codec(compact)] u128),
	NonFungible(AssetInstance),
}
}
impl From<u128> for Fungibility {
	fn from(n: u128) -> Self {
		Fungibility::Fungible(n)
	}
}
data! {
pub struct Asset {
	pub id: AssetId,
	pub fun: Fungibility,
}
}
impl<A: Into<AssetId>, B: Into<Fungibility>> From<(A, B)> for Asset {
	fn from((id, fun): (A, B)) -> Self {
		Asset { id: id.into(), fun: fun.into() }
	}
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Encode, Decode, TypeInfo, Default)]
pub struct Assets(Vec<Asset>);
impl MaxEncodedLen for Assets {
	fn max_encoded_len() -> usize {
		Asset::max_encoded_len() * 20
	}
}
impl Assets {
	pub fn new() -> Self {
		Assets(Vec::new())
	}
	pub fn into_inner(self) -> Vec<Asset> {
		self.0
	}
	pub fn inner(&self) -> &Vec<Asset> {
		&self.0
	}
	pub fn len(&self) -> usize {
		self.0.len()
	}
}
impl From<Vec<Asset>> for Assets {
	fn from(mut v: Vec<Asset>) -> Self {
		v.sort();
		Assets(v)
	}
}
data! {
#[derive(Copy)]
pub enum WildFungibility {
	Fungible,
	NonFungible,
}
}
data! {
pub enum WildAsset {
	All,
	AllOf { id: AssetId, fun: WildFungibility },
	AllCounted(#[codec(compact)] u32),
}
}
data! {
pub enum AssetFilter {
	Definite(Assets),
	Wild(WildAsset),
}
}

data! {
#[derive(Copy)]
pub enum OriginKind {
	Native,
	SovereignAccount,
	Superuser,
	Xcm,
}
}
msg! {
pub enum WeightLimit {
	Unlimited,
	Limited(Weight),
}
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum Error {
	#[codec(index = 0)]
	Overflow,
	#[codec(index = 1)]
	Unimplemented,
	#[codec(index = 7)]
	BadOrigin,
	#[codec(index = 16)]
	ExceedsMaxMessageSize,
	#[codec(skip)]
	Transport(&'static str),
}
impl MaxEncodedLen for Error {
	fn max_encoded_len() -> usize {
		9
	}
}
pub type XcmError = Error;
pub type XcmResult = Result<(), Error>;

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum SendError {
	NotApplicable,
	#[codec(skip)]
	Transport(&'static str),
	Unroutable,
	#[codec(skip)]
	DestinationUnsupported,
	ExceedsMaxMessageSize,
	MissingArgument,
	Fees,
}
impl From<SendError> for Error {
	fn from(e: SendError) -> Self {
		match e {
			SendError::ExceedsMaxMessageSize => Error::ExceedsMaxMessageSize,
			_ => Error::Transport("send"),
		}
	}
}
pub type SendResult<T> = Result<(T, Assets), SendError>;

pub trait SendXcm {
	type Ticket;
	fn validate(destination: &mut Option<Location>, message: &mut Option<Xcm<()>>) -> SendResult<Self::Ticket>;
	fn deliver(ticket: Self::Ticket) -> Result<XcmHash, SendError>;
}

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum MaybeErrorCode {
	Success,
	Error(BoundedVec<u8, ConstU32<128>>),
	TruncatedError(BoundedVec<u8, ConstU32<128>>),
}

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct PalletInfo {
	#[codec(compact)]
	pub index: u32,
	pub name: BoundedVec<u8, MaxPalletNameLen>,
	pub module_name: BoundedVec<u8, MaxPalletNameLen>,
	#[codec(compact)]
	pub major: u32,
	#[codec(compact)]
	pub minor: u32,
	#[codec(compact)]
	pub patch: u32,
}
impl PalletInfo {
	pub fn new(
		index: u32,
		name: Vec<u8>,
		module_name: Vec<u8>,
		major: u32,
		minor: u32,
		patch: u32,
	) -> Result<Self, Error> {
		let name = BoundedVec::try_from(name).map_err(|_| Error::Overflow)?;
		let module_name = BoundedVec::try_from(module_name).map_err(|_| Error::Overflow)?;
		Ok(PalletInfo { index, name, module_name, major, minor, patch })
	}
}

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen, Default)]
pub enum Response {
	#[default]
	Null,
	Assets(Assets),
	ExecutionResult(Option<(u32, Error)>),
	Version(u32),
	PalletsInfo(BoundedVec<PalletInfo, MaxPalletsInfo>),
	DispatchResult(MaybeErrorCode),
}

msg! {
pub struct QueryResponseInfo {
	pub destination: Location,
	#[codec(compact)]
	pub query_id: QueryId,
	pub max_weight: Weight,
}
}

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub struct DoubleEncoded<Call>(pub Vec<u8>, core::marker::PhantomData<Call>);
impl<Call> From<Vec<u8>> for DoubleEncoded<Call> {
	fn from(v: Vec<u8>) -> Self {
		DoubleEncoded(v, core::marker::PhantomData)
	}
}

/// The instructions that the pallets of /repo send.
impl<Call> core::fmt::Debug for Instruction<Call> {
	fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		f.write_str("Instruction")
	}
}
#[derive(Clone, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub enum Instruction<Call> {
	#[codec(index = 0)]
	WithdrawAsset(Assets),
	#[codec(index = 6)]
	Transact { origin_kind: OriginKind, require_weight_at_most: Weight, call: DoubleEncoded<Call> },
	#[codec(index = 13)]
	DepositAsset { assets: AssetFilter, beneficiary: Location },
	#[codec(index = 18)]
	ReportHolding { response_info: QueryResponseInfo, assets: AssetFilter },
	#[codec(index = 19)]
	BuyExecution { fees: Asset, weight_limit: WeightLimit },
	#[codec(index = 20)]
	RefundSurplus,
	#[codec(index = 23)]
	HrmpNewChannelOpenRequest {
		#[codec(compact)]
		sender: u32,
		#[codec(compact)]
		max_message_size: u32,
		#[codec(compact)]
		max_capacity: u32,
	},
	#[codec(index = 24)]
	HrmpChannelAccepted {
		#[codec(compact)]
		recipient: u32,
	},
	#[codec(index = 25)]
	HrmpChannelClosing {
		#[codec(compact)]
		initiator: u32,
		#[codec(compact)]
		sender: u32,
		#[codec(compact)]
		recipient: u32,
	},
	#[codec(index = 32)]
	QueryPallet { module_name: Vec<u8>, response_info: QueryResponseInfo },
	#[codec(index = 34)]
	ReportTransactStatus(QueryResponseInfo),
	#[codec(index = 47)]
	UnpaidExecution { weight_limit: WeightLimit, check_origin: Option<Location> },
}

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub struct Xcm<Call>(pub Vec<Instruction<Call>>);

pub mod opaque {
	pub type Xcm = super::Xcm<()>;
}

pub mod prelude {
	pub use super::{
		Asset, AssetFilter, BodyId, BodyPart, Instruction,
		AssetFilter::*,
		AssetId, AssetInstance, Assets, Error as XcmError,
		Fungibility::{self, *},
		Instruction::*,
		InteriorLocation,
		Junction::{self, *},
		Junctions::{self, Here},
		Location, MaybeErrorCode,
		NetworkId::{self, *},
		OriginKind, PalletInfo, Parent, ParentThen, QueryId, QueryResponseInfo, Response, SendError, SendResult,
		SendXcm, Weight, WeightLimit,
		WeightLimit::*,
		WildAsset::{self, *},
		Xcm, XcmHash, XcmResult,
	};
}
