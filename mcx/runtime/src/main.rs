//! The runtime of /repo as far as it can be built here (see build.rs).
#![recursion_limit = "512"]
#![allow(unused_imports, dead_code, clippy::all)]
pub mod checks;
pub mod fees;
pub mod gates;
pub mod messages;
pub mod proxies;
pub mod stubs;
pub mod sys;

pub type SignedExtra = (
	frame_system::CheckNonZeroSender<Runtime>,
	frame_system::CheckSpecVersion<Runtime>,
	frame_system::CheckTxVersion<Runtime>,
	frame_system::CheckGenesis<Runtime>,
	frame_system::CheckEra<Runtime>,
	pallet_dispenser::extensions::CheckNonce<Runtime>,
	frame_system::CheckWeight<Runtime>,
);
pub const VERSION: sp_version::RuntimeVersion = sp_version::RuntimeVersion {
	spec_name: sp_runtime::create_runtime_str!("polimec-mainnet"),
	impl_name: sp_runtime::create_runtime_str!("polimec-mainnet"),
	authoring_version: 1,
	spec_version: 1,
	impl_version: 0,
	apis: sp_version::create_apis_vec!([]),
	transaction_version: 5,
	state_version: 1,
};
impl stubs::session::Config for Runtime {}
impl<LocalCall> frame_system::offchain::CreateSignedTransaction<LocalCall> for Runtime
where
	RuntimeCall: From<LocalCall>,
{
	fn create_transaction<C: frame_system::offchain::AppCrypto<Self::Public, Self::Signature>>(
		_: RuntimeCall,
		_: <Signature as sp_runtime::traits::Verify>::Signer,
		_: AccountId,
		_: Nonce,
	) -> Option<(RuntimeCall, <UncheckedExtrinsic as sp_runtime::traits::Extrinsic>::SignaturePayload)> {
		None
	}
}

include!(concat!(env!("OUT_DIR"), "/runtime.rs"));

fn main() {
	engine::main_with(checks::CHECKS)
}
