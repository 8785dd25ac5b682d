//! The node around the offchain worker: its keys, its storage, the exchanges it asks and the pool it submits to.
use parity_scale_codec::Encode;
use sp_core::{
	crypto::KeyTypeId,
	ecdsa, ed25519,
	offchain::{
		DbExternalities, Externalities, HttpError, HttpRequestId, HttpRequestStatus, OffchainDbExt, OffchainWorkerExt,
		OpaqueNetworkState, StorageKind, Timestamp, TransactionPool, TransactionPoolExt,
	},
	sr25519,
};
use sp_keystore::{Error, Keystore, KeystoreExt};
use std::{
	collections::BTreeMap,
	sync::{Arc, Mutex},
};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Reply {
	Nothing,
	/// the request cannot even be sent
	Unsent,
	Broken,
	Code(u16, Vec<u8>),
}
/// Where the worker is interrupted.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Stop {
	Never,
	/// dies while it waits for answers for the n-th time
	AtWait(u32),
	/// dies before or after the transaction reaches the pool
	BeforeSubmit,
	AfterSubmit,
	/// lives on, but another worker is run for the same node while this one waits for the n-th time
	OtherAtWait(u32, u64),
}
pub type Db = BTreeMap<Vec<u8>, Vec<u8>>;
pub struct World {
	pub db: Db,
	pub now: u64,
	pub exchange: Box<dyn Fn(&str) -> Reply + Send>,
	pub asked: Vec<String>,
	pub pool_takes: bool,
	pub pool: Vec<Vec<u8>>,
	pub stop: Stop,
	pub waits: u32,
	pub dead: bool,
	open: Vec<(Reply, usize)>,
}
/// the worker is gone
pub struct Died;
impl World {
	pub fn new(db: Db, now: u64, pool_takes: bool, stop: Stop, exchange: Box<dyn Fn(&str) -> Reply + Send>) -> Self {
		World { db, now, exchange, asked: vec![], pool_takes, pool: vec![], stop, waits: 0, dead: false, open: vec![] }
	}
	fn die(&mut self) {
		self.dead = true;
	}
}
#[derive(Clone)]
pub struct Node(pub Arc<Mutex<World>>, pub Arc<dyn Fn(&Node, u64) + Send + Sync>);
impl Node {
	fn with<R>(&self, f: impl FnOnce(&mut World) -> R) -> R {
		f(&mut self.0.lock().unwrap_or_else(|e| e.into_inner()))
	}
	fn gone(&self) {
		self.with(|w| w.die());
		std::panic::panic_any(Died)
	}
}
fn status(r: &Reply) -> HttpRequestStatus {
	match r {
		Reply::Nothing => HttpRequestStatus::DeadlineReached,
		Reply::Unsent => HttpRequestStatus::Invalid,
		Reply::Broken => HttpRequestStatus::IoError,
		Reply::Code(c, _) => HttpRequestStatus::Finished(*c),
	}
}
impl Externalities for Node {
	fn is_validator(&self) -> bool {
		true
	}
	fn network_state(&self) -> Result<OpaqueNetworkState, ()> {
		Err(())
	}
	fn timestamp(&mut self) -> Timestamp {
		Timestamp::from_unix_millis(self.with(|w| w.now))
	}
	fn sleep_until(&mut self, deadline: Timestamp) {
		self.with(|w| w.now = w.now.max(deadline.unix_millis()))
	}
	fn random_seed(&mut self) -> [u8; 32] {
		[7; 32]
	}
	fn http_request_start(&mut self, method: &str, uri: &str, _: &[u8]) -> Result<HttpRequestId, ()> {
		self.with(|w| {
			let r = if method == "GET" { (w.exchange)(uri) } else { Reply::Code(405, vec![]) };
			w.asked.push(uri.into());
			if r == Reply::Unsent {
				return Err(());
			}
			w.open.push((r, 0));
			Ok(HttpRequestId(w.open.len() as u16 - 1))
		})
	}
	fn http_request_add_header(&mut self, _: HttpRequestId, _: &str, _: &str) -> Result<(), ()> {
		Ok(())
	}
	fn http_request_write_body(&mut self, _: HttpRequestId, _: &[u8], _: Option<Timestamp>) -> Result<(), HttpError> {
		Ok(())
	}
	fn http_response_wait(&mut self, ids: &[HttpRequestId], _: Option<Timestamp>) -> Vec<HttpRequestStatus> {
		let (stop, n) = self.with(|w| {
			w.waits += 1;
			(w.stop, w.waits)
		});
		match stop {
			Stop::AtWait(k) if k == n => self.gone(),
			Stop::OtherAtWait(k, block) if k == n => {
				let run = self.1.clone();
				run(self, block)
			},
			_ => (),
		}
		self.with(|w| ids.iter().map(|i| w.open.get(i.0 as usize).map_or(HttpRequestStatus::Invalid, |x| status(&x.0))).collect())
	}
	fn http_response_headers(&mut self, _: HttpRequestId) -> Vec<(Vec<u8>, Vec<u8>)> {
		vec![]
	}
	fn http_response_read_body(&mut self, id: HttpRequestId, buf: &mut [u8], _: Option<Timestamp>) -> Result<usize, HttpError> {
		self.with(|w| {
			let Some((Reply::Code(_, body), at)) = w.open.get_mut(id.0 as usize) else { return Err(HttpError::Invalid) };
			let n = buf.len().min(body.len() - *at);
			buf[..n].copy_from_slice(&body[*at..*at + n]);
			*at += n;
			Ok(n)
		})
	}
	fn set_authorized_nodes(&mut self, _: Vec<sp_core::OpaquePeerId>, _: bool) {}
}
impl DbExternalities for Node {
	fn local_storage_set(&mut self, _: StorageKind, key: &[u8], value: &[u8]) {
		self.with(|w| {
			if !w.dead {
				w.db.insert(key.into(), value.into());
			}
		})
	}
	fn local_storage_clear(&mut self, _: StorageKind, key: &[u8]) {
		self.with(|w| {
			if !w.dead {
				w.db.remove(key);
			}
		})
	}
	fn local_storage_compare_and_set(&mut self, _: StorageKind, key: &[u8], old: Option<&[u8]>, new: &[u8]) -> bool {
		self.with(|w| {
			if w.dead || w.db.get(key).map(|x| x.as_slice()) != old {
				return false;
			}
			w.db.insert(key.into(), new.into());
			true
		})
	}
	fn local_storage_get(&mut self, _: StorageKind, key: &[u8]) -> Option<Vec<u8>> {
		self.with(|w| w.db.get(key).cloned())
	}
}
impl TransactionPool for Node {
	fn submit_transaction(&mut self, extrinsic: Vec<u8>) -> Result<(), ()> {
		if self.with(|w| w.stop) == Stop::BeforeSubmit {
			self.gone();
		}
		let r = self.with(|w| {
			if w.pool_takes {
				w.pool.push(extrinsic);
				Ok(())
			} else {
				Err(())
			}
		});
		if self.with(|w| w.stop) == Stop::AfterSubmit {
			self.gone();
		}
		r
	}
}
/// Keys in a fixed order; it signs whatever it has the key for.
struct Keys(Vec<[u8; 32]>);
impl Keystore for Keys {
	fn sr25519_public_keys(&self, _: KeyTypeId) -> Vec<sr25519::Public> {
		self.0.iter().map(|k| sr25519::Public::from_raw(*k)).collect()
	}
	fn sr25519_generate_new(&self, _: KeyTypeId, _: Option<&str>) -> Result<sr25519::Public, Error> {
		Err(Error::Unavailable)
	}
	fn sr25519_sign(&self, _: KeyTypeId, public: &sr25519::Public, _: &[u8]) -> Result<Option<sr25519::Signature>, Error> {
		let mine = self.sr25519_public_keys(KeyTypeId(*b"plmc")).contains(public);
		Ok(mine.then(|| sr25519::Signature::from_raw([public.0[0]; 64])))
	}
	fn sr25519_vrf_sign(
		&self,
		_: KeyTypeId,
		_: &sr25519::Public,
		_: &sr25519::vrf::VrfSignData,
	) -> Result<Option<sr25519::vrf::VrfSignature>, Error> {
		Err(Error::Unavailable)
	}
	fn sr25519_vrf_pre_output(
		&self,
		_: KeyTypeId,
		_: &sr25519::Public,
		_: &sr25519::vrf::VrfInput,
	) -> Result<Option<sr25519::vrf::VrfPreOutput>, Error> {
		Err(Error::Unavailable)
	}
	fn ed25519_public_keys(&self, _: KeyTypeId) -> Vec<ed25519::Public> {
		vec![]
	}
	fn ed25519_generate_new(&self, _: KeyTypeId, _: Option<&str>) -> Result<ed25519::Public, Error> {
		Err(Error::Unavailable)
	}
	fn ed25519_sign(&self, _: KeyTypeId, _: &ed25519::Public, _: &[u8]) -> Result<Option<ed25519::Signature>, Error> {
		Err(Error::Unavailable)
	}
	fn ecdsa_public_keys(&self, _: KeyTypeId) -> Vec<ecdsa::Public> {
		vec![]
	}
	fn ecdsa_generate_new(&self, _: KeyTypeId, _: Option<&str>) -> Result<ecdsa::Public, Error> {
		Err(Error::Unavailable)
	}
	fn ecdsa_sign(&self, _: KeyTypeId, _: &ecdsa::Public, _: &[u8]) -> Result<Option<ecdsa::Signature>, Error> {
		Err(Error::Unavailable)
	}
	fn ecdsa_sign_prehashed(&self, _: KeyTypeId, _: &ecdsa::Public, _: &[u8; 32]) -> Result<Option<ecdsa::Signature>, Error> {
		Err(Error::Unavailable)
	}
	fn insert(&self, _: KeyTypeId, _: &str, _: &[u8]) -> Result<(), ()> {
		Err(())
	}
	fn keys(&self, _: KeyTypeId) -> Result<Vec<Vec<u8>>, Error> {
		Ok(self.0.iter().map(|k| k.encode()).collect())
	}
	fn has_keys(&self, _: &[(Vec<u8>, KeyTypeId)]) -> bool {
		false
	}
}
/// Runs this in the offchain context of the node.
pub fn offchain(node: &Node, keys: &[u8], f: impl FnOnce()) {
	let mut t = sp_io::TestExternalities::default();
	t.register_extension(OffchainWorkerExt::new(node.clone()));
	t.register_extension(OffchainDbExt::new(node.clone()));
	t.register_extension(TransactionPoolExt::new(node.clone()));
	t.register_extension(KeystoreExt::new(Keys(keys.iter().map(|k| [*k; 32]).collect())));
	t.execute_with(f)
}
