//! An in-memory storage backend for runtime code: a sorted map with an undo journal (nested
//! transactions) and an incrementally maintained 128-bit content hash.
use sp_externalities::{Extension, ExtensionStore, Externalities, Error, MultiRemovalResults};
use sp_storage::{ChildInfo, StateVersion, TrackedStorageKey};
use std::{
	any::{Any, TypeId},
	collections::BTreeMap,
	hash::Hasher,
	ops::Bound,
	sync::Arc,
};

pub type Bytes = Arc<[u8]>;
pub type Map = BTreeMap<Bytes, Bytes>;

#[derive(Clone, Default)]
pub struct Snapshot {
	pub map: Arc<Map>,
	pub hash: u128,
}

#[allow(deprecated)]
fn sip(seed: u64, parts: &[&[u8]]) -> u64 {
	// std's SipHash 2-4 with fixed keys: deterministic across runs
	let mut h = std::hash::SipHasher::new_with_keys(seed, 0x9e3779b97f4a7c15 ^ seed.rotate_left(17));
	for p in parts {
		h.write_usize(p.len());
		h.write(p);
	}
	h.finish()
}

pub fn hash_parts(parts: &[&[u8]]) -> u128 {
	((sip(0x51ed_270b, parts) as u128) << 64) | sip(0xfeed_beef, parts) as u128
}

/// Deterministic 128-bit hash of any `Hash` value.
#[allow(deprecated)]
pub fn hash_val<T: std::hash::Hash>(v: &T) -> u128 {
	let mut a = std::hash::SipHasher::new_with_keys(1, 2);
	let mut b = std::hash::SipHasher::new_with_keys(3, 4);
	v.hash(&mut a);
	v.hash(&mut b);
	((a.finish() as u128) << 64) | b.finish() as u128
}

enum Journal {
	Mark,
	Set(Bytes, Option<Bytes>),
}

pub struct Ext {
	map: Map,
	hash: u128,
	journal: Vec<Journal>,
	depth: usize,
	/// key prefixes (and exceptions) that do not take part in the content hash
	ignore: Arc<Ignore>,
}

#[derive(Default)]
pub struct Ignore {
	pub prefixes: Vec<Vec<u8>>,
	pub keep: Vec<Vec<u8>>,
}

impl Ignore {
	fn skip(&self, k: &[u8]) -> bool {
		self.prefixes.iter().any(|p| k.starts_with(p)) && !self.keep.iter().any(|p| k.starts_with(p))
	}
}

impl Ext {
	pub fn new(snap: &Snapshot, ignore: Arc<Ignore>) -> Self {
		Ext { map: (*snap.map).clone(), hash: snap.hash, journal: Vec::new(), depth: 0, ignore }
	}

	pub fn from_pairs(pairs: impl IntoIterator<Item = (Vec<u8>, Vec<u8>)>, ignore: Arc<Ignore>) -> Self {
		let mut e = Ext { map: Map::new(), hash: 0, journal: Vec::new(), depth: 0, ignore };
		for (k, v) in pairs {
			e.put(k.into(), Some(v.into()));
		}
		e
	}

	pub fn load(&mut self, snap: &Snapshot) {
		self.map.clone_from(&snap.map);
		self.hash = snap.hash;
		self.journal.clear();
		self.depth = 0;
	}

	pub fn snapshot(&self) -> Snapshot {
		Snapshot { map: Arc::new(self.map.clone()), hash: self.hash }
	}

	pub fn content_hash(&self) -> u128 {
		self.hash
	}

	pub fn tx_depth(&self) -> usize {
		self.depth
	}

	fn entry_hash(&self, k: &[u8], v: &[u8]) -> u128 {
		if self.ignore.skip(k) {
			0
		} else {
			hash_parts(&[k, v])
		}
	}

	fn put(&mut self, k: Bytes, v: Option<Bytes>) {
		let old = match &v {
			Some(v) => {
				self.hash = self.hash.wrapping_add(self.entry_hash(&k, v));
				self.map.insert(k.clone(), v.clone())
			},
			None => self.map.remove(&k),
		};
		if let Some(o) = &old {
			self.hash = self.hash.wrapping_sub(self.entry_hash(&k, o));
		}
		if self.depth > 0 {
			self.journal.push(Journal::Set(k, old));
		}
	}

	pub fn begin(&mut self) {
		self.depth += 1;
		self.journal.push(Journal::Mark);
	}

	pub fn rollback(&mut self) -> Result<(), ()> {
		if self.depth == 0 {
			return Err(());
		}
		let depth = std::mem::replace(&mut self.depth, 0);
		loop {
			match self.journal.pop() {
				Some(Journal::Set(k, v)) => self.put(k, v),
				Some(Journal::Mark) | None => break,
			}
		}
		self.depth = depth - 1;
		Ok(())
	}

	pub fn commit_tx(&mut self) -> Result<(), ()> {
		if self.depth == 0 {
			return Err(());
		}
		self.depth -= 1;
		if self.depth == 0 {
			self.journal.clear();
		} else if let Some(i) = self.journal.iter().rposition(|j| matches!(j, Journal::Mark)) {
			self.journal.remove(i);
		}
		Ok(())
	}

	/// undo everything down to (and including) transaction level `to`
	pub fn unwind_to(&mut self, to: usize) {
		while self.depth > to {
			let _ = self.rollback();
		}
	}
}

// appending to a SCALE vector: bump the compact length prefix
fn append(old: Option<&[u8]>, elem: Vec<u8>) -> Vec<u8> {
	fn dec(b: &[u8]) -> Option<(u32, usize)> {
		let m = *b.first()? & 3;
		Some(match m {
			0 => ((b[0] >> 2) as u32, 1),
			1 => ((u16::from_le_bytes([b[0], *b.get(1)?]) >> 2) as u32, 2),
			2 => (u32::from_le_bytes([b[0], *b.get(1)?, *b.get(2)?, *b.get(3)?]) >> 2, 4),
			_ => return None,
		})
	}
	fn enc(n: u32) -> Vec<u8> {
		if n < 64 {
			vec![(n << 2) as u8]
		} else if n < 1 << 14 {
			(((n as u16) << 2) | 1).to_le_bytes().to_vec()
		} else {
			((n << 2) | 2).to_le_bytes().to_vec()
		}
	}
	let (n, body) = match old.and_then(|o| dec(o).map(|(n, l)| (n, &o[l..]))) {
		Some(x) => x,
		None => (0, &[][..]),
	};
	let mut out = enc(n + 1);
	out.extend_from_slice(body);
	out.extend(elem);
	out
}

impl ExtensionStore for Ext {
	fn extension_by_type_id(&mut self, _: TypeId) -> Option<&mut dyn Any> {
		None
	}
	fn register_extension_with_type_id(&mut self, _: TypeId, _: Box<dyn Extension>) -> Result<(), Error> {
		Err(Error::ExtensionsAreNotSupported)
	}
	fn deregister_extension_by_type_id(&mut self, _: TypeId) -> Result<(), Error> {
		Err(Error::ExtensionsAreNotSupported)
	}
}

impl Externalities for Ext {
	fn set_offchain_storage(&mut self, _: &[u8], _: Option<&[u8]>) {}
	fn storage(&mut self, key: &[u8]) -> Option<Vec<u8>> {
		self.map.get(key).map(|v| v.to_vec())
	}
	fn storage_hash(&mut self, _: &[u8]) -> Option<Vec<u8>> {
		unimplemented!()
	}
	fn child_storage_hash(&mut self, _: &ChildInfo, _: &[u8]) -> Option<Vec<u8>> {
		unimplemented!()
	}
	fn child_storage(&mut self, _: &ChildInfo, _: &[u8]) -> Option<Vec<u8>> {
		unimplemented!()
	}
	fn next_storage_key(&mut self, key: &[u8]) -> Option<Vec<u8>> {
		self.map
			.range::<[u8], _>((Bound::Excluded(key), Bound::Unbounded))
			.next()
			.map(|(k, _)| k.to_vec())
	}
	fn next_child_storage_key(&mut self, _: &ChildInfo, _: &[u8]) -> Option<Vec<u8>> {
		unimplemented!()
	}
	fn kill_child_storage(&mut self, _: &ChildInfo, _: Option<u32>, _: Option<&[u8]>) -> MultiRemovalResults {
		unimplemented!()
	}
	fn clear_prefix(&mut self, prefix: &[u8], limit: Option<u32>, _: Option<&[u8]>) -> MultiRemovalResults {
		let keys: Vec<Bytes> = self
			.map
			.range::<[u8], _>((Bound::Included(prefix), Bound::Unbounded))
			.take_while(|(k, _)| k.starts_with(prefix))
			.map(|(k, _)| k.clone())
			.collect();
		let n = limit.map_or(keys.len(), |l| keys.len().min(l as usize));
		for k in &keys[..n] {
			self.put(k.clone(), None);
		}
		MultiRemovalResults {
			maybe_cursor: keys.get(n).map(|k| k.to_vec()),
			backend: n as u32,
			unique: n as u32,
			loops: n as u32,
		}
	}
	fn clear_child_prefix(
		&mut self,
		_: &ChildInfo,
		_: &[u8],
		_: Option<u32>,
		_: Option<&[u8]>,
	) -> MultiRemovalResults {
		unimplemented!()
	}
	fn place_storage(&mut self, key: Vec<u8>, value: Option<Vec<u8>>) {
		self.put(key.into(), value.map(Into::into));
	}
	fn place_child_storage(&mut self, _: &ChildInfo, _: Vec<u8>, _: Option<Vec<u8>>) {
		unimplemented!()
	}
	fn storage_root(&mut self, _: StateVersion) -> Vec<u8> {
		vec![0; 32]
	}
	fn child_storage_root(&mut self, _: &ChildInfo, _: StateVersion) -> Vec<u8> {
		unimplemented!()
	}
	fn storage_append(&mut self, key: Vec<u8>, value: Vec<u8>) {
		let new = append(self.map.get(&key[..]).map(|v| &v[..]), value);
		self.put(key.into(), Some(new.into()));
	}
	fn storage_start_transaction(&mut self) {
		self.begin()
	}
	fn storage_rollback_transaction(&mut self) -> Result<(), ()> {
		self.rollback()
	}
	fn storage_commit_transaction(&mut self) -> Result<(), ()> {
		self.commit_tx()
	}
	fn wipe(&mut self) {}
	fn commit(&mut self) {}
	fn read_write_count(&self) -> (u32, u32, u32, u32) {
		(0, 0, 0, 0)
	}
	fn reset_read_write_count(&mut self) {}
	fn get_whitelist(&self) -> Vec<TrackedStorageKey> {
		vec![]
	}
	fn set_whitelist(&mut self, _: Vec<TrackedStorageKey>) {}
	fn get_read_and_written_keys(&self) -> Vec<(Vec<u8>, u32, u32, bool)> {
		vec![]
	}
}
