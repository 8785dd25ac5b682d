//! The real offchain worker in a node made of stand-ins, with a model of what it has to submit.
use crate::node::*;
use engine::{Cx, Harness, Ignore};
use frame_support::{construct_runtime, derive_impl, traits::{ConstU32, Contains, OffchainWorker}};
use frame_system::offchain::{AppCrypto, CreateSignedTransaction, SendTransactionTypes, SigningTypes};
use pallet_oracle_ocw::types::AssetName;
use parity_scale_codec::{Decode, Encode};
use sp_core::sr25519::{Public, Signature};
use sp_runtime::{
	testing::TestXt,
	traits::{Convert, Extrinsic as ExtrinsicT, Get, IdentityLookup, Verify},
	BuildStorage, FixedPointNumber, FixedU128,
};
use std::{
	cell::{Cell, RefCell},
	collections::BTreeMap,
	panic::{catch_unwind, AssertUnwindSafe},
	sync::{Arc, Mutex},
};

pub type Block = frame_system::mocking::MockBlock<Rt>;
construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Oracle: orml_oracle,
		Worker: pallet_oracle_ocw,
	}
);
pub type Xt = TestXt<RuntimeCall, ()>;
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Rt {
	type AccountId = Public;
	type Block = Block;
	type Lookup = IdentityLookup<Public>;
}
pub const IDS: [u64; 4] = [1984, 1337, 10, 3344];
pub struct NoTime;
impl frame_support::traits::Time for NoTime {
	type Moment = u64;
	fn now() -> u64 {
		0
	}
}
pub struct Nobody;
impl frame_support::traits::SortedMembers<Public> for Nobody {
	fn sorted_members() -> Vec<Public> {
		vec![]
	}
}
impl frame_support::traits::Get<Public> for Nobody {
	fn get() -> Public {
		Public::from_raw([0xff; 32])
	}
}
impl orml_oracle::Config for Rt {
	type CombineData = orml_oracle::DefaultCombineData<Rt, ConstU32<1>, frame_support::traits::ConstU64<1>>;
	type MaxHasDispatchedSize = ConstU32<1>;
	type Members = Nobody;
	type RootOperatorAccountId = Nobody;
	type Time = NoTime;
	type MaxFeedValues = ConstU32<4>;
	type OracleKey = u64;
	type OracleValue = FixedU128;
}
thread_local! {
	pub static INTERVAL: Cell<u64> = const { Cell::new(10) };
	pub static WINDOW: Cell<u64> = const { Cell::new(3) };
	static SIGNERS: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
}
pub struct Interval;
impl Get<u64> for Interval {
	fn get() -> u64 {
		INTERVAL.with(|x| x.get())
	}
}
pub struct Window;
impl Get<u64> for Window {
	fn get() -> u64 {
		WINDOW.with(|x| x.get())
	}
}
/// 1 and 2 may feed prices, nobody else
pub struct Members;
impl Contains<Public> for Members {
	fn contains(p: &Public) -> bool {
		p.0 == [1; 32] || p.0 == [2; 32]
	}
}
pub struct Pair;
impl Convert<(AssetName, FixedU128), (u64, FixedU128)> for Pair {
	fn convert((a, p): (AssetName, FixedU128)) -> (u64, FixedU128) {
		(
			match a {
				AssetName::USDT => IDS[0],
				AssetName::USDC => IDS[1],
				AssetName::DOT => IDS[2],
				AssetName::PLMC => IDS[3],
			},
			p,
		)
	}
}
impl pallet_oracle_ocw::Config for Rt {
	type AppCrypto = pallet_oracle_ocw::crypto::Polimec;
	type ConvertAssetPricePair = Pair;
	type FetchInterval = Interval;
	type FetchWindow = Window;
	type Members = Members;
	type RuntimeEvent = RuntimeEvent;
}
impl SigningTypes for Rt {
	type Public = <Signature as Verify>::Signer;
	type Signature = Signature;
}
impl<C> SendTransactionTypes<C> for Rt
where
	RuntimeCall: From<C>,
{
	type Extrinsic = Xt;
	type OverarchingCall = RuntimeCall;
}
impl<C> CreateSignedTransaction<C> for Rt
where
	RuntimeCall: From<C>,
{
	fn create_transaction<A: AppCrypto<Public, Signature>>(
		call: RuntimeCall,
		public: Public,
		account: Public,
		nonce: u32,
	) -> Option<(RuntimeCall, <Xt as ExtrinsicT>::SignaturePayload)> {
		let _ = account;
		A::sign(&call.encode(), public)?;
		SIGNERS.with(|s| s.borrow_mut().push(public.0[0]));
		Some((call, (nonce.into(), ())))
	}
}

/// 0 USDT 1 USDC 2 DOT 3 PLMC
pub type Asset = usize;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Src {
	Kraken,
	Bitfinex,
	Bitstamp,
	Coinbase,
	Xt,
	Mexc,
}
use Src::*;
pub fn sources(a: Asset) -> &'static [Src] {
	match a {
		0 | 2 => &[Kraken, Bitfinex, Bitstamp, Coinbase],
		1 => &[Kraken, Bitfinex, Bitstamp],
		_ => &[Xt, Mexc],
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ans {
	Good(u8),
	/// the same, with older candles that do not count
	Longer(u8),
	// useless
	None,
	Unsent,
	Broken,
	Code(u16),
	Text,
	Binary,
	Shape,
	Empty,
	Short,
	Idle,
	/// this candle has a number that is none
	BadNumber(u8),
	Cut,
}
/// Who answers what; all others do not answer.
pub type Answers = Vec<(Src, Asset, Ans)>;

/// high, low, close in hundredths of a cent, volume in hundredths
pub type Candle = [u64; 4];
/// newest first
pub fn candles(set: u8, src: Src, asset: Asset) -> Vec<Candle> {
	let n = if asset == 3 { 10 } else { 15 };
	let unit = [10_000, 10_000, 70_000, 500][asset];
	(0..n)
		.map(|i| {
			let low = match set {
				0 => unit,
				1 => unit * (90 + i) / 100,
				2 => unit * (130 - 3 * i) / 100,
				_ => unit * (2 + (i * 7 + 3) % 5) / 4,
			} + src as u64 * unit / 1000;
			let high = low + unit * (i % 4) / 20;
			let close = low + (high - low) * (i % 3) / 2;
			let volume = match set {
				0 => 100,
				1 => 37 * (i + 1),
				2 => [0, 125_000, 3, 99][i as usize % 4],
				_ => 1_000_000 / (i + 1),
			};
			[high, low, close, volume]
		})
		.collect()
}
fn dec(x: u64, digits: u32) -> String {
	let d = 10u64.pow(digits);
	format!("{}.{:0w$}", x / d, x % d, w = digits as usize)
}
fn body(src: Src, asset: Asset, rows: &[Candle], bad: Option<usize>) -> String {
	let row = |i: usize, c: &Candle| {
		let [h, l, x, v] = [dec(c[0], 4), dec(c[1], 4), dec(c[2], 4), dec(c[3], 2)];
		let o = dec(c[1] + 7, 4);
		let t = 1_700_000_000 - 60 * i as u64;
		// what cannot be a price or a volume
		let (h, v, num) = if bad == Some(i) { ("n/a".to_string(), "-".to_string(), "-3.5".to_string()) } else { (h, v.clone(), v) };
		match src {
			Kraken => format!("[{t},\"{o}\",\"{h}\",\"{l}\",\"{x}\",\"{o}\",\"{v}\",12]"),
			Bitfinex => format!("[{t},{o},{x},{},{l},{num}]", dec(c[0], 4)),
			Bitstamp => format!("{{\"close\": \"{x}\", \"high\": \"{h}\", \"low\": \"{l}\", \"open\": \"{o}\", \"timestamp\": \"{t}\", \"volume\": \"{v}\"}}"),
			Coinbase => format!("[{t},{l},{},{o},{x},{num}]", dec(c[0], 4)),
			Xt => format!("{{\"t\":{t},\"o\":\"{o}\",\"c\":\"{x}\",\"h\":\"{h}\",\"l\":\"{l}\",\"q\":\"{o}\",\"v\":\"{v}\"}}"),
			Mexc => format!("[{t},\"{o}\",\"{h}\",\"{l}\",\"{x}\",\"{v}\",{t},\"{o}\"]"),
		}
	};
	let mut l: Vec<String> = rows.iter().enumerate().map(|(i, c)| row(i, c)).collect();
	// these two list the oldest first
	if matches!(src, Kraken | Bitstamp) {
		l.reverse();
	}
	let l = l.join(",");
	match src {
		Kraken => {
			let pair = ["USDTZUSD", "USDCUSD", "DOTUSD", ""][asset];
			format!("{{\"error\":[],\"result\":{{\"{pair}\":[{l}],\"last\":1700000000}}}}")
		},
		Bitstamp => format!("{{\"data\": {{\"ohlc\": [{l}], \"pair\": \"X/USD\"}}}}"),
		Xt => format!("{{\"rc\":0,\"mc\":\"SUCCESS\",\"ma\":[],\"result\":[{l}]}}"),
		_ => format!("[{l}]"),
	}
}
fn reply(src: Src, asset: Asset, a: Ans) -> Reply {
	let rows = candles(1, src, asset);
	let ok = |b: String| Reply::Code(200, b.into_bytes());
	match a {
		Ans::Good(s) => ok(body(src, asset, &candles(s, src, asset), None)),
		Ans::Longer(s) => {
			let mut l = candles(s, src, asset);
			l.extend([[990_000, 980_000, 985_000, 5_000_000], [9, 8, 8, 4_000_000]]);
			ok(body(src, asset, &l, None))
		},
		Ans::None => Reply::Nothing,
		Ans::Unsent => Reply::Unsent,
		Ans::Broken => Reply::Broken,
		Ans::Code(c) => Reply::Code(c, body(src, asset, &rows, None).into_bytes()),
		Ans::Text => ok("<html>try again later</html>".into()),
		Ans::Binary => Reply::Code(200, [body(src, asset, &rows, None).into_bytes(), vec![0xff, 0xfe]].concat()),
		Ans::Shape => ok("{\"error\":[\"EService:Unavailable\"]}".into()),
		Ans::Empty => ok(body(src, asset, &[], None)),
		Ans::Short => ok(body(src, asset, &rows[1..], None)),
		Ans::Idle => ok(body(src, asset, &rows.iter().map(|c| [c[0], c[1], c[2], 0]).collect::<Vec<_>>(), None)),
		Ans::BadNumber(i) => ok(body(src, asset, &rows, Some(i as usize))),
		Ans::Cut => {
			let b = body(src, asset, &rows, None);
			ok(b[..b.len() - 2].into())
		},
	}
}
fn who(url: &str) -> Option<(Src, Asset)> {
	let u = url.to_uppercase();
	let src = [("KRAKEN", Kraken), ("BITFINEX", Bitfinex), ("BITSTAMP", Bitstamp), ("COINBASE", Coinbase), ("XT.COM", Xt), ("MEXC", Mexc)]
		.iter()
		.find(|x| u.contains(x.0))?
		.1;
	let asset = [(3, "PLMC"), (2, "DOT"), (1, "USDC"), (1, "UDCUSD"), (0, "USDT"), (0, "USTUSD")].iter().find(|x| u.contains(x.1))?.0;
	Some((src, asset))
}
/// What the price of an asset has to be.
pub fn price(answers: &Answers, asset: Asset) -> Option<f64> {
	let (mut sum, mut vol) = (0.0, 0.0);
	for (s, a, x) in answers {
		let (Ans::Good(set) | Ans::Longer(set)) = x else { continue };
		if *a == asset {
			for c in candles(*set, *s, *a) {
				sum += c[3] as f64 * (c[0] + c[1] + c[2]) as f64 / 30_000.0;
				vol += c[3] as f64;
			}
		}
	}
	(vol > 0.0).then(|| sum / vol)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Op {
	/// blocks since the last run
	pub step: u64,
	pub answers: usize,
	pub keys: usize,
	pub pool: bool,
	pub stop: Stop,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M {
	pub now: u64,
	/// the block of the last submission of every asset
	pub last: [u64; 4],
	/// a worker died: until then nothing is certain
	pub unsure: u64,
}
#[derive(Clone, Default)]
pub struct Cfg {
	pub interval: u64,
	pub window: u64,
	pub start: u64,
	pub end: u64,
	pub db: Db,
	pub steps: Vec<u64>,
	pub answers: Vec<Answers>,
	pub keys: Vec<Vec<u8>>,
	pub pool: Vec<bool>,
	pub stops: Vec<Stop>,
}
pub struct Sys {
	pub cfg: Cfg,
}
const DB: &[u8] = b"the node's own storage";
pub const BLOCK_TIME: u64 = 12_000;

impl Harness for Sys {
	type Op = Op;
	type Model = M;
	fn genesis(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
		let t = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
		let mut v: Vec<_> = t.top.into_iter().collect();
		v.push((DB.to_vec(), self.cfg.db.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>().encode()));
		v
	}
	fn ignore(&self) -> Ignore {
		Ignore { prefixes: vec![sp_io::hashing::twox_128(b"System").to_vec()], keep: vec![] }
	}
	fn init(&self) -> M {
		M { now: self.cfg.start, last: [0; 4], unsure: 0 }
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let c = &self.cfg;
		let mut v = vec![];
		for &step in c.steps.iter().filter(|s| m.now + **s <= c.end) {
			for answers in 0..c.answers.len() {
				for keys in 0..c.keys.len() {
					for &pool in &c.pool {
						for &stop in &c.stops {
							v.push(Op { step, answers, keys, pool, stop });
						}
					}
				}
			}
		}
		v
	}
	fn step(&self, m: &mut M, op: &Op, cx: &mut Cx) {
		let c = &self.cfg;
		INTERVAL.with(|x| x.set(c.interval));
		WINDOW.with(|x| x.set(c.window));
		SIGNERS.with(|s| s.borrow_mut().clear());
		m.now += op.step;
		let n = m.now;
		let answers = c.answers[op.answers].clone();
		let keys = c.keys[op.keys].clone();
		let db: Db = sp_io::storage::get(DB)
			.and_then(|x| Vec::<(Vec<u8>, Vec<u8>)>::decode(&mut &x[..]).ok())
			.unwrap_or_default()
			.into_iter()
			.collect();
		let table: BTreeMap<(Src, Asset), Ans> = answers.iter().map(|(s, a, x)| ((*s, *a), *x)).collect();
		let exchange = Box::new(move |url: &str| match who(url) {
			Some((s, a)) => reply(s, a, table.get(&(s, a)).copied().unwrap_or(Ans::None)),
			None => Reply::Code(404, vec![]),
		});
		let world = Arc::new(Mutex::new(World::new(db, n * BLOCK_TIME, op.pool, op.stop, exchange)));
		let k2 = keys.clone();
		let again: Arc<dyn Fn(&Node, u64) + Send + Sync> =
			Arc::new(move |node, b| offchain(node, &k2, || <Worker as OffchainWorker<u64>>::offchain_worker(b)));
		let node = Node(world, again);
		let run = catch_unwind(AssertUnwindSafe(|| offchain(&node, &keys, || <Worker as OffchainWorker<u64>>::offchain_worker(n))));
		if let Err(e) = &run {
			if !e.is::<Died>() {
				cx.fail(|| format!("block {n}, {answers:?}: the worker panics"));
				return;
			}
		}
		let mut w = node.0.lock().unwrap_or_else(|e| e.into_inner());
		sp_io::storage::set(DB, &std::mem::take(&mut w.db).into_iter().collect::<Vec<_>>().encode());
		let died = w.dead;

		// what was asked for, and what was submitted by whom
		let mut asked = [0; 4];
		for u in &w.asked {
			match who(u) {
				Some((s, a)) if sources(a).contains(&s) => asked[a] += 1,
				_ => cx.check(&["O01"], false, || format!("block {n}: asks {u}")),
			}
		}
		let mut sent: BTreeMap<u64, Vec<FixedU128>> = BTreeMap::new();
		for x in &w.pool {
			match Xt::decode(&mut &x[..]) {
				Ok(Xt { signature: Some(_), call: RuntimeCall::Oracle(orml_oracle::Call::feed_values { values }), .. }) => {
					for (id, p) in values {
						sent.entry(id).or_default().push(p);
					}
				},
				x => cx.check(&["O04"], false, || format!("block {n}: submits {x:?}")),
			}
		}
		let signers = SIGNERS.with(|s| s.borrow().clone());

		// what should have been
		let member = keys.iter().any(|k| [1, 2].contains(k));
		let rem = n % c.interval;
		let last = m.last;
		let due = |a: usize| member && rem < c.window && last[a] < n - rem;
		let must: Vec<Asset> = (0..4).filter(|a| due(*a)).collect();
		let prices: Vec<Option<f64>> = (0..4).map(|a| price(&answers, a)).collect();
		let unsure = n * BLOCK_TIME <= m.unsure;
		let what = format!("block {n} (interval {}, window {}, keys {keys:?}), {answers:?}, {:?}", c.interval, c.window, op.stop);
		cx.outcome("offchain_worker", if died { "died" } else if !member { "no key" } else if must.is_empty() { "nothing due" } else if w.pool.is_empty() { "nothing sent" } else { "sent" });
		cx.check(&["O04"], w.pool.is_empty() || signers.iter().all(|s| [1, 2].contains(s)), || format!("{what}: signed by {signers:?}"));
		cx.check(&["O04"], member || w.pool.is_empty(), || format!("{what}: feeds prices without the key of a member"));
		for a in 0..4 {
			cx.check(&["O01"], due(a) || asked[a] == 0, || format!("{what}: asks for asset {a}, which is not due"));
			let got = sent.remove(&IDS[a]).unwrap_or_default();
			cx.check(&["O01", "O04"], got.len() <= 1, || format!("{what}: asset {a} is fed {} times", got.len()));
			let complete = !died && !unsure;
			if let Some(p) = got.first() {
				cx.check(&["O01"], due(a), || format!("{what}: asset {a} is fed though not due"));
				match prices[a] {
					None => cx.check(&["O02", "O03"], false, || format!("{what}: asset {a} is fed at {p:?} without any good answer")),
					Some(want) => {
						let x = p.into_inner() as f64 / FixedU128::accuracy() as f64;
						cx.check(&["O02", "O03"], (x - want).abs() <= want * 1e-6, || format!("{what}: asset {a} is fed at {x}, must be {want}"));
					},
				}
				if died {
					m.unsure = (n - rem + c.window) * BLOCK_TIME;
				} else if op.pool {
					m.last[a] = n;
				}
			} else if complete && due(a) {
				cx.check(&["O01"], asked[a] > 0, || format!("{what}: nobody is asked for asset {a}, which is due"));
				cx.check(&["O01", "O03", "O04"], prices[a].is_none() || !op.pool, || format!("{what}: asset {a} is not fed"));
			}
		}
		cx.check(&["O04"], sent.is_empty(), || format!("{what}: feeds {sent:?}"));
		if died {
			m.unsure = m.unsure.max(n * BLOCK_TIME + 30_000);
		}
		if cx.violation.is_none() && unsure && must.iter().any(|a| m.last[*a] != n) {
			// nothing to learn from here on until it is over
		}
	}
}
