//! Explicit-state model checker for runtime code. A state is the complete key/value storage of a
//! runtime plus a reference model; a transition runs one real call of the implementation. The
//! explorer enumerates every operation sequence of a scenario's alphabet up to its depth bound,
//! breadth first, merging states with equal storage and equal model.
pub mod ext;
pub mod report;

pub use ext::{hash_val, Ext, Ignore, Snapshot};
pub use report::{main_with, Check, Enumeration, Run};

use std::{
	cell::RefCell,
	collections::{BTreeMap, HashMap, HashSet},
	fmt::Debug,
	hash::Hash,
	panic::{catch_unwind, AssertUnwindSafe},
	sync::{
		atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
		Arc, Mutex,
	},
	time::{Duration, Instant},
};

pub trait Harness: Sync {
	type Op: Clone + Debug + Send + Sync;
	type Model: Clone + Hash + Send + Sync;

	/// Storage of the initial state.
	fn genesis(&self) -> Vec<(Vec<u8>, Vec<u8>)>;
	/// Storage that no property can observe and no call reads (events and the like).
	fn ignore(&self) -> Ignore;
	/// Runs inside the storage environment of the initial state.
	fn init(&self) -> Self::Model;
	/// All operations to try in this state, simplest first. Runs inside the storage environment.
	fn ops(&self, m: &Self::Model) -> Vec<Self::Op>;
	/// Perform `op` on the implementation and on the model, and compare.
	fn step(&self, m: &mut Self::Model, op: &Self::Op, cx: &mut Cx);
}

/// What a step reports.
pub struct Cx {
	pub property: String,
	pub violation: Option<String>,
	known_keys: Arc<HashSet<String>>,
	pub known: BTreeMap<String, String>,
	pub outcomes: HashMap<(&'static str, &'static str), u64>,
	/// set by a step whose successor needs no further exploration
	pub prune: bool,
}

impl Cx {
	pub fn new(property: &str, known_keys: Arc<HashSet<String>>) -> Self {
		Cx {
			property: property.into(),
			violation: None,
			known_keys,
			known: Default::default(),
			outcomes: Default::default(),
			prune: false,
		}
	}
	/// Is this run deciding one of these properties?
	pub fn on(&self, props: &[&str]) -> bool {
		props.iter().any(|p| *p == self.property)
	}
	/// Report that the property under check is broken.
	pub fn fail(&mut self, msg: impl FnOnce() -> String) {
		if self.violation.is_none() {
			self.violation = Some(msg());
		}
	}
	pub fn check(&mut self, props: &[&str], ok: bool, msg: impl FnOnce() -> String) {
		if !ok && self.on(props) {
			self.fail(msg)
		}
	}
	/// A failure that may be listed in the known-findings file under `key`.
	pub fn fail_keyed(&mut self, key: &str, msg: impl FnOnce() -> String) {
		if self.known_keys.contains(&format!("{}:{}", self.property, key)) {
			self.known.entry(key.into()).or_insert_with(msg);
		} else {
			self.fail(|| format!("[{key}] {}", msg()))
		}
	}
	/// Count an observed outcome (evidence that the exploration is not vacuous).
	pub fn outcome(&mut self, op: &'static str, what: &'static str) {
		*self.outcomes.entry((op, what)).or_default() += 1;
	}
}

pub struct Scenario<S: Harness> {
	pub name: String,
	pub sys: S,
	/// operations that lead from genesis to the state the exploration starts from
	pub prefix: Vec<S::Op>,
	pub depth: usize,
}

#[derive(Debug, Clone)]
pub struct Violation {
	pub scenario: String,
	pub message: String,
	/// operations, written out, from genesis
	pub ops: Vec<String>,
	/// the same as choices: index into the list of operations offered after the prefix
	pub choices: Vec<usize>,
}

#[derive(Default, Debug, Clone)]
pub struct ScenarioReport {
	pub name: String,
	pub states: u64,
	pub transitions: u64,
	pub traces_replayed: u64,
	pub depth_bound: usize,
	pub depth_completed: usize,
	pub fixpoint: bool,
	pub capped: Option<String>,
	pub layers: Vec<u64>,
	pub outcomes: BTreeMap<String, u64>,
	pub known: BTreeMap<String, String>,
	pub samples: Vec<Vec<String>>,
	pub wall_s: f64,
	pub violation: Option<Violation>,
	/// the checker itself misbehaved (not a verdict)
	pub error: Option<String>,
}

struct PathNode<O> {
	parent: Option<Arc<PathNode<O>>>,
	op: O,
	choice: u32,
}

struct Node<S: Harness> {
	snap: Snapshot,
	model: S::Model,
	path: Option<Arc<PathNode<S::Op>>>,
}

fn unwind_path<O: Clone>(mut p: Option<Arc<PathNode<O>>>) -> (Vec<O>, Vec<usize>) {
	let (mut ops, mut ch) = (vec![], vec![]);
	while let Some(n) = p {
		ops.push(n.op.clone());
		ch.push(n.choice as usize);
		p = n.parent.clone();
	}
	ops.reverse();
	ch.reverse();
	(ops, ch)
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn quiet_panics() {
	std::panic::set_hook(Box::new(|info| {
		let s = format!("{info}");
		PANIC.with(|p| *p.borrow_mut() = s.replace('\n', " "));
	}));
}

pub fn run_in<R>(ext: &mut Ext, f: impl FnOnce() -> R) -> Result<R, String> {
	catch_unwind(AssertUnwindSafe(|| sp_externalities::set_and_run_with_externalities(ext, f)))
		.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

#[derive(Clone)]
pub struct Limits {
	pub deadline: Instant,
	pub max_states: u64,
	pub threads: usize,
	pub replay_traces: usize,
}

impl Limits {
	pub fn new(secs: u64, max_states: u64) -> Self {
		Limits {
			deadline: Instant::now() + Duration::from_secs(secs),
			max_states,
			threads: std::thread::available_parallelism().map_or(8, |n| n.get()),
			replay_traces: 64,
		}
	}
}

/// One step on the storage in `ext`, with panics turned into violations.
fn one_step<S: Harness>(sys: &S, ext: &mut Ext, m: &mut S::Model, op: &S::Op, cx: &mut Cx) {
	if let Err(p) = run_in(ext, || sys.step(m, op, cx)) {
		cx.fail(|| format!("the implementation panicked: {p}"));
	}
}

/// Execute a whole trace from genesis. Returns the final (storage, model) hash or the violation.
pub fn execute<S: Harness>(
	sc: &Scenario<S>,
	property: &str,
	known: Arc<HashSet<String>>,
	choices: &[usize],
	mut show: Option<&mut Vec<String>>,
) -> Result<u128, String> {
	let ignore = Arc::new(sc.sys.ignore());
	let (mut ext, mut m) = start(sc, &ignore)?;
	let mut cx = Cx::new(property, known);
	for op in &sc.prefix {
		if let Some(s) = show.as_mut() {
			s.push(format!("{op:?}"));
		}
		one_step(&sc.sys, &mut ext, &mut m, op, &mut cx);
		if let Some(v) = cx.violation.take() {
			return Err(v);
		}
	}
	for &c in choices {
		let ops = run_in(&mut ext, || sc.sys.ops(&m))?;
		let op = ops.get(c).ok_or_else(|| format!("DIVERGENCE: choice {c} of {} offered", ops.len()))?;
		if let Some(s) = show.as_mut() {
			s.push(format!("{op:?}"));
		}
		one_step(&sc.sys, &mut ext, &mut m, op, &mut cx);
		if let Some(v) = cx.violation.take() {
			return Err(v);
		}
	}
	Ok(state_key(&ext, &m))
}

/// The state a scenario begins with. It is built by the implementation's genesis and first steps, which must succeed.
fn start<S: Harness>(sc: &Scenario<S>, ignore: &Arc<Ignore>) -> Result<(Ext, S::Model), String> {
	let wrong = |e: String| format!("the starting state could not be set up: {e}");
	let mut none = Ext::new(&Snapshot::default(), ignore.clone());
	let pairs = run_in(&mut none, || sc.sys.genesis()).map_err(wrong)?;
	let mut ext = Ext::from_pairs(pairs, ignore.clone());
	let m = run_in(&mut ext, || sc.sys.init()).map_err(wrong)?;
	Ok((ext, m))
}

fn state_key<M: Hash>(ext: &Ext, m: &M) -> u128 {
	ext.content_hash() ^ hash_val(m).rotate_left(64).wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835)
}

pub fn explore<S: Harness>(
	sc: &Scenario<S>,
	property: &str,
	known: Arc<HashSet<String>>,
	lim: &Limits,
) -> ScenarioReport {
	let t0 = Instant::now();
	let mut rep = ScenarioReport { name: sc.name.clone(), depth_bound: sc.depth, ..Default::default() };
	let ignore = Arc::new(sc.sys.ignore());
	let (mut ext, mut model) = match start(sc, &ignore) {
		Ok(x) => x,
		Err(message) => {
			rep.violation = Some(Violation { scenario: sc.name.clone(), message, ops: vec![], choices: vec![] });
			rep.wall_s = t0.elapsed().as_secs_f64();
			return rep;
		},
	};
	let mut cx0 = Cx::new(property, known.clone());
	let mut done = vec![];
	let debug = std::env::var_os("MC_PREFIX").is_some();
	for op in &sc.prefix {
		done.push(format!("{op:?}"));
		rep.transitions += 1;
		let before = cx0.outcomes.clone();
		one_step(&sc.sys, &mut ext, &mut model, op, &mut cx0);
		if debug {
			for (k, n) in &cx0.outcomes {
				if before.get(k) != Some(n) && k.1 != "ok" {
					eprintln!("{}: prefix {op:?}: {}", sc.name, k.1);
				}
			}
		}
		if let Some(message) = cx0.violation.take() {
			rep.violation = Some(Violation { scenario: sc.name.clone(), message, ops: done, choices: vec![] });
			rep.wall_s = t0.elapsed().as_secs_f64();
			return rep;
		}
	}
	merge(&mut rep, cx0);

	const SHARDS: usize = 256;
	let visited: Vec<Mutex<HashSet<u128>>> = (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect();
	let root_key = state_key(&ext, &model);
	visited[(root_key % SHARDS as u128) as usize].lock().unwrap().insert(root_key);
	let states = AtomicU64::new(1);
	let transitions = AtomicU64::new(0);
	let stop = AtomicBool::new(false);
	let capped: Mutex<Option<String>> = Mutex::new(None);
	let violation: Mutex<Option<(Vec<S::Op>, Vec<usize>, String)>> = Mutex::new(None);
	type Sample<O> = Vec<(u128, Option<Arc<PathNode<O>>>)>;
	let mut leaf_sample: Sample<S::Op> = vec![];

	let mut frontier: Vec<Node<S>> = vec![Node { snap: ext.snapshot(), model, path: None }];
	rep.layers.push(1);
	for layer in 1..=sc.depth {
		let last = layer == sc.depth;
		let next_i = AtomicUsize::new(0);
		let results: Vec<(Vec<Node<S>>, Sample<S::Op>, Cx)> = std::thread::scope(|scope| {
			let hs: Vec<_> = (0..lim.threads)
				.map(|_| {
					let (frontier, next_i, visited, states, transitions, stop, capped, violation, known, ignore) = (
						&frontier, &next_i, &visited, &states, &transitions, &stop, &capped, &violation, &known, &ignore,
					);
					scope.spawn(move || {
						let mut out: Vec<Node<S>> = vec![];
						let mut sample: Sample<S::Op> = vec![];
						let mut cx = Cx::new(property, known.clone());
						let mut ext = Ext::new(&Snapshot::default(), ignore.clone());
						loop {
							if stop.load(Ordering::Relaxed) {
								break;
							}
							let i = next_i.fetch_add(1, Ordering::Relaxed);
							let Some(node) = frontier.get(i) else { break };
							if i % 16 == 0 && Instant::now() > lim.deadline {
								*capped.lock().unwrap() = Some(format!("time limit in layer {layer}"));
								stop.store(true, Ordering::Relaxed);
								break;
							}
							ext.load(&node.snap);
							let ops = match run_in(&mut ext, || sc.sys.ops(&node.model)) {
								Ok(o) => o,
								Err(e) => {
									*violation.lock().unwrap() = Some((vec![], vec![], format!("ops panicked: {e}")));
									stop.store(true, Ordering::Relaxed);
									break;
								},
							};
							let mut n_tr = 0;
							for (c, op) in ops.iter().enumerate() {
								ext.begin();
								let mut m = node.model.clone();
								cx.prune = false;
								one_step(&sc.sys, &mut ext, &mut m, op, &mut cx);
								n_tr += 1;
								if let Some(msg) = cx.violation.take() {
									let (mut ops, mut ch) = unwind_path(node.path.clone());
									ops.push(op.clone());
									ch.push(c);
									let mut v = violation.lock().unwrap();
									if v.as_ref().map_or(true, |o| (o.1.len(), &o.1) > (ch.len(), &ch)) {
										*v = Some((ops, ch, msg));
									}
									stop.store(true, Ordering::Relaxed);
									break;
								}
								let key = state_key(&ext, &m);
								let new =
									visited[(key % SHARDS as u128) as usize].lock().unwrap().insert(key);
								if new {
									let n = states.fetch_add(1, Ordering::Relaxed);
									if n >= lim.max_states {
										*capped.lock().unwrap() = Some(format!("state limit in layer {layer}"));
										stop.store(true, Ordering::Relaxed);
									}
									let mk = || {
										Some(Arc::new(PathNode {
											parent: node.path.clone(),
											op: op.clone(),
											choice: c as u32,
										}))
									};
									if last {
										// keep the smallest keys: a deterministic choice of leaves
										if sample.len() < lim.replay_traces {
											sample.push((key, mk()));
										} else {
											let w = sample.iter_mut().max_by_key(|s| s.0).unwrap();
											if key < w.0 {
												*w = (key, mk());
											}
										}
									} else if !cx.prune {
										out.push(Node { snap: ext.snapshot(), model: m, path: mk() });
									}
								}
								ext.unwind_to(0);
							}
							transitions.fetch_add(n_tr, Ordering::Relaxed);
						}
						(out, sample, cx)
					})
				})
				.collect();
			hs.into_iter().map(|h| h.join().expect("worker")).collect()
		});
		let mut next = vec![];
		for (o, s, cx) in results {
			next.extend(o);
			leaf_sample.extend(s);
			merge(&mut rep, cx);
		}
		if stop.load(Ordering::Relaxed) {
			break;
		}
		rep.depth_completed = layer;
		rep.layers.push(if last { 0 } else { next.len() as u64 });
		if next.is_empty() && leaf_sample.is_empty() {
			rep.fixpoint = true;
			// nothing new: keep leaves for the replay check from the last frontier
			for n in frontier.iter().take(lim.replay_traces) {
				leaf_sample.push((0, n.path.clone()));
			}
			break;
		}
		frontier = next;
	}
	rep.states = states.into_inner();
	rep.transitions += transitions.into_inner();
	rep.capped = capped.into_inner().unwrap();

	if let Some((ops, choices, message)) = violation.into_inner().unwrap() {
		let mut shown: Vec<String> = sc.prefix.iter().map(|o| format!("{o:?}")).collect();
		shown.extend(ops.iter().map(|o| format!("{o:?}")));
		// confirm: the same trace must fail the same way, twice, from genesis
		for _ in 0..2 {
			match execute(sc, property, known.clone(), &choices, None) {
				Err(m) if m == message => {},
				other => {
					rep.error = Some(format!("not reproducible: {message} vs {other:?} on {shown:?}"));
					rep.wall_s = t0.elapsed().as_secs_f64();
					return rep;
				},
			}
		}
		rep.violation = Some(Violation { scenario: sc.name.clone(), message, ops: shown, choices });
		rep.wall_s = t0.elapsed().as_secs_f64();
		return rep;
	}

	// whole traces again, from genesis and without snapshots
	leaf_sample.sort_by_key(|s| s.0);
	leaf_sample.truncate(lim.replay_traces);
	for (key, path) in leaf_sample {
		let (ops, choices) = unwind_path(path);
		match execute(sc, property, known.clone(), &choices, None) {
			Ok(k) if key == 0 || k == key => rep.traces_replayed += 1,
			other => {
				rep.error = Some(format!("replay of {ops:?} diverged: {other:?}"));
				break;
			},
		}
		if rep.samples.len() < 2 {
			rep.samples.push(sc.prefix.iter().chain(ops.iter()).map(|o| format!("{o:?}")).collect());
		}
	}
	rep.wall_s = t0.elapsed().as_secs_f64();
	rep
}

fn merge(rep: &mut ScenarioReport, cx: Cx) {
	for ((a, b), n) in cx.outcomes {
		*rep.outcomes.entry(format!("{a}:{b}")).or_default() += n;
	}
	for (k, v) in cx.known {
		rep.known.entry(k).or_insert(v);
	}
}
