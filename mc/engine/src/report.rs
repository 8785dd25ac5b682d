//! Running the checks of a harness from the command line, evidence and replay files.
use crate::*;
use serde_json::{json, Value};
use std::path::PathBuf;

/// What a check accumulates.
pub struct Run {
	pub property: String,
	pub tier: String,
	pub thorough: bool,
	pub known: Arc<HashSet<String>>,
	pub scenarios: Vec<ScenarioReport>,
	/// exhaustive enumeration of inputs of pure code: (name, evaluated, non-trivial, samples)
	pub enumerations: Vec<Enumeration>,
	pub assumptions: Vec<String>,
	budget: Instant,
	t0: Instant,
	replay: Option<(String, Vec<usize>)>,
	only: Option<String>,
	pub replay_result: Option<String>,
}

#[derive(Default, Clone)]
pub struct Enumeration {
	pub name: String,
	pub evaluated: u64,
	pub nontrivial: u64,
	pub rule: String,
	pub samples: Vec<String>,
	pub violation: Option<String>,
}

impl Run {
	pub fn scenario<S: Harness>(&mut self, mut sc: Scenario<S>) {
		// for tuning only
		if let Some(d) = std::env::var("MC_DEPTH_ADD").ok().and_then(|d| d.parse::<isize>().ok()) {
			sc.depth = (sc.depth as isize + d).max(1) as usize;
		}
		if let Some((name, choices)) = &self.replay {
			if *name == sc.name {
				let mut shown = vec![];
				let r = execute(&sc, &self.property, self.known.clone(), choices, Some(&mut shown));
				for (i, s) in shown.iter().enumerate() {
					println!("  {i:3}  {s}");
				}
				self.replay_result = Some(match r {
					Err(m) => format!("REPRODUCED: {m}"),
					Ok(_) => "not reproduced: the trace runs without violation".into(),
				});
			}
			return;
		}
		if self.scenarios.iter().any(|s| s.violation.is_some() || s.error.is_some()) {
			return;
		}
		if self.only.as_ref().map_or(false, |o| *o != sc.name) {
			return;
		}
		let left = self.budget.saturating_duration_since(Instant::now()).as_secs();
		let mut lim = Limits::new(left.max(1), if self.thorough { 40_000_000 } else { 6_000_000 });
		lim.replay_traces = if self.thorough { 1000 } else { 64 };
		let r = explore(&sc, &self.property, self.known.clone(), &lim);
		println!(
			"{} {}: states={} transitions={} depth={}/{}{} layers={:?} replayed={} {:.1}s{}",
			self.property,
			r.name,
			r.states,
			r.transitions,
			r.depth_completed,
			r.depth_bound,
			if r.fixpoint { " (fixpoint)" } else { "" },
			r.layers,
			r.traces_replayed,
			r.wall_s,
			r.capped.as_ref().map_or(String::new(), |c| format!(" CAPPED: {c}")),
		);
		if std::env::var("MC_OUTCOMES").is_ok() {
			for (k, v) in &r.outcomes {
				println!("      {k}: {v}");
			}
		}
		self.scenarios.push(r);
	}

	pub fn enumerate(&mut self, e: Enumeration) {
		if let Some((n, _)) = &self.replay {
			if *n == e.name {
				self.replay_result = Some(match e.violation {
					Some(m) => format!("REPRODUCED: {m}"),
					None => "not reproduced: the enumeration finds no violation".into(),
				});
			}
			return;
		}
		println!("{} {}: evaluated={} nontrivial={}", self.property, e.name, e.evaluated, e.nontrivial);
		self.enumerations.push(e);
	}
	pub fn replaying(&self) -> bool {
		self.replay.is_some()
	}
	pub fn assume(&mut self, s: &str) {
		self.assumptions.push(s.into());
	}
}

pub struct Check {
	pub property: &'static str,
	pub run: fn(&mut Run),
}

fn verif() -> PathBuf {
	std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}

fn known_keys() -> HashSet<String> {
	// lines "known: property=<id> key=<key> <text>"
	let mut out = HashSet::new();
	let text = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
	for l in text.lines() {
		if let Some(r) = l.strip_prefix("known: ") {
			let mut it = r.split_whitespace();
			if let (Some(p), Some(k)) = (
				it.next().and_then(|w| w.strip_prefix("property=")),
				it.next().and_then(|w| w.strip_prefix("key=")),
			) {
				out.insert(format!("{p}:{k}"));
			}
		}
	}
	out
}

/// usage: <bin> <property> | <bin> replay <file>
pub fn main_with(checks: &[Check]) -> ! {
	quiet_panics();
	let args: Vec<String> = std::env::args().skip(1).collect();
	let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
	let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
	let (property, replay) = match args.first().map(|s| s.as_str()) {
		Some("replay") => {
			let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("replay file")).unwrap();
			let choices = v["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as usize).collect();
			(
				v["property"].as_str().unwrap().to_string(),
				Some((v["scenario"].as_str().unwrap().to_string(), choices, v["tier"].as_str().unwrap().to_string())),
			)
		},
		Some(p) => (p.to_string(), None),
		None => {
			eprintln!("usage: <property> | replay <file>");
			std::process::exit(2)
		},
	};
	let tier = replay.as_ref().map_or(tier, |r| r.2.clone());
	let Some(check) = checks.iter().find(|c| c.property == property) else {
		eprintln!("unknown property {property}");
		std::process::exit(2)
	};
	let thorough = tier == "thorough";
	let secs: u64 = std::env::var("MC_SECONDS")
		.ok()
		.and_then(|s| s.parse().ok())
		.unwrap_or(if thorough { 3000 } else { 240 });
	let mut run = Run {
		property: property.clone(),
		thorough,
		tier: tier.clone(),
		known: Arc::new(known_keys()),
		scenarios: vec![],
		enumerations: vec![],
		assumptions: vec![],
		budget: Instant::now() + Duration::from_secs(secs),
		t0: Instant::now(),
		replay: replay.map(|r| (r.0, r.1)),
		only: std::env::var("MC_ONLY").ok(),
		replay_result: None,
	};
	(check.run)(&mut run);
	if run.replay.is_some() {
		let r = run.replay_result.unwrap_or("no such scenario".into());
		println!("{r}");
		std::process::exit(if r.starts_with("REPRODUCED") { 1 } else { 0 });
	}
	finish(run, seed)
}

fn finish(run: Run, seed: i64) -> ! {
	let v = verif();
	let _ = std::fs::create_dir_all(v.join("evidence"));
	let states: u64 = run.scenarios.iter().map(|s| s.states).sum();
	let transitions: u64 = run.scenarios.iter().map(|s| s.transitions).sum();
	let traces: u64 = run.scenarios.iter().map(|s| s.traces_replayed).sum();
	let viol = run.scenarios.iter().filter_map(|s| s.violation.clone()).next();
	let eviol = run.enumerations.iter().find(|e| e.violation.is_some()).cloned();
	let error = run.scenarios.iter().find_map(|s| s.error.clone());
	let capped = run.scenarios.iter().any(|s| s.capped.is_some());
	let mut samples: Vec<Value> = run
		.scenarios
		.iter()
		.flat_map(|s| s.samples.iter().take(1).map(|x| json!({"scenario": s.name, "trace": x})))
		.collect();
	samples.extend(run.enumerations.iter().map(|e| json!({"enumeration": e.name, "cases": e.samples})));
	let scen: Vec<Value> = run
		.scenarios
		.iter()
		.map(|s| {
			json!({"name": s.name, "states": s.states, "transitions": s.transitions,
				"depth_bound": s.depth_bound, "depth_completed": s.depth_completed,
				"fixpoint_reached": s.fixpoint, "capped": s.capped, "states_per_layer": s.layers,
				"traces_replayed_from_genesis": s.traces_replayed, "outcomes": s.outcomes, "wall_s": s.wall_s})
		})
		.collect();
	let enums: Vec<Value> = run
		.enumerations
		.iter()
		.map(|e| json!({"name": e.name, "evaluated": e.evaluated, "nontrivial": e.nontrivial, "rule": e.rule}))
		.collect();
	let mut cov = json!({"samples": samples, "exhaustive": !capped && viol.is_none() && eviol.is_none() && error.is_none()});
	let level = if run.scenarios.is_empty() {
		cov["evaluations"] = json!(run.enumerations.iter().map(|e| e.evaluated).sum::<u64>());
		cov["distinct_nontrivial"] = json!(run.enumerations.iter().map(|e| e.nontrivial).sum::<u64>());
		cov["rule"] = json!(run.enumerations.iter().map(|e| e.rule.clone()).collect::<Vec<_>>().join("; "));
		"exploration"
	} else {
		cov["states"] = json!(states);
		cov["transitions"] = json!(transitions);
		cov["traces_validated_against_impl"] = json!(traces);
		cov["scenarios"] = json!(scen);
		"model_checking"
	};
	if !enums.is_empty() {
		cov["enumerations"] = json!(enums);
	}
	let known: BTreeMap<String, String> = run.scenarios.iter().flat_map(|s| s.known.clone()).collect();
	cov["known_findings_met"] = json!(known);
	let nviol = viol.is_some() as i64 + eviol.is_some() as i64;
	let ev = json!({
		"property": run.property, "tier": run.tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": run.assumptions, "wall_s": run.t0.elapsed().as_secs_f64(), "violations": nviol,
	});
	std::fs::write(
		v.join("evidence").join(format!("{}.json", run.property)),
		serde_json::to_string_pretty(&ev).unwrap(),
	)
	.expect("evidence");
	for (k, m) in &known {
		println!("KNOWN-FINDING: property={} [{k}] {m}", run.property);
	}
	let _ = std::fs::create_dir_all(v.join("replays"));
	let file = v.join("replays").join(format!("{}.json", run.property));
	let _ = std::fs::remove_file(&file);
	if let Some(x) = viol {
		std::fs::write(
			&file,
			serde_json::to_string_pretty(&json!({"property": run.property, "tier": run.tier, "scenario": x.scenario,
				"message": x.message, "choices": x.choices, "ops": x.ops}))
			.unwrap(),
		)
		.unwrap();
		println!("  scenario {}", x.scenario);
		for (i, o) in x.ops.iter().enumerate() {
			println!("  {i:3}  {o}");
		}
		println!("  => {}", x.message);
		println!("VIOLATION property={} replay={}", run.property, file.display());
		std::process::exit(1)
	}
	if let Some(e) = eviol {
		std::fs::write(
			&file,
			serde_json::to_string_pretty(&json!({"property": run.property, "tier": run.tier, "scenario": e.name,
				"message": e.violation, "choices": []}))
			.unwrap(),
		)
		.unwrap();
		println!("  enumeration {}: {}", e.name, e.violation.unwrap());
		println!("VIOLATION property={} replay={}", run.property, file.display());
		std::process::exit(1)
	}
	if let Some(e) = error {
		eprintln!("CHECKER ERROR: {e}");
		std::process::exit(3)
	}
	println!(
		"OK property={} states={} transitions={} traces={} enumerated={} {:.1}s",
		run.property,
		states,
		transitions,
		traces,
		run.enumerations.iter().map(|e| e.evaluated).sum::<u64>(),
		run.t0.elapsed().as_secs_f64()
	);
	std::process::exit(0)
}
