//! C26: the optional features build in every combination, and enabling some of them changes
//! nothing of what the rest of the library does. Differential testing between the builds: the
//! same generated cases are run against the library compiled with each set of features.
#[path = "../../harness/src/guided.rs"]
mod guided;
#[path = "../../harness/src/engine.rs"]
#[allow(dead_code, unused_macros)]
mod engine;
use engine::{env_u64, report, verif_dir, write_evidence, Cx, Prop, R};
use std::collections::{BTreeMap, HashSet};
use std::process::{Command, Output};
use std::time::Instant;

const COLUMNS: [&str; 6] = ["base", "serde", "contextual", "v3", "v4", "v5"];

/// A set of features of the probe (its UUID features include `uuid-dep`).
#[derive(Clone)]
struct Set {
	features: Vec<&'static str>,
	worker: usize,
}

impl Set {
	fn name(&self) -> String {
		if self.features.is_empty() {
			"no feature".into()
		} else {
			self.features.join("+")
		}
	}
	/// The columns this build fills, besides the first one.
	fn has(&self, column: &str) -> bool {
		column == "base" || self.features.contains(&column) || (column.starts_with('v') && self.features.contains(&"uuid-all"))
	}
}

fn sets() -> Vec<Set> {
	let uuid: [&[&'static str]; 9] = [&[], &["uuid-dep"], &["v3"], &["v4"], &["v5"], &["v3", "v4"], &["v3", "v5"], &["v4", "v5"], &["uuid-all"]];
	let other: [&[&'static str]; 4] = [&[], &["serde"], &["contextual"], &["serde", "contextual"]];
	let mut r = vec![];
	for u in uuid {
		for (worker, o) in other.iter().enumerate() {
			r.push(Set { features: [o, u].concat(), worker });
		}
	}
	r
}

fn output(c: &mut Command) -> Output {
	loop {
		match c.output() {
			// a child started meanwhile by another thread still holds the copy open for writing
			Err(e) if e.raw_os_error() == Some(libc::ETXTBSY) => std::thread::sleep(std::time::Duration::from_millis(20)),
			r => {
				return r.unwrap_or_else(|e| {
					println!("ERROR property=C26: {c:?}: {e}");
					std::process::exit(2)
				})
			}
		}
	}
}

enum Built {
	Failed(String),
	Program(String),
}

fn build(s: &Set) -> Built {
	let v = verif_dir();
	let target = format!("{v}/target/features/{}", s.worker);
	let out = output(
		Command::new("cargo")
			.args(["build", "-q", "--offline", "--locked", "--bin", "probe", "--features", &s.features.join(",")])
			.current_dir(format!("{v}/harness-features/probe"))
			.env("CARGO_TARGET_DIR", &target)
			.env("RUSTFLAGS", "-Awarnings")
			.env("CARGO_BUILD_JOBS", "2"),
	);
	if !out.status.success() {
		return Built::Failed(String::from_utf8_lossy(&out.stderr).into());
	}
	// the next set of this worker overwrites it
	let to = format!("{target}/probe-{}", s.features.join("-"));
	let _ = std::fs::remove_file(&to);
	if let Err(e) = std::fs::copy(format!("{target}/debug/probe"), &to) {
		println!("ERROR property=C26: copy to {to}: {e}");
		std::process::exit(2)
	}
	Built::Program(to)
}

fn probe(program: &str, what: &str, seed: u64, n: u64) -> Result<String, String> {
	let mut c = Command::new(program);
	c.args([what, &seed.to_string(), &n.to_string()]);
	use std::os::unix::process::CommandExt;
	// CPU time and memory, so that an endless case becomes an answer
	unsafe {
		c.pre_exec(|| {
			let l = |s: u64| libc::rlimit { rlim_cur: s, rlim_max: s };
			libc::setrlimit(libc::RLIMIT_CPU, &l(250));
			libc::setrlimit(libc::RLIMIT_AS, &l(4 << 30));
			Ok(())
		});
	}
	let out = output(&mut c);
	if out.status.success() {
		Ok(String::from_utf8_lossy(&out.stdout).into())
	} else {
		Err(format!("{} ({})", out.status, String::from_utf8_lossy(&out.stderr)))
	}
}

/// The checks of the other properties which can be built whatever the features.
const CHECKS: [&str; 24] = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c20", "c21", "c22", "c23", "c27", "c28", "c29"];

/// Builds and runs the checks of the other properties with these features.
/// For each, its exit code, its number of cases and what it printed.
fn checks(features: &str, seed: u64, cases: u64) -> Result<Vec<(i32, u64, String)>, String> {
	let v = verif_dir();
	let target = format!("{v}/target/features/checks");
	let mut c = Command::new("cargo");
	c.args(["build", "-q", "--offline", "--locked", "--no-default-features", "--features", features]);
	for b in CHECKS {
		c.args(["--bin", b]);
	}
	let out = output(
		c.current_dir(format!("{v}/harness"))
			.env("CARGO_TARGET_DIR", &target)
			.env("RUSTFLAGS", "-Awarnings")
			.env("CARGO_PROFILE_DEV_OPT_LEVEL", "0")
			.env("CARGO_PROFILE_DEV_DEBUG", "0"),
	);
	if !out.status.success() {
		return Err(String::from_utf8_lossy(&out.stderr).into());
	}
	Ok(CHECKS
		.iter()
		.map(|b| {
			let o = output(
				Command::new(format!("{target}/debug/{b}"))
					.arg("quick")
					.env("VERIF_DIR", format!("{target}/run"))
					.env("VERIF_SEED", seed.to_string())
					.env("VERIF_CASES", cases.to_string())
					.env("VERIF_ENUM", "0"),
			);
			let text = String::from_utf8_lossy(&o.stdout).to_string() + &String::from_utf8_lossy(&o.stderr);
			let n = text.split("held on ").nth(1).and_then(|t| t.split(' ').next()).and_then(|t| t.parse().ok()).unwrap_or(0);
			(o.status.code().unwrap_or(-1), n, text)
		})
		.collect())
}

fn unused(_: &mut Cx) -> R {
	Ok(())
}

fn violation(name: &str, message: &str, text: &str) -> ! {
	let dir = format!("{}/replays", verif_dir());
	let _ = std::fs::create_dir_all(&dir);
	let path = format!("{dir}/C26-{}.txt", name.replace([' ', '+'], "-"));
	let _ = std::fs::write(&path, format!("{message}\n\n{text}"));
	report("C26", &path, message, &[]);
	std::process::exit(1)
}

fn main() {
	let tier = std::env::args().nth(1).unwrap_or_else(|| "quick".into());
	let (start, seed) = (Instant::now(), env_u64("VERIF_SEED", 1));
	let n = env_u64("VERIF_CASES", if tier == "thorough" { 30_000 } else { 3_000 });
	let sets = sets();

	let mut built: Vec<Option<Built>> = sets.iter().map(|_| None).collect();
	let mut results: Vec<Option<Result<String, String>>> = sets.iter().map(|_| None).collect();
	std::thread::scope(|scope| {
		let handles: Vec<_> = (0..4)
			.map(|w| {
				let sets = &sets;
				let run = tier != "build";
				scope.spawn(move || {
					let mut r = vec![];
					for (i, s) in sets.iter().enumerate().filter(|(_, s)| s.worker == w) {
						let b = build(s);
						let o = match &b {
							Built::Program(p) if run => Some(probe(p, "run", seed, n)),
							_ => None,
						};
						r.push((i, b, o));
					}
					r
				})
			})
			.collect();
		for h in handles {
			for (i, b, o) in h.join().unwrap() {
				built[i] = Some(b);
				results[i] = o;
			}
		}
	});
	if tier == "build" {
		return;
	}
	// the build without features is the reference
	let base_program = match built[0].as_ref().unwrap() {
		Built::Program(p) => p.clone(),
		Built::Failed(log) => {
			println!("{log}\nERROR property=C26: the library does not build without its optional features");
			std::process::exit(2)
		}
	};
	for (s, b) in sets.iter().zip(&built) {
		if let Some(Built::Failed(log)) = b {
			violation(&s.name(), &format!("the library builds without features, but not with {}", s.name()), log)
		}
	}
	let table = |s: &str| -> Vec<Vec<String>> { s.lines().map(|l| l.split(' ').map(|x| x.to_string()).collect()).collect() };
	let base = match (results[0].clone().unwrap(), probe(&base_program, "run", seed, n)) {
		(Ok(a), Ok(b)) => (table(&a), table(&b)),
		(Err(e), _) | (_, Err(e)) => {
			println!("ERROR property=C26: the program fails without any feature: {e}");
			std::process::exit(2)
		}
	};
	if base.0.len() as u64 != n || base.1.len() as u64 != n {
		println!("ERROR property=C26: {} and {} cases instead of {n}", base.0.len(), base.1.len());
		std::process::exit(2)
	}
	// A case whose transcript depends on the run says nothing about the features.
	let stable: Vec<bool> = base.0.iter().zip(&base.1).map(|(a, b)| a == b).collect();
	let mut reference: BTreeMap<&str, (usize, Vec<Vec<String>>)> = BTreeMap::new();
	reference.insert("base", (0, base.0.clone()));
	let (mut compared, mut classes) = (0u64, BTreeMap::<&'static str, u64>::new());
	for (i, s) in sets.iter().enumerate() {
		let t = match results[i].clone().unwrap() {
			Ok(t) => table(&t),
			Err(e) => violation(&s.name(), &format!("the cases run without features, but with {}: {e}", s.name()), ""),
		};
		for (c, column) in COLUMNS.iter().enumerate().filter(|(_, c)| s.has(c)) {
			let (j, r) = reference.entry(column).or_insert_with(|| (i, t.clone()));
			let differs: Vec<usize> = (0..n as usize).filter(|k| stable[*k] && t.get(*k).map(|l| &l[c]) != r.get(*k).map(|l| &l[c])).collect();
			compared += n;
			*classes.entry(column).or_default() += n;
			// the shortest transcript of the first ones
			let program = |i: usize| match built[i].as_ref().unwrap() {
				Built::Program(p) => p,
				Built::Failed(_) => unreachable!(),
			};
			if let Some((k, a, b)) = differs
				.iter()
				.take(200)
				.map(|k| (*k, probe(program(*j), "show", seed, *k as u64).unwrap_or_else(|e| e), probe(program(i), "show", seed, *k as u64).unwrap_or_else(|e| e)))
				.min_by_key(|(_, a, b)| a.len() + b.len())
			{
				let (mut la, mut lb) = (a.lines(), b.lines());
				let section = format!("[{column}]");
				la.by_ref().find(|l| *l == section);
				lb.by_ref().find(|l| *l == section);
				let first = la.zip(lb).find(|(a, b)| a != b).map(|(a, b)| format!("{a}\n  instead of, with {}:\n  {b}", sets[i].name())).unwrap_or_default();
				violation(
					&s.name(),
					&format!("case {k} of seed {seed} ({} of {n} cases differ) does not do the same ({column} part) with {} and {}:\n  {first}", differs.len(), sets[*j].name(), s.name()),
					&format!("probe show {seed} {k}\n\n==== {}\n{a}\n==== {}\n{b}", sets[*j].name(), s.name()),
				)
			}
		}
	}
	// every other property, checked with no feature and with all of them
	let cases = if tier == "thorough" { n } else { n / 2 };
	match (checks("", seed, cases), checks("serde,contextual,uuid", seed, cases)) {
		(Ok(none), Ok(all)) => {
			for ((b, a), z) in CHECKS.iter().zip(&none).zip(&all) {
				if (a.0 == 0) != (z.0 == 0) && a.0.min(z.0) == 0 && a.0.max(z.0) == 1 {
					let id = b.to_uppercase();
					let (with, text) = if a.0 == 0 { ("all the features", &z.2) } else { ("no feature", &a.2) };
					violation(&format!("{id} {with}"), &format!("property {id} breaks with {with} only"), text)
				}
				compared += a.1 + z.1;
				*classes.entry("case of another property's check, with no feature or all of them").or_default() += a.1 + z.1;
			}
		}
		(Ok(_), Err(log)) => violation("checks all", "the other checks build with no feature, but not with all of them", &log),
		(Err(log), Ok(_)) => violation("checks none", "the other checks build with all features, but not with none", &log),
		(Err(log), Err(_)) => {
			println!("{log}\nERROR property=C26: the other checks do not build");
			std::process::exit(2)
		}
	}
	let distinct: HashSet<&String> = base.0.iter().enumerate().filter(|(k, l)| stable[*k] && l[6].parse::<u64>().unwrap_or(0) > 1).map(|(_, l)| &l[0]).collect();
	classes.insert("case whose transcript depends on the run, left out", stable.iter().filter(|s| !**s).count() as u64);
	classes.insert("sets of features", sets.len() as u64);
	let samples: Vec<_> = (0..3u64)
		.map(|k| serde_json::json!({"case": k, "trace": probe(&base_program, "show", seed, k).unwrap_or_default().lines().take(25).map(|l| l.chars().take(400).collect::<String>()).collect::<Vec<_>>()}))
		.collect();
	let p = Prop {
		id: "C26",
		rule: "random terms, label candidates, generators, operations on the four containers, patterns and pattern maps, isomorphism, hashes and printed forms, run against the library built with each of the 36 sets of optional features; oracle: every build does what the build without features does, and what the first build with the same feature does for what a feature adds; then the checks of the properties C01 to C17 and C20 to C23, with no feature and with all of them, expecting the same verdicts; evaluations: cases compared, one per case, build and part of the library, and those of the other checks; non-trivial: at least two statements held, distinct transcripts",
		quick: 3_000,
		thorough: 30_000,
		assumptions: &["the UUID generator of version 4 is compared on the length of its output only"],
		run: unused,
		exhaustive: None,
	};
	write_evidence(&p, &tier, seed, compared, 0, distinct.len() as u64, &classes, &samples, start.elapsed().as_secs_f64(), 0);
	println!("C26 held: {compared} comparisons over {} sets of features in {:.1} s", sets.len(), start.elapsed().as_secs_f64());
}
