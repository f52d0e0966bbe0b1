//! Choice-tape engine: generation, execution, shrinking, evidence.
//!
//! A *case* is the list of choices it draws. Case `i` under seed `S` is a pure
//! function of `(property, S, i)`; a failing case is shrunk on its tape and saved.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering as AO};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ck {
	($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ck_eq {
	($a:expr, $b:expr, $($m:tt)*) => {{
		let (a, b) = (&$a, &$b);
		if !(a == b) {
			return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b));
		}
	}};
}

pub(crate) fn splitmix(x: &mut u64) -> u64 {
	*x = x.wrapping_add(0x9e3779b97f4a7c15);
	let mut z = *x;
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
	z ^ (z >> 31)
}

pub fn fnv(bytes: &[u8]) -> u64 {
	let mut h = 0xcbf29ce484222325u64;
	for b in bytes {
		h ^= *b as u64;
		h = h.wrapping_mul(0x100000001b3);
	}
	h
}

/// When set, choices are also written to this file, so that they survive a crash of the process.
static REC: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

pub(crate) enum Mode {
	Random(u64),
	Replay(Vec<u64>),
	/// A tape, then random choices.
	Mixed(Vec<u64>, u64),
}

/// Source of choices and per-case bookkeeping.
pub struct Cx {
	mode: Mode,
	pos: usize,
	rec: Vec<u64>,
	recfile: Option<std::fs::File>,
	trace: Option<Vec<String>>,
	pub classes: BTreeMap<&'static str, u64>,
	nontrivial: bool,
	/// index of the case (0 in replays); never used as a source of choices
	pub thorough: bool,
}

impl Cx {
	fn new(mode: Mode, trace: bool, thorough: bool) -> Self {
		Cx { mode, pos: 0, rec: Vec::new(), recfile: REC.get().and_then(|f| f.try_clone().ok()), trace: trace.then(Vec::new), classes: BTreeMap::new(), nontrivial: false, thorough }
	}

	/// Random case `i` of a property under a seed, for checks with a main of their own.
	pub fn random(id: &str, seed: u64, i: u64, thorough: bool) -> Self {
		Cx::new(Mode::Random(case_seed(id, seed, i)), false, thorough)
	}

	/// Choice in `0..n`. Zero is the simplest.
	pub fn below(&mut self, n: u64) -> u64 {
		let n = n.max(1);
		let v = match &mut self.mode {
			Mode::Random(s) => {
				let r = splitmix(s);
				((r as u128 * n as u128) >> 64) as u64
			}
			Mode::Replay(t) => t.get(self.pos).copied().unwrap_or(0) % n,
			Mode::Mixed(t, s) => match t.get(self.pos) {
				Some(v) => v % n,
				None => ((splitmix(s) as u128 * n as u128) >> 64) as u64,
			},
		};
		self.pos += 1;
		self.rec.push(v);
		if let Some(f) = &self.recfile {
			use std::os::unix::fs::FileExt;
			let _ = f.write_at(&v.to_le_bytes(), (self.pos as u64 - 1) * 8);
		}
		v
	}

	pub fn any(&mut self) -> u64 {
		self.below(u64::MAX)
	}
	pub fn us(&mut self, n: usize) -> usize {
		self.below(n as u64) as usize
	}
	/// Inclusive range.
	pub fn range(&mut self, a: u64, b: u64) -> u64 {
		a + self.below(b - a + 1)
	}
	/// True with probability `num/den`; shrinks to false.
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.below(den) >= den - num
	}
	pub fn bool(&mut self) -> bool {
		self.below(2) == 1
	}
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		let i = self.us(xs.len());
		&xs[i]
	}
	/// Weighted index; index 0 is the simplest.
	pub fn weighted(&mut self, w: &[u64]) -> usize {
		let total: u64 = w.iter().sum();
		let mut v = self.below(total);
		for (i, x) in w.iter().enumerate() {
			if v < *x {
				return i;
			}
			v -= x;
		}
		unreachable!()
	}
	pub fn log(&mut self, f: impl FnOnce() -> String) {
		if let Some(t) = &mut self.trace {
			if t.len() < 4000 {
				t.push(f())
			}
		}
	}
	pub fn class(&mut self, c: &'static str) {
		*self.classes.entry(c).or_insert(0) += 1;
	}
	/// Marks the case as non-trivial by the property's rule.
	pub fn nontrivial(&mut self) {
		self.nontrivial = true;
	}
}

pub struct Prop {
	pub id: &'static str,
	/// How cases are made and what makes one non-trivial.
	pub rule: &'static str,
	pub quick: u64,
	pub thorough: u64,
	pub assumptions: &'static [&'static str],
	pub run: fn(&mut Cx) -> R,
	/// Deterministic enumeration run once before the random search; returns the number of cases enumerated.
	pub exhaustive: Option<fn(bool) -> Result<u64, String>>,
}

static VERBOSE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

thread_local! {
	static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn install_hook() {
	std::panic::set_hook(Box::new(|info| {
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = info.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"?".into()
		};
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		if VERBOSE.load(AO::Relaxed) {
			eprintln!("panic at {loc}: {msg}");
		}
		let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
	}));
}

/// Runs `f`, converting a panic into `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(v) => Ok(v),
		Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
	}
}

pub(crate) struct Outcome {
	pub(crate) result: R,
	pub(crate) rec: Vec<u64>,
	pub(crate) trace: Vec<String>,
	classes: BTreeMap<&'static str, u64>,
	pub(crate) nontrivial: bool,
}

pub(crate) fn exec(p: &Prop, mode: Mode, trace: bool, thorough: bool) -> Outcome {
	let mut cx = Cx::new(mode, trace, thorough);
	let result = match no_panic(|| (p.run)(&mut cx)) {
		Ok(r) => r,
		Err(m) => Err(m),
	};
	Outcome { result, rec: cx.rec, trace: cx.trace.unwrap_or_default(), classes: cx.classes, nontrivial: cx.nontrivial }
}

fn case_seed(id: &str, seed: u64, i: u64) -> u64 {
	let mut s = fnv(id.as_bytes()) ^ seed.wrapping_mul(0x9e3779b97f4a7c15);
	splitmix(&mut s);
	s ^= i.wrapping_mul(0xd1342543de82ef95);
	splitmix(&mut s);
	s
}

/// Shrinks a failing tape. `fails` returns the tape actually consumed when the case still fails.
pub(crate) fn shrink(tape: Vec<u64>, max_evals: u64, max_time: Duration, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
	let start = Instant::now();
	let mut best = tape;
	let mut evals = 0u64;
	let better = |a: &Vec<u64>, b: &Vec<u64>| a.len() < b.len() || (a.len() == b.len() && a < b);
	loop {
		let before = best.clone();
		// delete blocks
		let mut size = (best.len() / 2).max(1);
		while size >= 1 {
			let mut i = 0;
			while i + size <= best.len() {
				if evals > max_evals || start.elapsed() > max_time {
					return best;
				}
				let mut t = best.clone();
				t.drain(i..i + size);
				evals += 1;
				match fails(&t) {
					Some(r) if better(&r, &best) => best = r,
					_ => i += if size > 8 { size / 2 } else { 1 },
				}
			}
			if size == 1 {
				break;
			}
			size = if size > 8 { size / 2 } else { size - 1 };
		}
		// minimise values
		let mut i = 0;
		while i < best.len() {
			if best[i] != 0 {
				let mut cands = vec![0, best[i] / 2, best[i] - 1];
				cands.dedup();
				for c in cands {
					if evals > max_evals || start.elapsed() > max_time {
						return best;
					}
					if i >= best.len() || c >= best[i] {
						continue;
					}
					let mut t = best.clone();
					t[i] = c;
					evals += 1;
					if let Some(r) = fails(&t) {
						if better(&r, &best) {
							best = r;
							break;
						}
					}
				}
			}
			i += 1;
		}
		if best == before {
			return best;
		}
	}
}

pub fn env_u64(k: &str, d: u64) -> u64 {
	std::env::var(k).ok().and_then(|v| v.trim().parse::<u64>().ok()).unwrap_or(d)
}

pub fn verif_dir() -> String {
	std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

struct Shared {
	min_fail: AtomicU64,
	failure: Mutex<Option<(u64, Vec<u64>, String)>>,
}

pub(crate) fn save_replay(id: &str, tape: &[u64], message: &str, trace: &[String], origin: &str) -> String {
	let h = fnv(&tape.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<_>>());
	let dir = format!("{}/replays", verif_dir());
	let _ = std::fs::create_dir_all(&dir);
	let path = format!("{dir}/{id}-{h:016x}.json");
	let v = serde_json::json!({"property": id, "origin": origin, "tape": tape, "message": message, "trace": trace});
	let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
	path
}

pub fn report(id: &str, path: &str, message: &str, trace: &[String]) {
	println!("property {id} violated: {message}");
	for t in trace.iter().take(80) {
		println!("  {t}");
	}
	println!("VIOLATION property={id} replay={path}");
}

#[allow(clippy::too_many_arguments)]
pub fn write_evidence(p: &Prop, tier: &str, seed: u64, evaluations: u64, exhaustive: u64, distinct: u64, classes: &BTreeMap<&'static str, u64>, samples: &[serde_json::Value], wall: f64, violations: u64) {
	let dir = format!("{}/evidence", verif_dir());
	let _ = std::fs::create_dir_all(&dir);
	let v = serde_json::json!({
		"property": p.id, "tier": tier, "seed": seed as i64, "level": "exploration",
		"coverage": {
			"evaluations": evaluations + exhaustive,
			"random_cases": evaluations,
			"enumerated_cases": exhaustive,
			"distinct_nontrivial": distinct,
			"rule": p.rule,
			"classes": classes,
			"samples": samples,
		},
		"assumptions": p.assumptions,
		"wall_s": wall,
		"violations": violations,
	});
	std::fs::write(format!("{dir}/{}.json", p.id), serde_json::to_string_pretty(&v).unwrap() + "\n").expect("cannot write evidence");
}

fn progress_path() -> Option<String> {
	std::env::var("VH_PROGRESS").ok()
}

fn worker(p: &Prop, tier: &str, seed: u64) -> i32 {
	let start = Instant::now();
	let thorough = tier == "thorough";
	let n = env_u64("VERIF_CASES", if thorough { p.thorough } else { p.quick });
	let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(1, 8) as u64;
	let progress = progress_path().map(|f| std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(f).expect("progress file"));
	let note = |slot: u64, v: u64| {
		if let Some(f) = &progress {
			use std::os::unix::fs::FileExt;
			let _ = f.write_at(&v.to_le_bytes(), slot * 8);
		}
	};

	// deterministic enumeration
	let mut enumerated = 0;
	if let Some(ex) = p.exhaustive.filter(|_| env_u64("VERIF_ENUM", 1) == 1) {
		note(0, u64::MAX);
		let r = match no_panic(|| ex(thorough)) {
			Ok(r) => r,
			Err(m) => Err(m),
		};
		match r {
			Ok(k) => {
				enumerated = k;
				note(0, 0);
			}
			Err(m) => {
				let m: String = m.chars().take(4000).collect();
				let path = save_replay(p.id, &[], &m, &[], "enumeration");
				write_evidence(p, tier, seed, 0, 1, 1, &BTreeMap::new(), &[serde_json::json!(m)], start.elapsed().as_secs_f64(), 1);
				report(p.id, &path, &m, &[]);
				return 1;
			}
		}
	}

	let shared = Shared { min_fail: AtomicU64::new(u64::MAX), failure: Mutex::new(None) };
	let sample_every = (n / 4).max(1);
	let results: Vec<_> = std::thread::scope(|sc| {
		let hs: Vec<_> = (0..threads)
			.map(|t| {
				let shared = &shared;
				let note = &note;
				std::thread::Builder::new()
					.stack_size(64 << 20)
					.spawn_scoped(sc, move || {
						let mut distinct: HashSet<u64> = HashSet::new();
						let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
						let mut samples: Vec<(u64, serde_json::Value)> = Vec::new();
						let mut evals = 0u64;
						let mut slowest = Duration::ZERO;
						let mut i = t;
						while i < n {
							if shared.min_fail.load(AO::Relaxed) < i {
								break;
							}
							note(1 + t, i + 1);
							let want = i % sample_every == sample_every / 2 || i == t;
							let t0 = Instant::now();
							let o = exec(p, Mode::Random(case_seed(p.id, seed, i)), want, thorough);
							slowest = slowest.max(t0.elapsed());
							evals += 1;
							if o.nontrivial {
								distinct.insert(fnv(&o.rec.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<_>>()));
								if want && samples.len() < 2 {
									let tr: Vec<String> = o.trace.iter().take(40).map(|s| s.chars().take(300).collect()).collect();
									samples.push((i, serde_json::json!({"case": i, "trace": tr})));
								}
							}
							for (k, v) in o.classes {
								*classes.entry(k).or_insert(0) += v;
							}
							if let Err(m) = o.result {
								shared.min_fail.fetch_min(i, AO::Relaxed);
								let mut f = shared.failure.lock().unwrap();
								if f.as_ref().map_or(true, |x| x.0 > i) {
									*f = Some((i, o.rec, m));
								}
								break;
							}
							i += threads;
						}
						note(1 + t, 0);
						(evals, distinct, classes, samples, slowest)
					})
					.expect("spawn")
			})
			.collect();
		hs.into_iter().map(|h| h.join().expect("worker thread")).collect()
	});
	let mut evals = 0;
	let mut distinct = HashSet::new();
	let mut classes = BTreeMap::new();
	let mut samples = Vec::new();
	let mut slowest = Duration::ZERO;
	for (e, d, c, s, w) in results {
		slowest = slowest.max(w);
		evals += e;
		distinct.extend(d);
		for (k, v) in c {
			*classes.entry(k).or_insert(0) += v;
		}
		samples.extend(s);
	}
	samples.sort_by_key(|s| s.0);
	let samples: Vec<_> = samples.into_iter().map(|s| s.1).take(4).collect();
	let fail = shared.failure.into_inner().unwrap();
	let violations = fail.is_some() as u64;
	write_evidence(p, tier, seed, evals, enumerated, distinct.len() as u64, &classes, &samples, start.elapsed().as_secs_f64(), violations);
	if let Some((i, tape, msg)) = fail {
		// in case shrinking crashes or hangs, the supervisor reports this one
		if let Some(f) = progress_path() {
			let path = save_replay(p.id, &tape, &msg, &[], &format!("seed {seed} case {i}, not shrunk"));
			let _ = std::fs::write(format!("{f}.fail"), format!("{path}\n{msg}"));
		}
		let best = shrink(tape, 30_000, Duration::from_secs(60), |t| {
			note(0, 0);
			let o = exec(p, Mode::Replay(t.to_vec()), false, thorough);
			o.result.is_err().then_some(o.rec)
		});
		let o = exec(p, Mode::Replay(best), true, thorough);
		let (msg, rec, trace) = match o.result {
			Err(m) => (m, o.rec, o.trace),
			Ok(()) => (msg, vec![], vec![]),
		};
		let path = save_replay(p.id, &rec, &msg, &trace, &format!("seed {seed} case {i}"));
		report(p.id, &path, &msg, &trace);
		return 1;
	}
	println!("property {}: held on {} cases ({} enumerated, {} distinct non-trivial), {:.1} s, slowest case {:.2} s", p.id, evals + enumerated, enumerated, distinct.len(), start.elapsed().as_secs_f64(), slowest.as_secs_f64());
	0
}

pub(crate) enum End {
	Exit(std::process::ExitStatus),
	/// killed: the overall limit was reached
	Limit,
	/// killed: `watch` asked for it
	Watch,
}

pub(crate) fn child(extra: &[(&str, String)], timeout: Duration, cpu_s: Option<u64>, mut watch: impl FnMut(u32) -> bool) -> std::io::Result<End> {
	use std::os::unix::process::CommandExt;
	let exe = std::env::current_exe()?;
	let mut c = std::process::Command::new(exe);
	c.args(std::env::args().skip(1));
	c.env("VH_CHILD", "1");
	if extra.iter().any(|(k, _)| *k == "VH_REC") {
		c.stderr(std::process::Stdio::null());
	}
	for (k, v) in extra {
		c.env(k, v);
	}
	unsafe {
		c.pre_exec(move || {
			// runaway allocation ends as an abort of the process, not of the machine
			let m = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
			libc::setrlimit(libc::RLIMIT_AS, &m);
			let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
			libc::setrlimit(libc::RLIMIT_CORE, &z);
			if let Some(s) = cpu_s {
				let l = libc::rlimit { rlim_cur: s, rlim_max: s + 5 };
				libc::setrlimit(libc::RLIMIT_CPU, &l);
			}
			Ok(())
		});
	}
	let mut ch = c.spawn()?;
	let start = Instant::now();
	loop {
		if let Some(st) = ch.try_wait()? {
			return Ok(End::Exit(st));
		}
		let over = start.elapsed() > timeout;
		if over || watch(ch.id()) {
			let _ = ch.kill();
			let _ = ch.wait();
			return Ok(if over { End::Limit } else { End::Watch });
		}
		std::thread::sleep(Duration::from_millis(5));
	}
}

pub(crate) fn out_of_cpu(st: &std::process::ExitStatus) -> bool {
	use std::os::unix::process::ExitStatusExt;
	st.signal() == Some(libc::SIGXCPU)
}

/// CPU seconds used so far by a process.
fn cpu_seconds(pid: u32) -> u64 {
	let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
	let rest = s.rsplit(')').next().unwrap_or("").split_whitespace().collect::<Vec<_>>();
	let f = |i: usize| rest.get(i).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
	(f(11) + f(12)) / 100
}

pub(crate) fn crashed(st: &std::process::ExitStatus) -> bool {
	use std::os::unix::process::ExitStatusExt;
	matches!(st.signal(), Some(libc::SIGABRT | libc::SIGSEGV | libc::SIGILL | libc::SIGBUS | libc::SIGFPE | libc::SIGTRAP))
}

/// Entry point of every check binary.
pub fn main_with(p: Prop) -> ! {
	install_hook();
	let args: Vec<String> = std::env::args().skip(1).collect();
	let seed = env_u64("VERIF_SEED", 1);
	let tier = match args.first().map(|s| s.as_str()) {
		Some("quick") => "quick".to_string(),
		Some("thorough") => "thorough".to_string(),
		Some("guided") => "guided".to_string(),
		Some("replay") => {
			VERBOSE.store(true, AO::Relaxed);
			let path = args.get(1).expect("replay file");
			let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read")).expect("json");
			if v["origin"] == "enumeration" {
				let r = (p.exhaustive.expect("no enumeration"))(false);
				println!("{r:?}");
				std::process::exit(r.is_err() as i32);
			}
			let tape: Vec<u64> = v["tape"].as_array().expect("tape").iter().map(|x| x.as_u64().unwrap()).collect();
			let o = exec(&p, Mode::Replay(tape), true, false);
			for t in &o.trace {
				println!("  {t}");
			}
			println!("{:?}", o.result);
			if o.result.is_err() {
				println!("VIOLATION property={} replay={}", p.id, path);
			}
			std::process::exit(o.result.is_err() as i32);
		}
		_ => std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
	};
	let thorough = tier == "thorough";

	if std::env::var("VH_CHILD").is_ok() {
		if let Ok(f) = std::env::var("VH_REC") {
			if let Ok(f) = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(f) {
				let _ = REC.set(f);
			}
		}
		if let Ok(one) = std::env::var("VH_ONE") {
			let i: u64 = one.parse().unwrap();
			let o = exec(&p, Mode::Random(case_seed(p.id, seed, i)), false, thorough);
			std::process::exit(o.result.is_err() as i32);
		}
		if let Ok(f) = std::env::var("VH_MIX") {
			let (tape, tail) = crate::guided::read_last(std::path::Path::new(&f));
			let o = exec(&p, Mode::Mixed(tape, tail), false, false);
			std::process::exit(o.result.is_err() as i32);
		}
		if let Ok(k) = std::env::var("VH_GUIDED") {
			std::process::exit(crate::guided::worker(&p, seed, k.parse().unwrap()));
		}
		if let Ok(f) = std::env::var("VH_TAPE") {
			let tape: Vec<u64> = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
			let o = exec(&p, Mode::Replay(tape), false, thorough);
			std::process::exit(o.result.is_err() as i32);
		}
		std::process::exit(worker(&p, &tier, seed));
	}

	if tier == "guided" {
		std::process::exit(crate::guided::supervise(&p, seed));
	}
	std::process::exit(supervise(&p, &tier, seed));
}

/// CPU seconds after which a single case (normally well under a second) is held not to terminate.
pub(crate) const CASE_CPU_S: u64 = 90;
/// CPU seconds after which the enumeration (normally a few seconds) is held not to terminate.
const ENUM_CPU_S: u64 = 300;

fn supervise(p: &Prop, tier: &str, seed: u64) -> i32 {
	let thorough = tier == "thorough";
	let tmp = std::env::temp_dir();
	let name = |ext: &str| tmp.join(format!("vh-{}-{}.{ext}", p.id, std::process::id()));
	let prog = name("progress");
	let failf = name("progress.fail");
	let rec = name("rec");
	let tapef = name("tape");
	let code = supervise_in(p, tier, thorough, seed, &prog, &failf, &rec, &tapef);
	for f in [&prog, &failf, &rec, &tapef] {
		let _ = std::fs::remove_file(f);
	}
	code
}

#[allow(clippy::too_many_arguments)]
fn supervise_in(p: &Prop, tier: &str, thorough: bool, seed: u64, prog: &std::path::Path, failf: &std::path::Path, rec: &std::path::Path, tapef: &std::path::Path) -> i32 {
	let limit = Duration::from_secs(env_u64("VERIF_LIMIT_S", if thorough { 6 * 3600 } else { 780 }));
	let stall_limit = Duration::from_secs(env_u64("VERIF_STALL_S", 60));
	let read_slots = || -> Vec<u64> { std::fs::read(prog).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect() };
	let recs = rec.to_string_lossy().into_owned();
	let tapes = tapef.to_string_lossy().into_owned();
	let read_rec = || -> Vec<u64> { std::fs::read(rec).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect() };
	let begin = Instant::now();
	let mut suspects_cleared = false;
	loop {
		let _ = std::fs::write(prog, vec![0u8; 8 * 16]);
		let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); 16];
		let mut tick = Instant::now();
		let mut fail_seen: Option<Instant> = None;
		let mut stalled: Vec<u64> = vec![];
		let mut enum_stall = false;
		let cleared = suspects_cleared;
		let st = child(&[("VH_PROGRESS", prog.to_string_lossy().into_owned())], limit.saturating_sub(begin.elapsed()), None, |pid| {
			if tick.elapsed() < Duration::from_millis(500) {
				return false;
			}
			tick = Instant::now();
			if failf.exists() {
				let t = *fail_seen.get_or_insert_with(Instant::now);
				return t.elapsed() > Duration::from_secs(150);
			}
			if cleared {
				return false;
			}
			for (i, v) in read_slots().into_iter().enumerate().take(16) {
				if last[i].0 != v {
					last[i] = (v, Instant::now());
				} else if v == u64::MAX && i == 0 {
					if !thorough && cpu_seconds(pid) > ENUM_CPU_S {
						enum_stall = true;
						return true;
					}
				} else if v > 0 && last[i].1.elapsed() > stall_limit {
					stalled.push(v - 1);
				}
			}
			!stalled.is_empty()
		})
		.expect("spawn child");
		let slots = read_slots();
		let failing = std::fs::read_to_string(failf).ok();
		let from_fail = |what: &str| {
			let t = failing.clone().unwrap_or_default();
			let (path, msg) = t.split_once('\n').unwrap_or((&t, ""));
			report(p.id, path, &format!("{msg} ({what} while shrinking)"), &[]);
			1
		};
		match st {
			End::Exit(st) if !crashed(&st) => {
				let code = st.code().unwrap_or(2);
				if code != 0 && code != 1 && failing.is_some() {
					return from_fail("the process died");
				}
				return if code == 0 || code == 1 { code } else { 2 };
			}
			End::Exit(st) if failing.is_some() => return from_fail(&format!("process died: {st}")),
			End::Limit | End::Watch if failing.is_some() => return from_fail("time ran out"),
			End::Limit => {
				println!("ERROR property={}: time limit reached (no verdict)", p.id);
				return 2;
			}
			End::Watch if enum_stall => {
				let msg = format!("the enumeration does not terminate (over {ENUM_CPU_S} s of CPU)");
				let path = save_replay(p.id, &[], &msg, &[], "enumeration");
				write_evidence(p, tier, seed, 0, 1, 1, &BTreeMap::new(), &[serde_json::json!(msg)], begin.elapsed().as_secs_f64(), 1);
				report(p.id, &path, &msg, &[]);
				return 1;
			}
			End::Watch => {
				// some case made no progress: decide by the CPU time it takes alone
				stalled.sort();
				for i in stalled {
					let _ = std::fs::remove_file(rec);
					let s1 = child(&[("VH_ONE", i.to_string()), ("VH_REC", recs.clone())], Duration::from_secs(400), Some(CASE_CPU_S), |_| false).expect("spawn");
					if matches!(&s1, End::Exit(s) if out_of_cpu(s)) {
						let msg = format!("case {i} of seed {seed} does not terminate (over {CASE_CPU_S} s of CPU)");
						let path = save_replay(p.id, &read_rec(), &msg, &[], &format!("hang: seed {seed} case {i}"));
						write_evidence(p, tier, seed, i + 1, 0, 1, &BTreeMap::new(), &[serde_json::json!(msg)], begin.elapsed().as_secs_f64(), 1);
						report(p.id, &path, &msg, &[]);
						return 1;
					}
				}
				// a slow machine, not a hang: start over without the watch
				suspects_cleared = true;
			}
			End::Exit(st) => {
				if slots.first() == Some(&u64::MAX) {
					let path = save_replay(p.id, &[], &format!("process died: {st}"), &[], "enumeration");
					write_evidence(p, tier, seed, 0, 1, 1, &BTreeMap::new(), &[], begin.elapsed().as_secs_f64(), 1);
					report(p.id, &path, &format!("process died during enumeration: {st}"), &[]);
					return 1;
				}
				let mut cases: Vec<u64> = slots.iter().skip(1).filter(|v| **v > 0).map(|v| v - 1).collect();
				cases.sort();
				for i in cases {
					let _ = std::fs::remove_file(rec);
					let s1 = child(&[("VH_ONE", i.to_string()), ("VH_REC", recs.clone())], Duration::from_secs(120), None, |_| false).expect("spawn");
					if let End::Exit(s) = &s1 {
						if !crashed(s) {
							continue;
						}
						let msg = format!("process died ({s}) in case {i} of seed {seed}");
						let tape = read_rec();
						let best = shrink(tape, 8000, Duration::from_secs(45), |t| {
							let _ = std::fs::remove_file(rec);
							std::fs::write(tapef, serde_json::to_string(t).unwrap()).ok()?;
							match child(&[("VH_TAPE", tapes.clone()), ("VH_REC", recs.clone())], Duration::from_secs(20), None, |_| false) {
								Ok(End::Exit(s)) if crashed(&s) => Some(read_rec()),
								_ => None,
							}
						});
						let path = save_replay(p.id, &best, &msg, &[], &format!("crash: seed {seed} case {i}"));
						write_evidence(p, tier, seed, i + 1, 0, 1, &BTreeMap::new(), &[serde_json::json!(msg)], begin.elapsed().as_secs_f64(), 1);
						report(p.id, &path, &msg, &[]);
						return 1;
					}
				}
				println!("ERROR property={}: the process died ({st}) and no single case reproduces it", p.id);
				return 2;
			}
		}
	}
}
