//! Coverage-guided search over choice tapes (`cNN guided`, second part of the thorough tier).
//!
//! Built with LLVM's edge counters (see check.sh), each of the worker processes keeps the tapes
//! which reached an edge, or a number of passes through one, not seen before, and makes new cases
//! by altering them. Without counters in the binary it is a random walk on tapes.
use crate::engine::*;
use std::collections::HashSet;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static COUNTERS: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
	let mut c = COUNTERS.lock().unwrap();
	let r = (start as usize, stop as usize);
	if r.0 < r.1 && !c.contains(&r) {
		c.push(r);
	}
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

/// Edge counters of the program and what was seen of them.
struct Coverage {
	ranges: Vec<(usize, usize)>,
	seen: Vec<Vec<u8>>,
}

impl Coverage {
	fn new() -> Self {
		let ranges = COUNTERS.lock().unwrap().clone();
		let seen = ranges.iter().map(|(a, b)| vec![0; b - a]).collect();
		Coverage { ranges, seen }
	}
	fn clear(&self) {
		for (a, b) in &self.ranges {
			unsafe { std::ptr::write_bytes(*a as *mut u8, 0, b - a) }
		}
	}
	/// Records the counters; returns whether an edge was reached for the first time, or else one
	/// was passed more often than before.
	fn record(&mut self) -> New {
		let mut new = New::Nothing;
		for ((a, b), seen) in self.ranges.iter().zip(&mut self.seen) {
			let now = unsafe { std::slice::from_raw_parts(*a as *const u8, b - a) };
			for (c, s) in now.iter().zip(seen) {
				if *c != 0 {
					let bucket = match *c {
						1 => 1,
						2..=15 => 2,
						_ => 4,
					};
					if *s == 0 {
						new = New::Edge;
					} else if *s < bucket {
						new = new.max(New::Count);
					} else {
						continue;
					}
					*s = bucket;
				}
			}
		}
		new
	}
	fn hit(&self) -> usize {
		self.seen.iter().flatten().filter(|x| **x != 0).count()
	}
	fn total(&self) -> usize {
		self.seen.iter().map(|x| x.len()).sum()
	}
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum New {
	Nothing,
	Count,
	Edge,
}

struct Rng(u64);
impl Rng {
	fn below(&mut self, n: usize) -> usize {
		((splitmix(&mut self.0) as u128 * n.max(1) as u128) >> 64) as usize
	}
}

/// Alters a tape; whether what it draws beyond its end is random is left to the caller.
fn mutate(r: &mut Rng, base: &[u64], corpus: &[Vec<u64>]) -> Vec<u64> {
	let mut t = base.to_vec();
	for _ in 0..1 + r.below(4) {
		let n = t.len();
		if n == 0 {
			break;
		}
		let i = r.below(n);
		match r.below(10) {
			0 | 1 => t[i] = splitmix(&mut r.0),
			2 => t[i] = r.below(8) as u64,
			3 => t[i] = if r.below(2) == 0 { t[i].wrapping_add(1) } else { t[i].wrapping_sub(1) },
			4 => {
				let k = 1 + r.below(8.min(n - i));
				t.drain(i..i + k);
			}
			5 => {
				let k = 1 + r.below(24.min(n - i));
				let block = t[i..i + k].to_vec();
				let at = r.below(n + 1);
				t.splice(at..at, block);
			}
			6 => t.truncate(i),
			7 => {
				let o = &corpus[r.below(corpus.len())];
				t.truncate(i);
				t.extend_from_slice(&o[i.min(o.len())..]);
			}
			8 => {
				let o = &corpus[r.below(corpus.len())];
				if !o.is_empty() {
					let j = r.below(o.len());
					let k = 1 + r.below(24.min(o.len() - j));
					t.splice(i..i, o[j..j + k].iter().copied());
				}
			}
			_ => {
				let j = r.below(n);
				t.swap(i, j);
			}
		}
		t.truncate(20_000);
	}
	t
}

const HEAD: usize = 3;

/// The case a worker was running: number, tail seed, tape.
fn write_last(f: &std::fs::File, i: u64, tape: &[u64], tail: u64) {
	let mut b = Vec::with_capacity(8 * (tape.len() + HEAD));
	for v in [i, tail, tape.len() as u64].iter().chain(tape) {
		b.extend_from_slice(&v.to_le_bytes());
	}
	let _ = f.write_all_at(&b, 0);
}
pub(crate) fn read_last(f: &Path) -> (Vec<u64>, u64) {
	let v: Vec<u64> = std::fs::read(f).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
	if v.len() < HEAD {
		return (vec![], 0);
	}
	let n = v[2] as usize;
	(v[HEAD..].iter().take(n).copied().collect(), v[1])
}

fn file(id: &str, k: usize, ext: &str) -> PathBuf {
	let dir = std::env::var("VH_DIR").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
	dir.join(format!("vh-guided-{id}-{k}.{ext}"))
}

fn executions(p: &Prop) -> u64 {
	env_u64("VERIF_GUIDED", p.quick)
}

pub(crate) fn worker(p: &Prop, seed: u64, k: usize) -> i32 {
	// a deep stack, as for the workers of the random search
	std::thread::scope(|s| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || search(p, seed, k)).expect("spawn").join().expect("worker"))
}

fn search(p: &Prop, seed: u64, k: usize) -> i32 {
	let n = executions(p);
	let last = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(file(p.id, k, "last")).expect("state file");
	let mut r = Rng(fnv(p.id.as_bytes()) ^ seed.wrapping_mul(0x9e3779b97f4a7c15) ^ (k as u64 + 1).wrapping_mul(0xd1342543de82ef95));
	let mut cov = Coverage::new();
	let mut corpus: Vec<Vec<u64>> = vec![];
	let mut edge: Vec<usize> = vec![]; // those of the corpus which reached a new edge
	let start = Instant::now();
	let mut done = 0;
	let mut distinct: HashSet<u64> = HashSet::new();
	for i in 0..n {
		if start.elapsed() > Duration::from_secs(env_u64("VERIF_GUIDED_S", 180)) {
			break; // a limit on the search, not a verdict
		}
		done += 1;
		let tape = if corpus.is_empty() || r.below(10) == 0 {
			vec![]
		} else {
			let c = match r.below(4) {
				0 => r.below(corpus.len()),
				1 => edge[r.below(edge.len())],
				_ => edge[edge.len() - 1 - r.below(edge.len().div_ceil(4))],
			};
			mutate(&mut r, &corpus[c], &corpus)
		};
		let tail = splitmix(&mut r.0);
		write_last(&last, i + 1, &tape, tail);
		cov.clear();
		let o = exec(p, Mode::Mixed(tape, tail), false, true);
		let new = cov.record();
		if let Err(msg) = o.result {
			let best = shrink(o.rec, 30_000, Duration::from_secs(60), |t| {
				let o = exec(p, Mode::Replay(t.to_vec()), false, true);
				o.result.is_err().then_some(o.rec)
			});
			let o = exec(p, Mode::Replay(best), true, true);
			let (msg, rec, trace) = match o.result {
				Err(m) => (m, o.rec, o.trace),
				Ok(()) => (msg, vec![], vec![]),
			};
			let path = save_replay(p.id, &rec, &msg, &trace, &format!("guided search, seed {seed}, worker {k}, case {i}"));
			report(p.id, &path, &msg, &trace);
			return 1;
		}
		if o.nontrivial {
			distinct.insert(fnv(&o.rec.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<_>>()));
		}
		if new > New::Nothing && o.rec.len() < 20_000 {
			if new == New::Edge || edge.is_empty() {
				edge.push(corpus.len());
			}
			corpus.push(o.rec);
		}
	}
	let stats = serde_json::json!({"executions": done, "distinct_nontrivial": distinct.len(), "corpus": corpus.len(), "edges_reached": cov.hit(), "edges": cov.total()});
	let _ = std::fs::write(file(p.id, k, "stats"), stats.to_string());
	0
}

pub(crate) fn supervise(p: &Prop, seed: u64) -> i32 {
	let start = Instant::now();
	let jobs = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(1, 8);
	let dir = std::env::temp_dir().join(format!("vh-guided-{}-{}", p.id, std::process::id()));
	let _ = std::fs::create_dir_all(&dir);
	std::env::set_var("VH_DIR", &dir);
	let code = supervise_in(p, seed, jobs, start);
	let _ = std::fs::remove_dir_all(&dir);
	code
}

fn supervise_in(p: &Prop, seed: u64, jobs: usize, start: Instant) -> i32 {
	let limit = Duration::from_secs(env_u64("VERIF_LIMIT_S", 6 * 3600));
	let stop = std::sync::atomic::AtomicBool::new(false);
	let ends: Vec<Result<End, usize>> = std::thread::scope(|sc| {
		let hs: Vec<_> = (0..jobs)
			.map(|k| {
				let stop = &stop;
				sc.spawn(move || {
					let mut seen = (0, Instant::now());
					let mut tick = Instant::now();
					let mut stalled = false;
					let end = child(&[("VH_GUIDED", k.to_string())], limit, None, |_| {
						if stop.load(std::sync::atomic::Ordering::Relaxed) {
							return true;
						}
						if tick.elapsed() > Duration::from_secs(1) {
							tick = Instant::now();
							let b = std::fs::read(file(p.id, k, "last")).unwrap_or_default();
							let i = b.get(..8).map_or(0, |c| u64::from_le_bytes(c.try_into().unwrap()));
							if seen.0 != i {
								seen = (i, Instant::now());
							}
							// shrinking counts as one case: leave it more than its own limit
							stalled = seen.1.elapsed() > Duration::from_secs(200);
						}
						stalled
					})
					.expect("spawn");
					if matches!(&end, End::Exit(s) if s.code() != Some(0)) {
						stop.store(true, std::sync::atomic::Ordering::Relaxed);
					}
					if stalled {
						Err(k)
					} else {
						Ok(end)
					}
				})
			})
			.collect();
		hs.into_iter().map(|h| h.join().expect("supervisor thread")).collect()
	});
	if ends.iter().any(|e| matches!(e, Ok(End::Exit(s)) if s.code() == Some(1))) {
		return 1;
	}
	for (k, e) in ends.iter().enumerate() {
		let suspect = match e {
			Err(_) => true,
			Ok(End::Exit(s)) => crashed(s),
			_ => false,
		};
		if suspect {
			let rec = file(p.id, k, "rec");
			let env = [("VH_MIX", file(p.id, k, "last").to_string_lossy().into_owned()), ("VH_REC", rec.to_string_lossy().into_owned())];
			let s = child(&env, Duration::from_secs(400), Some(CASE_CPU_S), |_| false).expect("spawn");
			let what = match &s {
				End::Exit(s) if out_of_cpu(s) => format!("a case does not terminate (over {CASE_CPU_S} s of CPU)"),
				End::Exit(s) if crashed(s) => format!("process died ({s})"),
				End::Exit(s) if s.code() == Some(1) => "a case fails".into(),
				_ => continue,
			};
			let tape: Vec<u64> = std::fs::read(&rec).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
			let path = save_replay(p.id, &tape, &what, &[], &format!("guided search, seed {seed}, worker {k}"));
			report(p.id, &path, &what, &[]);
			return 1;
		}
	}
	let stats: Vec<serde_json::Value> = (0..jobs).filter_map(|k| serde_json::from_str(&std::fs::read_to_string(file(p.id, k, "stats")).ok()?).ok()).collect();
	if stats.is_empty() {
		println!("ERROR property={}: no worker of the guided search ended", p.id);
		return 2;
	}
	let sum = |key: &str| stats.iter().filter_map(|s| s[key].as_u64()).sum::<u64>();
	let max = |key: &str| stats.iter().filter_map(|s| s[key].as_u64()).max().unwrap_or(0);
	println!(
		"property {}: held on {} guided cases ({} kept for their coverage, {} of {} edges), {:.1} s",
		p.id,
		sum("executions"),
		sum("corpus"),
		max("edges_reached"),
		max("edges"),
		start.elapsed().as_secs_f64()
	);
	// beside what the random search wrote
	let path = format!("{}/evidence/{}.json", verif_dir(), p.id);
	if let Some(mut v) = std::fs::read_to_string(&path).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()) {
		v["coverage"]["guided"] = serde_json::json!({
			"executions": sum("executions"), "distinct_nontrivial_per_worker": stats.iter().map(|s| s["distinct_nontrivial"].clone()).collect::<Vec<_>>(),
			"corpus": sum("corpus"), "edges_reached": max("edges_reached"), "edges": max("edges"), "wall_s": start.elapsed().as_secs_f64(),
		});
		let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n");
	}
	0
}
