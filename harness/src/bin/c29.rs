//! C29: what an operation costs, counted in comparisons (and hashes) of resources.
use rdf_types::dataset::*;
use rdf_types::pattern::triple::TriplePatternMap;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern};
use rdf_types::{Quad, Triple};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use vharness::*;

thread_local! {
	static COMPARED: Cell<u64> = const { Cell::new(0) };
	static HASHED: Cell<u64> = const { Cell::new(0) };
	static WORST: Cell<f64> = const { Cell::new(0.0) };
}

/// Resource which counts its comparisons and hashes.
#[derive(Clone, Debug)]
struct N(u32);

fn compared() {
	COMPARED.with(|c| c.set(c.get() + 1))
}
impl PartialEq for N {
	fn eq(&self, other: &N) -> bool {
		compared();
		self.0 == other.0
	}
}
impl Eq for N {}
impl PartialOrd for N {
	fn partial_cmp(&self, other: &N) -> Option<Ordering> {
		Some(self.cmp(other))
	}
}
impl Ord for N {
	fn cmp(&self, other: &N) -> Ordering {
		compared();
		self.0.cmp(&other.0)
	}
}
impl Hash for N {
	fn hash<H: Hasher>(&self, h: &mut H) {
		HASHED.with(|c| c.set(c.get() + 1));
		self.0.hash(h)
	}
}

/// Comparisons made by `f`.
fn cost<T>(f: impl FnOnce() -> T) -> (T, u64) {
	let before = COMPARED.with(|c| c.get());
	let r = f();
	(r, COMPARED.with(|c| c.get()) - before)
}

type K = (u32, u32, u32, Option<u32>);

fn q(k: &K) -> Quad<N> {
	Quad(N(k.0), N(k.1), N(k.2), k.3.map(N))
}
fn t(k: &K) -> Triple<N> {
	Triple(N(k.0), N(k.1), N(k.2))
}

fn log2(n: usize) -> f64 {
	((n + 2) as f64).log2()
}

/// What `times` searches, insertions or removals may cost among so many statements and resources.
fn bound(times: usize, statements: usize, resources: usize) -> f64 {
	times as f64 * (PER_LEVEL * (log2(statements) + log2(resources)) + 40.0)
}
const PER_LEVEL: f64 = 24.0;

fn within(what: &str, got: u64, times: usize, n: usize, m: usize) -> R {
	let b = bound(times, n, m);
	WORST.with(|w| w.set(w.get().max(got as f64 / b)));
	ck!(got as f64 <= b, "{what}: {got} comparisons of resources among {n} statements and {m} resources ({:.0} allowed for {times} steps)", b);
	Ok(())
}

/// What differs between the containers.
trait Counted: Clone + Default + Eq + Ord {
	const NAME: &'static str;
	/// whether statements have a graph
	const NAMED: bool;
	fn add(&mut self, k: &K) -> bool;
	fn del(&mut self, k: &K) -> bool;
	fn has(&self, k: &K) -> bool;
	fn bulk(&mut self, ks: &[K]);
	fn walk(&self) -> usize;
	fn owned(self) -> usize;
	fn resource(&self, _: &N) -> bool;
	/// statements matching a pattern
	fn find(&self, _: &[Option<u32>; 3], _: Option<Option<u32>>, _: usize) -> Option<usize> {
		None
	}
	fn extract(&mut self, _: &[Option<u32>; 3], _: Option<Option<u32>>) -> Option<usize> {
		None
	}
	fn drop_graph(&mut self, _: Option<u32>) -> Option<usize> {
		None
	}
	/// by way of the other containers
	fn convert(self) -> usize {
		0
	}
	fn ask(&self, _: &N) -> Option<usize> {
		None
	}
	fn roles(&self) -> usize {
		0
	}
}

macro_rules! common {
	($name:literal, $named:literal, $conv:ident) => {
		const NAME: &'static str = $name;
		const NAMED: bool = $named;
		fn add(&mut self, k: &K) -> bool {
			self.insert($conv(k))
		}
		fn del(&mut self, k: &K) -> bool {
			self.remove($conv(k).as_ref())
		}
		fn has(&self, k: &K) -> bool {
			self.contains($conv(k).as_ref())
		}
		fn bulk(&mut self, ks: &[K]) {
			self.extend(ks.iter().map($conv))
		}
		fn walk(&self) -> usize {
			self.iter().count()
		}
		fn owned(self) -> usize {
			self.into_iter().count()
		}
		fn resource(&self, r: &N) -> bool {
			self.contains_resource(r)
		}
	};
}

impl Counted for BTreeGraph<N> {
	common!("BTreeGraph", false, t);
	fn convert(self) -> usize {
		self.into_indexed().len()
	}
}
impl Counted for BTreeDataset<N> {
	common!("BTreeDataset", true, q);
	fn convert(self) -> usize {
		self.into_indexed().len()
	}
}
impl Counted for IndexedBTreeGraph<N> {
	common!("IndexedBTreeGraph", false, t);
	fn find(&self, p: &[Option<u32>; 3], _: Option<Option<u32>>, n: usize) -> Option<usize> {
		let p = p.map(|x| x.map(N));
		let p = Triple(p[0].as_ref(), p[1].as_ref(), p[2].as_ref());
		Some(self.pattern_matching(CanonicalTriplePattern::from_option_triple(p)).take(n).count())
	}
	fn ask(&self, r: &N) -> Option<usize> {
		Some(self.contains_triple_subject(r) as usize + self.contains_triple_predicate(r) as usize + self.contains_triple_object(r) as usize)
	}
	fn roles(&self) -> usize {
		self.subjects().count() + self.predicates().count() + self.objects().count() + self.resources().count()
	}
}
impl Counted for IndexedBTreeDataset<N> {
	common!("IndexedBTreeDataset", true, q);
	fn find(&self, p: &[Option<u32>; 3], g: Option<Option<u32>>, n: usize) -> Option<usize> {
		let p = p.map(|x| x.map(N));
		let g = g.map(|g| g.map(N));
		let p = Quad(p[0].as_ref(), p[1].as_ref(), p[2].as_ref(), g.as_ref().map(|g| g.as_ref()));
		Some(self.pattern_matching(CanonicalQuadPattern::from_option_quad(p)).take(n).count())
	}
	fn extract(&mut self, p: &[Option<u32>; 3], g: Option<Option<u32>>) -> Option<usize> {
		let p = p.map(|x| x.map(N));
		let g = g.map(|g| g.map(N));
		let p = Quad(p[0].as_ref(), p[1].as_ref(), p[2].as_ref(), g.as_ref().map(|g| g.as_ref()));
		let n = self.len();
		Some(self.extract_pattern_matching(CanonicalQuadPattern::from_option_quad(p)).take(n + 1).count())
	}
	fn drop_graph(&mut self, g: Option<u32>) -> Option<usize> {
		Some(self.remove_graph(g.map(N).as_ref()).map_or(0, |g| g.len()))
	}
	fn ask(&self, r: &N) -> Option<usize> {
		Some(self.contains_quad_subject(r) as usize + self.contains_quad_predicate(r) as usize + self.contains_quad_object(r) as usize + self.contains_named_graph(r) as usize)
	}
	fn roles(&self) -> usize {
		self.subjects().count() + self.predicates().count() + self.objects().count() + self.resources().count() + self.named_graphs().count()
	}
}

/// Statements to fill a container with, and some which it does not hold.
fn content(cx: &mut Cx, named: bool) -> (Vec<K>, Vec<K>, &'static str) {
	let n = match cx.below(4) {
		0 => cx.range(1, 60),
		1 => cx.range(60, 600),
		2 => cx.range(600, 5000),
		_ => cx.range(2000, 8000),
	} as u32;
	let shape = cx.below(6);
	let name = ["random", "one subject and predicate", "chain", "few resources", "one object", "graph names differ"][shape as usize];
	let few = ((n as f64).powf(0.34) as u32).max(2) + 1;
	let mut set: BTreeSet<K> = BTreeSet::new();
	let mut others = vec![];
	let base = 100u32;
	for i in 0..n + n / 4 + 2 {
		let g = |cx: &mut Cx, m: u64| if !named || cx.bool() { None } else { Some(base + cx.below(m) as u32) };
		let k: K = match shape {
			0 => (base + cx.below(n as u64) as u32, base + cx.below(20) as u32, base + cx.below(n as u64) as u32, g(cx, 30)),
			1 => (base, base + 1, base + 2 + 2 * i, None),
			2 => (base + 2 * i, base + 1, base + 2 * i + 2, g(cx, 2)),
			3 => {
				let mut r = |cx: &mut Cx| base + cx.below(few as u64) as u32;
				(r(cx), r(cx), r(cx), g(cx, few as u64))
			}
			4 => (base + 2 * i, base + 1 + cx.below(3) as u32, base + 1, None),
			_ if named => (base, base, base, Some(base + 2 * i)),
			_ => (base, base + 2 * i, base, None),
		};
		if i < n {
			set.insert(k);
		} else {
			others.push(k);
		}
	}
	others.retain(|k| !set.contains(k));
	let mut v: Vec<K> = set.into_iter().collect();
	match cx.below(3) {
		0 => (),
		1 => v.reverse(),
		_ => {
			for i in (1..v.len()).rev() {
				v.swap(i, cx.us(i + 1));
			}
		}
	}
	(v, others, name)
}

fn occurring(k: &K) -> [Option<u32>; 4] {
	[Some(k.0), Some(k.1), Some(k.2), k.3]
}

fn container<C: Counted>(cx: &mut Cx) -> R {
	let (v, others, shape) = content(cx, C::NAMED);
	let rs: BTreeSet<u32> = v.iter().chain(&others).flat_map(occurring).flatten().collect();
	let (n, m) = (v.len(), rs.len());
	cx.log(|| format!("{} of {n} statements over {m} resources ({shape}): {:?}...", C::NAME, &v[..n.min(20)]));
	cx.class(C::NAME);
	if n >= 600 {
		cx.nontrivial();
	}
	let mut c = C::default();
	if cx.bool() {
		for (i, k) in v.iter().enumerate() {
			let (new, w) = cost(|| c.add(k));
			ck!(new, "{k:?} is not inserted");
			within("insertion", w, 1, i, m)?;
		}
	} else {
		let ((), w) = cost(|| c.bulk(&v));
		within("bulk insertion", w, n, n, m)?;
	}
	// searches
	for _ in 0..24 {
		let k = v[cx.us(n)];
		let (found, w) = cost(|| c.has(&k));
		ck!(found, "{k:?} is not found");
		within("search of a statement it holds", w, 1, n, m)?;
		let (new, w) = cost(|| c.add(&k));
		ck!(!new, "{k:?} is inserted again");
		within("insertion of a statement it holds", w, 1, n, m)?;
		if !others.is_empty() {
			let k = *cx.pick(&others);
			let (found, w) = cost(|| c.has(&k));
			ck!(!found, "{k:?} is found");
			within("search of a statement it does not hold", w, 1, n, m)?;
			let (gone, w) = cost(|| c.del(&k));
			ck!(!gone, "{k:?} is removed");
			within("removal of a statement it does not hold", w, 1, n, m)?;
		}
		let r = N(if cx.chance(1, 4) { cx.below(50) as u32 } else { k.2 });
		let (_, w) = cost(|| c.resource(&r));
		within("search of a resource", w, 1, n, m)?;
		let (_, w) = cost(|| c.ask(&r));
		within("search of a resource in each role", w, 4, n, m)?;
		let o = occurring(&k);
		let mut p = [o[0], o[1], o[2]];
		for x in &mut p {
			if cx.bool() {
				*x = None;
			}
		}
		let g = if cx.bool() { None } else { Some(o[3]) };
		let limit = if cx.bool() { 1 } else { usize::MAX };
		let (found, w) = cost(|| c.find(&p, g, limit));
		if let Some(found) = found {
			ck!(found > 0, "nothing matches {p:?} {g:?}");
			// matches come without further search
			let b = bound(4, n, m) + 8.0 * found as f64;
			ck!(w as f64 <= b, "matching of {p:?} {g:?}: {w} comparisons of resources for {found} matches among {n} statements and {m} resources ({b:.0} allowed)");
		}
	}
	// whole walks
	let (k, w) = cost(|| c.walk());
	ck!(k == n && w <= 8 * n as u64 + 100, "walk: {w} comparisons of resources for {n} statements");
	let (_, w) = cost(|| c.roles());
	ck!(w <= 40 * n as u64 + 100, "listings: {w} comparisons of resources for {n} statements");
	let (d, w) = cost(|| c.clone());
	within("clone", w, n, n, m)?;
	let (same, w) = cost(|| c == d);
	ck!(same, "a clone differs");
	within("comparison for equality", w, n, n, m)?;
	let (order, w) = cost(|| c.cmp(&d));
	ck!(order.is_eq(), "a clone differs");
	ck!(w <= 32 * n as u64 + 100, "comparison: {w} comparisons of resources for {n} statements");
	let (k, w) = cost(|| d.clone().owned());
	ck!(k == n, "{k} statements instead of {n}");
	within("iteration by value", w, n, n, m)?;
	let (_, w) = cost(|| d.clone().convert());
	within("conversion", w, n, n, m)?;
	// bulk removals
	let k = v[cx.us(n)];
	let mut e = c.clone();
	let (found, w) = cost(|| e.drop_graph(k.3));
	if let Some(found) = found {
		within("removal of a graph", w, found + 1, n, m)?;
	}
	let mut e = c.clone();
	let o = occurring(&k);
	let keep = cx.us(3);
	let mut p = [None; 3];
	p[keep] = o[keep];
	let (found, w) = cost(|| e.extract(&p, if cx.bool() { None } else { Some(o[3]) }));
	if let Some(found) = found {
		within("extraction", w, found + 4, n, m)?;
	}
	for (i, k) in v.iter().enumerate() {
		let (gone, w) = cost(|| c.del(k));
		ck!(gone, "{k:?} is not removed");
		within("removal", w, 1, n - i, m)?;
	}
	Ok(())
}

/// Pattern maps hash what they look for, and compare it with what has the same hash.
fn map(cx: &mut Cx) -> R {
	let n = cx.range(1, 3000) as u32;
	let few = cx.bool();
	cx.log(|| format!("pattern map with {n} insertions, few resources: {few}"));
	cx.class("pattern maps");
	if n >= 600 {
		cx.nontrivial();
	}
	let mut map: TriplePatternMap<u32, N> = Default::default();
	let r = |cx: &mut Cx| N(if few { cx.below(8) } else { cx.below(n as u64) } as u32);
	let (mut hashes, mut compared, mut worst) = (0, 0, 0);
	for i in 0..n {
		let t = Triple(r(cx), r(cx), r(cx));
		let p = Triple(if cx.bool() { Some(t.0.clone()) } else { None }, if cx.bool() { Some(t.1.clone()) } else { None }, if cx.bool() { Some(t.2.clone()) } else { None });
		let p = CanonicalTriplePattern::from_option_triple(p);
		let before = HASHED.with(|c| c.get());
		let (_, w) = cost(|| map.insert(p, i % 5));
		// growing a table hashes its keys again: amortised
		hashes += HASHED.with(|c| c.get()) - before;
		compared += w;
		let before = HASHED.with(|c| c.get());
		let (_, w) = cost(|| map.get(t.as_ref()).take(100).count());
		worst = worst.max(HASHED.with(|c| c.get()) - before);
		compared += w;
	}
	ck!(hashes <= 60 * n as u64 + 200, "{n} insertions in a pattern map hash {hashes} resources");
	ck!(worst <= 60, "a search in a pattern map hashes {worst} resources");
	ck!(compared <= 150 * n as u64 + 500, "{n} insertions and searches in a pattern map compare {compared} pairs of resources");
	Ok(())
}

fn run(cx: &mut Cx) -> R {
	let r = match cx.below(9) {
		0 | 1 => container::<BTreeGraph<N>>(cx),
		2 | 3 => container::<BTreeDataset<N>>(cx),
		4 | 5 => container::<IndexedBTreeGraph<N>>(cx),
		6 | 7 => container::<IndexedBTreeDataset<N>>(cx),
		_ => map(cx),
	};
	if std::env::var("C29_WORST").is_ok() {
		eprintln!("{:.3}", WORST.with(|w| w.get()));
	}
	r
}

fn main() {
	main_with(Prop {
		id: "C29",
		rule: "a case fills a container with up to 8000 statements (random, sharing a subject and predicate, chained, over few resources, sharing an object, or differing by their graph; in ascending, descending or random order), then searches, inserts again, matches, walks, clones, compares, converts, extracts and removes, or fills and queries a pattern map. Oracle: the count of comparisons (hashes) made on the resources stays within a fixed multiple of the logarithm of the size per search, and of the number of statements for walks; non-trivial: at least 600 statements or insertions",
		quick: 6_000,
		thorough: 60_000,
		assumptions: &["only the operations on resources are counted"],
		run,
		exhaustive: None,
	})
}
