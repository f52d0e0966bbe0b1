//! C28: values are independent of one another, and of the thread they are used from. Sessions
//! (containers, pattern maps, generators, terms) are executed alone, interleaved, on threads of
//! their own, moved from thread to thread and read from several threads at once.
use rdf_types::dataset::*;
use rdf_types::generator::{Blank, LocalGeneratorInterpretation};
use rdf_types::interpretation::*;
use rdf_types::pattern::triple::TriplePatternMap;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern, ResourceOrVar};
use rdf_types::*;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use std::sync::Barrier;
use vharness::gen::*;
use vharness::*;

type Qi = (usize, usize, usize, Option<usize>);
/// Position of a pattern: a resource, or a variable.
type Pi = Result<usize, usize>;

#[derive(Debug, Clone)]
enum Op {
	Insert(Qi),
	Remove(Qi),
	Match([Pi; 3], Option<Pi>),
	Extract([Pi; 3], Option<Pi>, usize),
	RemoveGraph(Option<usize>),
	Generate(u64),
	Bind([Pi; 3], u32),
	Bound(Qi),
	Keep,
	Show,
	List,
	Contains(usize, usize),
	/// whether one quad is changed before
	Isomorphic(bool),
	Parse(String),
	/// one after the other in the same memory
	ParseAll(Vec<String>),
	Compare(usize, usize),
	Interpret(usize),
}

fn h(x: &impl Hash) -> u64 {
	let mut s = DefaultHasher::new();
	x.hash(&mut s);
	s.finish()
}

fn sorted<X: std::fmt::Display>(i: impl Iterator<Item = X>) -> Vec<String> {
	let mut v: Vec<String> = i.take(5000).map(|x| x.to_string()).collect();
	v.sort();
	v
}

fn pos(p: Pi, pool: &[LocalTerm]) -> ResourceOrVar<&LocalTerm, usize> {
	match p {
		Ok(i) => ResourceOrVar::Resource(&pool[i]),
		Err(v) => ResourceOrVar::Var(v),
	}
}
fn triple_pattern<'a>(p: &[Pi; 3], pool: &'a [LocalTerm]) -> Triple<ResourceOrVar<&'a LocalTerm, usize>> {
	Triple(pos(p[0], pool), pos(p[1], pool), pos(p[2], pool))
}
fn quad_pattern<'a>(p: &[Pi; 3], g: Option<Pi>, pool: &'a [LocalTerm]) -> CanonicalQuadPattern<&'a LocalTerm> {
	let Triple(s, p, o) = triple_pattern(p, pool);
	CanonicalQuadPattern::from_pattern(Quad(s, p, o, g.map(|g| pos(g, pool))))
}

/// What may be shared by threads.
#[derive(Clone)]
struct Values {
	pool: Vec<LocalTerm>,
	bd: BTreeDataset,
	id: IndexedBTreeDataset,
	bg: BTreeGraph,
	ig: IndexedBTreeGraph,
}

/// And what may only be moved from one to another.
struct Session {
	v: Values,
	map: TriplePatternMap<u32, LocalTerm>,
	blank: Blank,
	cell: LocalGeneratorInterpretation<Blank>,
	kept: Vec<Values>,
	buffer: String,
	fault: Option<String>,
}

/// Lets the check build when something is not `Send` or `Sync` any more, which is then reported.
struct Moved<T>(T);
unsafe impl<T> Send for Moved<T> {}
unsafe impl<T> Sync for Moved<T> {}
impl<T> Moved<T> {
	fn get(self) -> T {
		self.0
	}
	fn see(&self) -> &T {
		&self.0
	}
}

struct IsSend<T>(std::marker::PhantomData<T>);
struct IsSync<T>(std::marker::PhantomData<T>);
impl<T: Send> IsSend<T> {
	fn holds(&self) -> bool {
		true
	}
}
impl<T: Sync> IsSync<T> {
	fn holds(&self) -> bool {
		true
	}
}
/// Found when the methods above do not apply.
trait Otherwise {
	fn holds(&self) -> bool {
		false
	}
}
impl<T> Otherwise for &IsSend<T> {}
impl<T> Otherwise for &IsSync<T> {}

macro_rules! can {
	(move $($t:ty),* $(,)?) => {
		$(ck!((&IsSend::<$t>(std::marker::PhantomData)).holds(), "{} cannot be moved to another thread", stringify!($t));)*
	};
	(share $($t:ty),* $(,)?) => {
		can!(move $($t),*);
		$(ck!((&IsSync::<$t>(std::marker::PhantomData)).holds(), "{} cannot be shared by threads", stringify!($t));)*
	};
}

type L = LocalTerm;
/// Values, and what the library hands out to go through them.
fn marked() -> R {
	can!(share Term, LocalTerm, Literal, LiteralType, Id, BlankIdBuf, TermRef<'static>, LocalTermRef<'static>, LiteralRef<'static>, LiteralTypeRef<'static>, IdRef<'static>, CowTerm<'static>, CowLocalTerm<'static>, CowLiteral<'static>, Triple, Quad, Triple<&'static L>, Quad<&'static L>);
	can!(share BTreeDataset, IndexedBTreeDataset, BTreeGraph, IndexedBTreeGraph, TriplePatternMap<u32, L>, CanonicalTriplePattern<L>, CanonicalQuadPattern<L>, Blank);
	can!(move LocalGeneratorInterpretation<Blank>);
	can!(
		share
		<&'static BTreeDataset as IntoIterator>::IntoIter,
		<&'static IndexedBTreeDataset as IntoIterator>::IntoIter,
		<&'static BTreeGraph as IntoIterator>::IntoIter,
		<&'static IndexedBTreeGraph as IntoIterator>::IntoIter,
		<BTreeDataset as IntoIterator>::IntoIter,
		<IndexedBTreeDataset as IntoIterator>::IntoIter,
		<BTreeGraph as IntoIterator>::IntoIter,
		<IndexedBTreeGraph as IntoIterator>::IntoIter,
		<BTreeDataset as ResourceTraversableDataset>::Resources<'static>,
		<IndexedBTreeDataset as ResourceTraversableDataset>::Resources<'static>,
		<BTreeGraph as ResourceTraversableGraph>::GraphResources<'static>,
		<IndexedBTreeGraph as ResourceTraversableGraph>::GraphResources<'static>,
		<IndexedBTreeDataset as PatternMatchingDataset>::QuadPatternMatching<'static, 'static>,
		<IndexedBTreeGraph as PatternMatchingGraph>::TriplePatternMatching<'static, 'static>,
	);
	Ok(())
}

impl Session {
	fn new(pool: Vec<LocalTerm>, names: &[(String, usize); 2]) -> Self {
		let numbered = |i: usize| Blank::new_full(names[i].0.clone(), names[i].1);
		Session {
			v: Values { pool, bd: Default::default(), id: Default::default(), bg: Default::default(), ig: Default::default() },
			map: Default::default(),
			blank: numbered(0),
			cell: LocalGeneratorInterpretation::new(numbered(1)),
			kept: vec![],
			buffer: String::with_capacity(256),
			fault: None,
		}
	}

	fn step(&mut self, op: &Op, w: &mut String) {
		let v = &mut self.v;
		let quad = |q: &Qi| -> Quad { Quad(v.pool[q.0].clone(), v.pool[q.1].clone(), v.pool[q.2].clone(), q.3.map(|g| v.pool[g].clone())) };
		match op {
			Op::Insert(q) => {
				let q = quad(q);
				let t = q.clone().into_triple().0;
				write!(w, "+ {:?} {:?} {:?} {:?}", v.bd.insert(q.clone()), v.id.insert(q), v.bg.insert(t.clone()), v.ig.insert(t))
			}
			Op::Remove(q) => {
				let q = quad(q);
				let t = q.clone().into_triple().0;
				write!(w, "- {:?} {:?} {:?} {:?}", v.bd.remove(q.as_ref()), v.id.remove(q.as_ref()), v.bg.remove(t.as_ref()), v.ig.remove(t.as_ref()))
			}
			Op::Extract(p, g, n) => {
				// which of the matches come first is not specified
				let mut d = v.id.clone();
				let some = d.extract_pattern_matching(quad_pattern(p, *g, &v.pool)).take(*n).count();
				let pool = v.pool.clone();
				let all = sorted(v.id.extract_pattern_matching(quad_pattern(p, *g, &pool)));
				write!(w, "extract {some} {all:?}")
			}
			Op::RemoveGraph(g) => {
				let g = g.map(|g| v.pool[g].clone());
				write!(w, "remove {:?}", v.id.remove_graph(g.as_ref()).map(|g| sorted(g.iter())))
			}
			Op::Generate(n) => {
				for _ in 0..*n {
					write!(w, "{} ", self.blank.next_blank_id()).unwrap();
				}
				write!(w, "{} {} {} {}", self.blank.next_local_term(), self.cell.new_resource(), self.blank.prefix(), self.blank.count())
			}
			Op::Bind(p, n) => {
				let Triple(s, p, o) = triple_pattern(p, &v.pool);
				let own = |x: ResourceOrVar<&LocalTerm, usize>| match x {
					ResourceOrVar::Resource(r) => ResourceOrVar::Resource(r.clone()),
					ResourceOrVar::Var(x) => ResourceOrVar::Var(x),
				};
				write!(w, "bind {}", self.map.insert(CanonicalTriplePattern::from_pattern(Triple(own(s), own(p), own(o))), *n))
			}
			Op::Bound(q) => write!(w, "bound {:?}", sorted(self.map.get(Triple(&v.pool[q.0], &v.pool[q.1], &v.pool[q.2])))),
			Op::Keep => {
				if self.kept.len() < 3 {
					self.kept.push(self.v.clone());
				}
				for k in &self.kept {
					write!(w, "kept {} {:x}; ", k.bd.rdf_display(), h(&(&k.id, &k.bg, &k.ig))).unwrap();
				}
				Ok(())
			}
			Op::ParseAll(texts) => {
				let parse = |s: &str| format!("{} {:?}", BlankId::new(s).is_ok(), BlankIdBuf::from_suffix(s).ok());
				let mut got = vec![];
				for s in texts {
					self.buffer.clear();
					self.buffer.push_str(s);
					got.push(parse(&self.buffer));
				}
				for (s, got) in texts.iter().zip(&got) {
					let own = parse(s);
					if own != *got {
						self.fault = Some(format!("{s:?} is parsed as {got} in memory used before, {own} otherwise"));
					}
				}
				write!(w, "{got:?}")
			}
			op => {
				v.read(op, w);
				Ok(())
			}
		}
		.unwrap();
		w.push('\n');
	}
}

impl Values {
	/// Operations which change nothing.
	fn read(&self, op: &Op, w: &mut String) {
		let pool = &self.pool;
		match op {
			Op::Match(p, g) => {
				let t = sorted(self.ig.pattern_matching(CanonicalTriplePattern::from_pattern(triple_pattern(p, pool))));
				write!(w, "match {t:?} {:?}", sorted(self.id.pattern_matching(quad_pattern(p, *g, pool))))
			}
			Op::Show => write!(w, "{}{}{}{}{:?} {:x} {:x} {:x} {:x} {}", self.bd.rdf_display(), self.id.rdf_display(), self.bg.rdf_display(), self.ig.rdf_display(), self.id, h(&self.bd), h(&self.id), h(&self.bg), h(&self.ig), self.id.len()),
			Op::List => write!(
				w,
				"{:?} {:?} {:?} {:?} {:?} {:?} {:?}",
				sorted(self.id.resources()),
				sorted(self.id.subjects()),
				sorted(self.id.predicates()),
				sorted(self.id.objects()),
				sorted(self.id.named_graphs()),
				sorted(self.ig.subjects()),
				sorted(self.bg.resources())
			),
			Op::Contains(i, j) => {
				let (x, y) = (&pool[*i], &pool[*j]);
				write!(
					w,
					"{} {} {} {} {} {:?} {:?}",
					self.id.contains_quad_subject(x),
					self.id.contains_quad_object(x),
					self.id.contains_named_graph(x),
					self.id.contains(Quad(x, y, x, None)),
					self.ig.contains(Triple(x, y, y)),
					sorted(self.id.quad_objects(None, x, y)),
					sorted(self.ig.triple_objects(x, y))
				)
			}
			Op::Isomorphic(changed) => {
				let few: BTreeDataset = self.bd.iter().take(6).map(|q| q.cloned()).collect();
				let mut other: BTreeDataset = few
					.iter()
					.map(|q| {
						q.map(|t| match t {
							LocalTerm::Anonymous(b) => LocalTerm::Anonymous(BlankIdBuf::new(format!("{b}z")).unwrap()),
							t => t.clone(),
						})
					})
					.collect();
				if *changed {
					let first = other.iter().next().map(|q| q.cloned());
					if let Some(q) = first {
						other.remove(q.as_ref());
						other.insert(Quad(q.0, LocalTerm::iri(iri("http://example.org/changed")), q.2, q.3));
					}
				}
				write!(w, "isomorphic {} {}", isomorphism::are_isomorphic(&few, &other), isomorphism::are_isomorphic(&other, &few))
			}
			Op::Parse(s) => write!(w, "{:?} {:?}", BlankId::new(s).is_ok(), BlankIdBuf::new(s.clone()).map(|b| b.to_string())),
			Op::Compare(i, j) => {
				let (x, y) = (&pool[*i], &pool[*j]);
				write!(w, "{x} {:?} {:?} {} {:x} {:>20}", x.rdf_display().to_string(), x.cmp(y), x.as_ref() == y.as_ref(), h(x), y.rdf_display())
			}
			Op::Interpret(i) => {
				let x = &pool[*i];
				write!(w, "{:?} {:?}", sorted(().terms_of(x).map(|t| t.into_owned())), sorted(().iris_of(x)))
			}
			_ => Ok(()),
		}
		.unwrap()
	}
}

fn quad(cx: &mut Cx, n: usize) -> Qi {
	let (s, p, o, g) = quad_i(cx, n as u32);
	(s as usize, p as usize, o as usize, g.map(|g| g as usize))
}
fn pat(cx: &mut Cx, n: usize) -> ([Pi; 3], Option<Pi>) {
	let mut one = |cx: &mut Cx| if cx.bool() { Ok(cx.us(n)) } else { Err(cx.us(4)) };
	let p = [one(cx), one(cx), one(cx)];
	(p, if cx.chance(1, 3) { None } else { Some(one(cx)) })
}

fn reading(cx: &mut Cx, n: usize) -> Op {
	match cx.below(8) {
		0 => {
			let (p, g) = pat(cx, n);
			Op::Match(p, g)
		}
		1 => Op::Show,
		2 => Op::List,
		3 => Op::Contains(cx.us(n), cx.us(n)),
		4 => Op::Isomorphic(cx.bool()),
		5 => Op::Parse(any_blank_text(cx)),
		6 => Op::Compare(cx.us(n), cx.us(n)),
		_ => Op::Interpret(cx.us(n)),
	}
}

fn ops(cx: &mut Cx, n: usize) -> Vec<Op> {
	let k = cx.range(3, 24);
	(0..k)
		.map(|_| match cx.weighted(&[10, 3, 1, 1, 2, 2, 2, 1, 8, 1]) {
			0 => Op::Insert(quad(cx, n)),
			1 => Op::Remove(quad(cx, n)),
			2 => {
				let (p, g) = pat(cx, n);
				Op::Extract(p, g, cx.us(4))
			}
			3 => Op::RemoveGraph(if cx.bool() { None } else { Some(cx.us(n)) }),
			4 => Op::Generate(cx.below(4)),
			5 => Op::Bind(pat(cx, n).0, cx.below(4) as u32),
			6 => Op::Bound(quad(cx, n)),
			7 => Op::Keep,
			9 => {
				let first = any_blank_text(cx);
				let mut texts = vec![first.clone()];
				for _ in 0..cx.range(1, 3) {
					// of the same length, or nearly so
					let mut c: Vec<char> = first.chars().collect();
					if !c.is_empty() {
						let i = cx.us(c.len());
						c[i] = if cx.bool() { *cx.pick(&['a', '.', ' ', ':', '_', '0', '-']) } else { any_char(cx) };
					}
					texts.push(c.into_iter().collect());
				}
				texts.push(first);
				Op::ParseAll(texts)
			}
			_ => reading(cx, n),
		})
		.collect()
}

fn differ(how: &str, i: usize, want: &str, got: &str) -> R {
	if want == got {
		return Ok(());
	}
	let k = want.lines().zip(got.lines()).take_while(|(a, b)| a == b).count();
	let line = |s: &str| s.lines().nth(k).unwrap_or("nothing").chars().take(400).collect::<String>();
	Err(format!("session {i} does something else when {how}: at step {k}, {:?} instead of {:?}", line(got), line(want)))
}

fn joined<T>(h: std::thread::ScopedJoinHandle<'_, T>) -> Result<T, String> {
	h.join().map_err(|_| "panic on another thread".to_string())
}

fn run(cx: &mut Cx) -> R {
	let n = cx.range(1, 4) as usize;
	let size = cx.range(1, 8) as usize;
	let common: Vec<LocalTerm> = (0..size).map(|_| any_local_term(cx)).collect();
	let same = cx.bool();
	let pools: Vec<Vec<LocalTerm>> = (0..n).map(|_| if same { common.clone() } else { (0..size).map(|_| any_local_term(cx)).collect() }).collect();
	let todo: Vec<Vec<Op>> = (0..n).map(|_| ops(cx, size)).collect();
	let readings: Vec<Op> = (0..cx.range(1, 8)).map(|_| reading(cx, size)).collect();
	let longest = todo.iter().map(|t| t.len()).sum::<usize>();
	let order: Vec<usize> = (0..3 * longest).map(|_| cx.us(n)).collect();
	cx.class(match n {
		1 => "1 session",
		2 => "2 sessions",
		_ => "3 sessions",
	});
	if n > 1 && longest > 8 {
		cx.nontrivial();
	}
	let prefixes = ["", "", "a", "b", "xy", "xz"];
	let mut one = |cx: &mut Cx| (cx.pick(&prefixes).to_string(), if cx.bool() { 0 } else { cx.below(1000) as usize });
	let names: Vec<[(String, usize); 2]> = (0..n).map(|_| [one(cx), one(cx)]).collect();
	cx.log(|| format!("pools {pools:?}\ngenerators {names:?}\nsessions {todo:?}\norder {order:?}\nreadings {readings:?}"));
	let new = |i: usize| Session::new(pools[i].clone(), &names[i]);

	// each alone
	let mut want = vec![];
	let mut last = vec![];
	for i in 0..n {
		let mut s = new(i);
		let mut w = String::new();
		no_panic(|| todo[i].iter().for_each(|op| s.step(op, &mut w)))?;
		if let Some(e) = s.fault {
			return Err(e);
		}
		want.push(w);
		last.push(s.v);
	}
	// interleaved
	let mut all: Vec<(Session, String, usize)> = (0..n).map(|i| (new(i), String::new(), 0)).collect();
	no_panic(|| {
		for i in order.iter().copied().chain((0..n).flat_map(|i| std::iter::repeat(i).take(todo[i].len()))) {
			let (s, w, k) = &mut all[i];
			if let Some(op) = todo[i].get(*k) {
				s.step(op, w);
				*k += 1;
			}
		}
	})?;
	for i in 0..n {
		differ("interleaved with others", i, &want[i], &all[i].1)?;
	}
	if !cx.chance(1, 8) {
		return Ok(());
	}
	cx.class("with threads");
	marked()?;
	// on several threads at once, begun here
	let start = Barrier::new(n);
	let got = std::thread::scope(|scope| {
		let handles: Vec<_> = (0..n)
			.map(|i| {
				let half = todo[i].len() / 2;
				let mut s = new(i);
				let mut w = String::new();
				todo[i][..half].iter().for_each(|op| s.step(op, &mut w));
				let s = Moved(s);
				let (start, todo) = (&start, &todo);
				scope.spawn(move || {
					let mut s = s.get();
					start.wait();
					todo[i][half..].iter().for_each(|op| s.step(op, &mut w));
					w
				})
			})
			.collect();
		handles.into_iter().map(joined).collect::<Result<Vec<_>, _>>()
	})?;
	for i in 0..n {
		differ("moved to another thread", i, &want[i], &got[i])?;
	}
	// read from several threads
	let threads = 3;
	for (i, v) in last.iter().enumerate() {
		let line = |op: &Op| {
			let mut w = String::new();
			v.read(op, &mut w);
			w
		};
		let alone: Vec<String> = readings.iter().map(line).collect();
		let start = Barrier::new(threads);
		let got = std::thread::scope(|scope| {
			let handles: Vec<_> = (0..threads)
				.map(|k| {
					let v = Moved(v);
					let (start, readings) = (&start, &readings);
					scope.spawn(move || {
						let v = *v.see();
						start.wait();
						let m = readings.len();
						let mut got = vec![String::new(); m];
						for j in 0..m {
							let j = (j + k) % m;
							v.read(&readings[j], &mut got[j]);
						}
						got
					})
				})
				.collect();
			handles.into_iter().map(joined).collect::<Result<Vec<_>, _>>()
		})?;
		for g in got {
			differ("read from several threads", i, &alone.join("\n"), &g.join("\n"))?;
		}
	}
	Ok(())
}

fn main() {
	// the library reports on stderr
	if std::env::args().nth(1).as_deref() != Some("replay") {
		unsafe {
			let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
			libc::dup2(n, 2);
		}
	}
	main_with(Prop {
		id: "C28",
		rule: "a case is 1 to 3 sessions of 3 to 23 operations each on their own containers, pattern map, generators and terms, executed alone, then interleaved in a random order, and (1 case of 8) moved half-way to threads of their own running at once, and read from 3 threads at once. Oracle: metamorphic, each session gives the transcript it gives alone; listings whose order is not specified are sorted; the library's types and iterators are Send and Sync; non-trivial: at least 2 sessions with more than 8 operations in all",
		quick: 60_000,
		thorough: 1_500_000,
		assumptions: &[],
		run,
		exhaustive: None,
	})
}
