//! Program built by C26 against every combination of the optional features.
//! `probe run SEED N`: a line per case, of hashes of what the library did (without the
//! optional features, then with each of serde, contextual and the UUID generators). `probe show SEED CASE`: the
//! transcript of a case.
use rdf_types::dataset::{isomorphism, BTreeDataset, BTreeGraph, IndexedBTreeDataset, IndexedBTreeGraph};
use rdf_types::dataset::{PatternMatchingDataset, PatternMatchingGraph};
use rdf_types::generator::{Blank, LocalGeneratorInterpretation};
use rdf_types::interpretation::{GenerativeInterpretation, ReverseInterpretation};
use rdf_types::pattern::triple::TriplePatternMap;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern, ResourceOrVar};
use rdf_types::{BlankId, BlankIdBuf, IriBuf, Literal, LiteralType, LocalTerm, Quad, RdfDisplay, Term, Triple};
use std::fmt::Write;
use std::hash::{Hash, Hasher};

struct Rng(u64);
impl Rng {
	fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
		z ^ (z >> 31)
	}
	fn below(&mut self, n: u64) -> u64 {
		self.next() % n
	}
	fn pick<'a, T>(&mut self, x: &'a [T]) -> &'a T {
		&x[self.below(x.len() as u64) as usize]
	}
}

fn text(r: &mut Rng) -> String {
	let n = r.below(6);
	(0..n).map(|_| *r.pick(&['a', 'b', '0', '"', '\\', '\n', '\r', '\t', ' ', '.', '_', 'é', '日', '\u{1F600}', '\u{0}', '\u{7f}', '\'', '<'])).collect()
}

fn term(r: &mut Rng) -> LocalTerm {
	let iri = |r: &mut Rng| IriBuf::new(r.pick(&["http://e/a", "http://e/b", "urn:x", "http://e/é?q#f", "HTTP://E/a", "http://www.w3.org/2001/XMLSchema#string"]).to_string()).unwrap();
	match r.below(5) {
		0 => LocalTerm::Anonymous(BlankIdBuf::new(r.pick(&["_:a", "_:b", "_:0", "_:é.a"]).to_string()).unwrap()),
		1 | 2 => LocalTerm::Named(Term::Iri(iri(r))),
		3 => {
			let ty = iri(r);
			LocalTerm::Named(Term::Literal(Literal::new(text(r), LiteralType::Any(ty))))
		}
		_ => {
			let tag = langtag::LangTagBuf::new(r.pick(&["en", "EN", "fr-FR", "x-a"]).to_string()).unwrap();
			LocalTerm::Named(Term::Literal(Literal::new(text(r), LiteralType::LangString(tag))))
		}
	}
}

fn h(x: &impl Hash) -> u64 {
	let mut s = std::collections::hash_map::DefaultHasher::new();
	x.hash(&mut s);
	s.finish()
}

#[derive(Default)]
struct Out {
	base: String,
	serde: String,
	contextual: String,
	v3: String,
	v4: String,
	v5: String,
	statements: usize,
}

fn sorted(i: impl Iterator<Item = String>) -> Vec<String> {
	let mut v: Vec<String> = i.collect();
	v.sort();
	v
}

fn case(seed: u64, i: u64) -> Out {
	let mut out = Out::default();
	let caught = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fill(seed, i, &mut out)));
	if let Err(e) = caught {
		let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
		writeln!(out.base, "panic: {m}").unwrap();
	}
	out
}

fn fill(seed: u64, i: u64, out: &mut Out) {
	let mut rng = Rng(seed.wrapping_mul(0x2545f4914f6cdd1d) ^ i.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xc26);
	let r = &mut rng;
	let w = &mut out.base;
	let pool: Vec<LocalTerm> = (0..1 + r.below(8)).map(|_| term(r)).collect();
	for (k, t) in pool.iter().enumerate() {
		let u = &pool[(k + 1) % pool.len()];
		writeln!(w, "{t:?} {} {t} {:x} {:?} {:?} {:?}", t.rdf_display(), h(t), t.cmp(u), t.as_ref() == u.as_ref(), t.as_ref().partial_cmp(u)).unwrap();
		writeln!(w, "{:?} {:?} {:?}", ().terms_of(t).map(|t| t.into_owned()).collect::<Vec<_>>(), ().iris_of(t).collect::<Vec<_>>(), ().literals_of(t).map(|l| l.into_owned()).collect::<Vec<_>>()).unwrap();
	}
	for _ in 0..4 {
		let s = format!("{}{}", r.pick(&["_:", "_:", "_", ""]), text(r));
		writeln!(w, "{s:?} {:?} {:?}", BlankId::new(&s).is_ok(), BlankIdBuf::new(s.clone())).unwrap();
	}
	let mut g = Blank::new_full(r.pick(&["", "a", "x."]).to_string(), r.below(300) as usize);
	writeln!(w, "{} {} {}", g.next_blank_id(), g.next_blank_id(), g.count()).unwrap();

	let mut bd: BTreeDataset = BTreeDataset::new();
	let mut id: IndexedBTreeDataset = IndexedBTreeDataset::new();
	let mut bg: BTreeGraph = BTreeGraph::new();
	let mut ig: IndexedBTreeGraph = IndexedBTreeGraph::new();
	for _ in 0..r.below(24) {
		let q: Quad = Quad(r.pick(&pool).clone(), r.pick(&pool).clone(), r.pick(&pool).clone(), if r.below(2) == 0 { None } else { Some(r.pick(&pool).clone()) });
		let t = Triple(q.0.clone(), q.1.clone(), q.2.clone());
		if r.below(4) == 0 {
			writeln!(w, "- {q} {:?} {:?} {:?} {:?}", bd.remove(q.as_ref()), id.remove(q.as_ref()), bg.remove(t.as_ref()), ig.remove(t.as_ref())).unwrap();
		} else {
			writeln!(w, "+ {} {q:?} {:?} {:?} {:?} {:?}", q.rdf_display(), bd.insert(q.clone()), id.insert(q.clone()), bg.insert(t.clone()), ig.insert(t)).unwrap();
		}
	}
	out.statements = bd.len();
	writeln!(w, "{bd:?}\n{id:?}\n{bg:?}\n{ig:?}\n{}{}{}{}", bd.rdf_display(), id.rdf_display(), bg.rdf_display(), ig.rdf_display()).unwrap();
	writeln!(w, "{:x} {:x} {:x} {:x} {} {} {} {}", h(&bd), h(&id), h(&bg), h(&ig), bd.len(), id.len(), bg.len(), ig.len()).unwrap();
	for (n, l) in [("r", sorted(id.resources().map(|x| x.to_string()))), ("s", sorted(id.subjects().map(|x| x.to_string()))), ("p", sorted(id.predicates().map(|x| x.to_string()))), ("o", sorted(id.objects().map(|x| x.to_string()))), ("g", sorted(id.named_graphs().map(|x| x.to_string()))), ("t", sorted(ig.subjects().map(|x| x.to_string())))] {
		writeln!(w, "{n} {l:?}").unwrap();
	}
	for _ in 0..6 {
		let v = |r: &mut Rng| if r.below(2) == 0 { ResourceOrVar::Resource(r.pick(&pool)) } else { ResourceOrVar::Var(r.below(3)) };
		let p = Triple(v(r), v(r), v(r));
		let c = CanonicalTriplePattern::from_pattern(p.clone());
		writeln!(w, "{c:?} {:?}", sorted(ig.pattern_matching(c).map(|t| t.to_string()))).unwrap();
		let p = Quad(p.0, p.1, p.2, if r.below(3) == 0 { None } else { Some(v(r)) });
		let c = CanonicalQuadPattern::from_pattern(p);
		writeln!(w, "{c:?} {:?}", sorted(id.pattern_matching(c).map(|t| t.to_string()))).unwrap();
		let mut m: TriplePatternMap<u32, LocalTerm> = Default::default();
		let t = Triple(r.pick(&pool), r.pick(&pool), r.pick(&pool));
		m.insert(CanonicalTriplePattern::from_option_triple(Triple(Some(t.0.clone()), None, None)), 1);
		m.insert(CanonicalTriplePattern::from_triple(t.cloned()), 2);
		writeln!(w, "{:?}", sorted(m.get(t).map(|t| t.to_string()))).unwrap();
	}
	for x in &pool {
		let x2 = r.pick(&pool);
		writeln!(w, "{} {} {} {} {} {} {}", id.contains_quad_subject(x), id.contains_quad_predicate(x), id.contains_quad_object(x), id.contains_named_graph(x), ig.contains_triple_subject(x), ig.contains_triple_predicate(x), ig.contains_triple_object(x)).unwrap();
		writeln!(w, "{:?} {:?}", sorted(id.quad_objects(None, x, x2).map(|x| x.to_string())), sorted(ig.triple_predicates_objects(x).map(|(p, o)| format!("{p} {:?}", sorted(o.map(|x| x.to_string())))))).unwrap();
		let c = CanonicalTriplePattern::from_option_triple(Triple(Some(x), None, None)).with_object(x2);
		writeln!(w, "{c:?} {:?} {:?} {:?} {:?}", c.subject(), c.predicate(), c.object(), c.with_any_graph()).unwrap();
		match x {
			LocalTerm::Named(Term::Literal(l)) => {
				writeln!(w, "{} {} {:?} {:?} {:>40} {:?}", l.type_.rdf_display(), l.type_.as_ref().rdf_display(), l.type_.as_ref(), l.is_lang_string(), l.rdf_display(), l.as_cow()).unwrap();
				writeln!(w, "{:x} {:x} {}", h(l), h(&l.as_ref()), l.as_ref() == *l).unwrap();
			}
			LocalTerm::Named(Term::Iri(i)) => writeln!(w, "{} {}", i.as_iri_ref().rdf_display(), i.as_iri().rdf_display()).unwrap(),
			LocalTerm::Anonymous(b) => writeln!(w, "{} {} {b} {b:?} {:x}", b.rdf_display(), b.suffix(), h(b)).unwrap(),
		}
	}
	let g = if r.below(2) == 0 { None } else { Some(r.pick(&pool)) };
	writeln!(w, "{:?}", sorted(id.subjects().filter(|s| id.contains_quad(Quad(s, s, s, g))).map(|s| s.to_string()))).unwrap();
	let mut taken = id.clone();
	let c = CanonicalQuadPattern::from_option_quad(Quad(None, Some(r.pick(&pool)), None, Some(g)));
	let some: Vec<Quad> = taken.extract_pattern_matching(c).take(r.below(4) as usize).collect();
	writeln!(w, "{:?} {taken:?}", some.len()).unwrap();
	let mut with = LocalGeneratorInterpretation::new(Blank::new());
	writeln!(w, "{} {}", with.new_resource(), with.new_resource()).unwrap();
	let q: Quad = Quad(r.pick(&pool).clone(), r.pick(&pool).clone(), r.pick(&pool).clone(), None);
	writeln!(w, "{:?} {:?} {q:>9}", q.clone().into_triple(), q.clone().with_graph(Some(pool[0].clone())).into_graph()).unwrap();
	let n: Quad = q.clone().with_graph(Some(pool[0].clone()));
	writeln!(w, "{:?} {:?} {:?} {:?}", n.clone().with_graph(None), n.as_ref().into_parts(), n.clone().map_object(|_| 1), n.clone().map_graph(|_| None::<u8>)).unwrap();
	let other: BTreeDataset = bd
		.iter()
		.map(|q| {
			q.map(|t| match t {
				LocalTerm::Anonymous(b) => LocalTerm::Anonymous(BlankIdBuf::new(format!("{b}z")).unwrap()),
				t => t.clone(),
			})
		})
		.collect();
	writeln!(w, "{}", isomorphism::are_isomorphic(&bd, &other)).unwrap();
	let all: BTreeDataset = bd.clone().into_iter().chain(id.clone()).collect();
	writeln!(w, "{} {:?} {:?}", all == bd, all.cmp(&other), id.remove_graph(None)).unwrap();
	let [a, b] = rdf_types::grdf_quads![_:"a" <"http://e/p"> "v"^^"http://e/t" . <"http://e/s"> <"http://e/p"> "o" _:"g" .];
	writeln!(w, "{a} {b}").unwrap();

	#[cfg(feature = "serde")]
	{
		let w = &mut out.serde;
		for t in &pool {
			let s = serde_json::to_string(t).unwrap();
			let u: LocalTerm = serde_json::from_str(&s).unwrap();
			writeln!(w, "{s} {u:?}").unwrap();
		}
		let s = serde_json::to_string(&bd).unwrap();
		let u: IndexedBTreeDataset = serde_json::from_str(&s).unwrap();
		let v: BTreeDataset = serde_json::from_str(&s).unwrap();
		writeln!(w, "{s} {u:?} {v:?} {}", serde_json::to_string(&bg).unwrap()).unwrap();
		for s in ["{}", "\"_:\"", "\"a\"", "{\"value\":\"a\",\"type\":{\"Any\":\"http://e/\"}}"] {
			writeln!(w, "{:?}", serde_json::from_str::<LocalTerm>(s).ok()).unwrap();
		}
	}
	#[cfg(feature = "contextual")]
	{
		use contextual::WithContext;
		let w = &mut out.contextual;
		for t in &pool {
			match t {
				LocalTerm::Named(Term::Iri(i)) => writeln!(w, "{} {}", i.with(&()).rdf_display(), i.as_iri().with(&()).rdf_display()).unwrap(),
				LocalTerm::Named(Term::Literal(l)) => {
					if let Some(l) = l.lang_tag() {
						writeln!(w, "{} {}", l.with(&()).rdf_display(), l.to_owned().with(&()).rdf_display()).unwrap()
					}
				}
				_ => (),
			}
		}
	}
	#[cfg(any(feature = "v3", feature = "v4", feature = "v5"))]
	{
		use rdf_types::{generator::Uuid, Generator};
		let name = text(r);
		let space = uuid::Uuid::from_u128(i as u128);
		let mut generators = vec![];
		#[cfg(feature = "v3")]
		generators.push(("v3", Uuid::V3(space, name.clone())));
		#[cfg(feature = "v4")]
		generators.push(("v4", Uuid::V4));
		#[cfg(feature = "v5")]
		generators.push(("v5", Uuid::V5(space, name.clone())));
		for (n, mut g) in generators {
			let t = g.next_term();
			let w = match n {
				"v3" => &mut out.v3,
				"v4" => &mut out.v4,
				_ => &mut out.v5,
			};
			if n == "v4" {
				writeln!(w, "{}", t.to_string().len()).unwrap()
			} else {
				writeln!(w, "{space} {name:?} {t:?}").unwrap()
			}
		}
	}
}

fn main() {
	std::panic::set_hook(Box::new(|_| ()));
	let a: Vec<String> = std::env::args().collect();
	let (seed, n): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
	if a[1] == "show" {
		let o = case(seed, n);
		for (n, t) in [("base", o.base), ("serde", o.serde), ("contextual", o.contextual), ("v3", o.v3), ("v4", o.v4), ("v5", o.v5)] {
			println!("[{n}]\n{t}");
		}
		return;
	}
	let mut s = String::new();
	for i in 0..n {
		let o = case(seed, i);
		let x = |t: &str| if t.is_empty() { "-".into() } else { format!("{:016x}", h(&t)) };
		writeln!(s, "{} {} {} {} {} {} {}", x(&o.base), x(&o.serde), x(&o.contextual), x(&o.v3), x(&o.v4), x(&o.v5), o.statements).unwrap();
	}
	print!("{s}");
}
