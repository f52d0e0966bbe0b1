//! C07: graphs as datasets, fallible views.
use rdf_types::dataset::fallible::*;
use rdf_types::dataset::fallible_graph::*;
use rdf_types::dataset::*;
use rdf_types::LocalTerm;
use std::collections::BTreeSet;
use vharness::cont::*;
use vharness::gen::*;
use vharness::toy::*;
use vharness::*;

fn ok<X>(r: Result<X, std::convert::Infallible>) -> X {
	match r {
		Ok(x) => x,
		Err(e) => match e {},
	}
}

/// Traversal of a graph as a dataset and through the fallible views.
fn traversal<R: Res, G>(kind: &str, g: &G, m: &BTreeSet<T<R>>) -> vharness::R
where
	G: Graph<Resource = R> + TraversableGraph + ResourceTraversableGraph,
{
	let cap = 3 * m.len() + 2;
	let q: Vec<Q<R>> = m.iter().map(|t| (t.0.clone(), t.1.clone(), t.2.clone(), None)).collect();
	let ts: Vec<T<R>> = m.iter().cloned().collect();
	let used: BTreeSet<R> = m.iter().flat_map(|t| [t.0.clone(), t.1.clone(), t.2.clone()]).collect();
	same_bag(&format!("{kind}: quads()"), TraversableDataset::quads(g).take(cap).map(un_q).collect(), &q)?;
	ck_eq!(TraversableDataset::quads_count(g), q.len(), "{kind}: quads_count");
	ck_eq!(TraversableGraph::triples_count(g), q.len(), "{kind}: triples_count");
	same_set(&format!("{kind}: resources()"), &ResourceTraversableDataset::resources(g).take(cap).cloned().collect::<Vec<_>>(), &used)?;
	ck_eq!(ResourceTraversableDataset::resource_count(g), used.len(), "{kind}: resource_count");
	ck_eq!(NamedGraphTraversableDataset::named_graphs(g).count(), 0, "{kind}: named graphs listed");
	ck_eq!(NamedGraphTraversableDataset::named_graph_count(g), 0, "{kind}: named_graph_count");
	same_bag(&format!("{kind}: try_quads()"), FallibleTraversableDataset::try_quads(g).take(cap).map(|x| un_q(ok(x))).collect(), &q)?;
	same_bag(&format!("{kind}: try_triples()"), FallibleTraversableGraph::try_triples(g).take(cap).map(|x| un_t(ok(x))).collect(), &ts)
}

fn indexed<R: Res, G>(cx: &mut Cx, kind: &str, rs: &[R], g: &G, m: &BTreeSet<T<R>>) -> vharness::R
where
	G: Graph<Resource = R> + TraversableGraph + ResourceTraversableGraph + SubjectTraversableGraph + PredicateTraversableGraph + ObjectTraversableGraph + PatternMatchingGraph,
{
	traversal(kind, g, m)?;
	let cap = 3 * m.len() + 2;
	let l = |i: &mut dyn Iterator<Item = &R>| -> Vec<R> { i.take(cap).cloned().collect() };
	let s: BTreeSet<R> = m.iter().map(|t| t.0.clone()).collect();
	let p: BTreeSet<R> = m.iter().map(|t| t.1.clone()).collect();
	let o: BTreeSet<R> = m.iter().map(|t| t.2.clone()).collect();
	same_set(&format!("{kind}: subjects()"), &l(&mut SubjectTraversableDataset::subjects(g)), &s)?;
	ck_eq!(SubjectTraversableDataset::subject_count(g), s.len(), "{kind}: subject_count");
	same_set(&format!("{kind}: predicates()"), &l(&mut PredicateTraversableDataset::predicates(g)), &p)?;
	ck_eq!(PredicateTraversableDataset::predicate_count(g), p.len(), "{kind}: predicate_count");
	same_set(&format!("{kind}: objects()"), &l(&mut ObjectTraversableDataset::objects(g)), &o)?;
	ck_eq!(ObjectTraversableDataset::object_count(g), o.len(), "{kind}: object_count");
	let q: BTreeSet<Q<R>> = m.iter().map(|t| (t.0.clone(), t.1.clone(), t.2.clone(), None)).collect();
	for _ in 0..10 {
		let pat = QPat::gen(cx, rs);
		cx.log(|| format!("match {pat:?}"));
		let want = q_matches(&q, &pat);
		same_bag(&format!("{kind}: quad matching {pat:?}"), PatternMatchingDataset::quad_pattern_matching(g, pat.canonical()).take(cap).map(un_q).collect(), &want)?;
		same_bag(&format!("{kind}: fallible quad matching {pat:?}"), FalliblePatternMatchingDataset::try_quad_pattern_matching(g, pat.canonical()).take(cap).map(|x| un_q(ok(x))).collect(), &want)?;
		let tp = TPat { s: pat.s.clone(), p: pat.p.clone(), o: pat.o.clone() };
		same_bag(&format!("{kind}: fallible triple matching {tp:?}"), FalliblePatternMatchingGraph::try_triple_pattern_matching(g, tp.canonical()).take(cap).map(|x| un_t(ok(x))).collect(), &t_matches(m, &tp))?;
		let t = T::gen(cx, rs);
		ck_eq!(ok(FalliblePatternMatchingGraph::try_contains_triple(g, tr(&t))), m.contains(&t), "{kind}: graph try_contains_triple({t:?})");
		ck_eq!(ok(FalliblePatternMatchingDataset::try_contains_triple(g, tr(&t))), m.contains(&t), "{kind}: dataset try_contains_triple({t:?})");
		let mut tq = (t.0, t.1, t.2, None);
		ck_eq!(PatternMatchingDataset::contains_quad(g, qr(&tq)), q.contains(&tq), "{kind}: contains_quad({tq:?})");
		tq.3 = Some(cx.pick(rs).clone());
		ck!(!PatternMatchingDataset::contains_quad(g, qr(&tq)), "{kind}: contains_quad({tq:?}) is true for a named graph");
	}
	Ok(())
}

fn gcase<R: Res>(cx: &mut Cx) -> vharness::R {
	let rs: Vec<R> = resources(cx);
	let mut c = IndexedBTreeGraph::<R>::new();
	let mut m = BTreeSet::new();
	let mut k = 0;
	history(cx, &rs, &mut c, &mut m, false, |_, _, _, _| Ok(()))?;
	// fallible insertions
	let mut plain = BTreeGraph::<R>::new();
	refill(cx, &mut plain, &m, &rs)?;
	let mut v = VecGraph::<R>(m.iter().cloned().collect());
	while cx.chance(1, 2) && k < 6 {
		let t = T::gen(cx, &rs);
		cx.log(|| format!("try_insert {t:?}"));
		ok(FallibleGraphMut::try_insert(&mut c, tv(&t)));
		ok(FallibleGraphMut::try_insert(&mut plain, tv(&t)));
		ok(FallibleGraphMut::try_insert(&mut v, tv(&t)));
		m.insert(t);
		k += 1;
	}
	indexed(cx, "indexed graph", &rs, &c, &m)?;
	traversal("plain graph", &plain, &m)?;
	indexed(cx, "user-defined graph", &rs, &v, &m)?;
	if m.len() >= 3 {
		cx.nontrivial();
	}
	Ok(())
}

fn dataset<R: Res, D>(cx: &mut Cx, kind: &str, rs: &[R], d: &D, m: &BTreeSet<Q<R>>) -> vharness::R
where
	D: Dataset<Resource = R> + TraversableDataset + PatternMatchingDataset,
{
	let cap = m.len() + 2;
	let all: Vec<Q<R>> = m.iter().cloned().collect();
	same_bag(&format!("{kind}: try_quads()"), d.try_quads().take(cap).map(|x| un_q(ok(x))).collect(), &all)?;
	for _ in 0..10 {
		let pat = QPat::gen(cx, rs);
		same_bag(&format!("{kind}: fallible matching {pat:?}"), d.try_quad_pattern_matching(pat.canonical()).take(cap).map(|x| un_q(ok(x))).collect(), &q_matches(m, &pat))?;
		let t = if all.is_empty() || cx.bool() {
			T::gen(cx, rs)
		} else {
			let q = cx.pick(&all);
			(q.0.clone(), q.1.clone(), q.2.clone())
		};
		let want = m.iter().any(|q| q.0 == t.0 && q.1 == t.1 && q.2 == t.2);
		if want {
			cx.class("triple present in some graph");
		}
		ck_eq!(ok(d.try_contains_triple(tr(&t))), want, "{kind}: try_contains_triple({t:?})");
	}
	Ok(())
}

fn dcase<R: Res>(cx: &mut Cx) -> vharness::R {
	let rs: Vec<R> = resources(cx);
	let mut c = IndexedBTreeDataset::<R>::new();
	let mut m = BTreeSet::new();
	history(cx, &rs, &mut c, &mut m, false, |_, _, _, _| Ok(()))?;
	let mut plain = BTreeDataset::<R>::new();
	refill(cx, &mut plain, &m, &rs)?;
	let mut v = VecDataset::<R>(m.iter().cloned().collect());
	for _ in 0..cx.below(4) {
		let t = Q::gen(cx, &rs);
		cx.log(|| format!("try_insert {t:?}"));
		ok(FallibleDatasetMut::try_insert(&mut c, qv(&t)));
		ok(FallibleDatasetMut::try_insert(&mut plain, qv(&t)));
		ok(FallibleDatasetMut::try_insert(&mut v, qv(&t)));
		m.insert(t);
	}
	dataset(cx, "indexed dataset", &rs, &c, &m)?;
	dataset(cx, "user-defined dataset", &rs, &v, &m)?;
	let all: Vec<Q<R>> = m.iter().cloned().collect();
	same_bag("plain dataset: try_quads()", plain.try_quads().take(m.len() + 2).map(|x| un_q(ok(x))).collect(), &all)?;
	// counts provided by the traits
	ck_eq!(TraversableDataset::quads_count(&v), m.len(), "user-defined dataset: quads_count");
	let used: BTreeSet<&R> = m.iter().flat_map(|s| s.parts()).flatten().collect();
	ck_eq!(ResourceTraversableDataset::resource_count(&v), used.len(), "user-defined dataset: resource_count");
	let role = |i: usize| m.iter().filter_map(|s| s.parts()[i]).collect::<BTreeSet<_>>().len();
	ck_eq!(v.subject_count(), role(0), "user-defined dataset: subject_count");
	ck_eq!(v.predicate_count(), role(1), "user-defined dataset: predicate_count");
	ck_eq!(v.object_count(), role(2), "user-defined dataset: object_count");
	ck_eq!(v.named_graph_count(), role(3), "user-defined dataset: named_graph_count");
	if m.len() >= 3 {
		cx.nontrivial();
	}
	Ok(())
}

/// What a source which fails at times may answer: what it met first decides, and a failure met
/// before any match is never taken for an absence.
fn told<X>(what: &str, got: Result<bool, u32>, seen: &[Result<X, u32>]) -> vharness::R {
	match seen.first() {
		None => ck_eq!(got, Ok(false), "{what}: nothing there"),
		Some(Ok(_)) => ck_eq!(got, Ok(true), "{what}: found first"),
		Some(Err(e)) => ck!(got == Err(*e) || (got == Ok(true) && seen.iter().any(|x| x.is_ok())), "{what}: got {got:?} where the source fails with {e}"),
	}
	Ok(())
}

/// Sources which fail.
fn flaky<R: Res>(cx: &mut Cx) -> vharness::R {
	let rs: Vec<R> = (0..cx.range(1, 4) as u32).map(R::make).collect();
	let mut items: Vec<Result<Q<R>, u32>> = vec![];
	for i in 0..cx.below(8) {
		items.push(if cx.chance(1, 3) { Err(i as u32) } else { Ok(Q::gen(cx, &rs)) });
	}
	cx.log(|| format!("source {items:?}"));
	if items.iter().any(|x| x.is_err()) && items.iter().any(|x| x.is_ok()) {
		cx.class("source failing at times");
		cx.nontrivial();
	}
	let d = Flaky(items.clone());
	let g = Flaky(items.iter().map(|x| x.as_ref().map(|q| (q.0.clone(), q.1.clone(), q.2.clone())).map_err(|e| *e)).collect::<Vec<Result<T<R>, u32>>>());
	for _ in 0..4 {
		let t = match items.first() {
			Some(Ok(q)) if cx.chance(1, 4) => (q.0.clone(), q.1.clone(), q.2.clone()),
			_ => T::gen(cx, &rs),
		};
		let seen: Vec<&Result<Q<R>, u32>> = items.iter().filter(|x| x.as_ref().map_or(true, |q| q.0 == t.0 && q.1 == t.1 && q.2 == t.2)).collect();
		let seen: Vec<Result<(), u32>> = seen.into_iter().map(|x| x.as_ref().map(|_| ()).map_err(|e| *e)).collect();
		told(&format!("dataset try_contains_triple({t:?})"), FalliblePatternMatchingDataset::try_contains_triple(&d, tr(&t)), &seen)?;
		told(&format!("graph try_contains_triple({t:?})"), FalliblePatternMatchingGraph::try_contains_triple(&g, tr(&t)), &seen)?;
	}
	Ok(())
}

fn run(cx: &mut Cx) -> vharness::R {
	if cx.chance(1, 5) {
		return if cx.bool() { flaky::<u32>(cx) } else { flaky::<LocalTerm>(cx) };
	}
	match cx.below(6) {
		0 => gcase::<u32>(cx),
		1 => gcase::<Scrambled>(cx),
		2 => gcase::<LocalTerm>(cx),
		3 => dcase::<u32>(cx),
		4 => dcase::<Scrambled>(cx),
		_ => dcase::<LocalTerm>(cx),
	}
}

fn large(thorough: bool) -> Result<u64, String> {
	let rs = skew_rs();
	for mask in SKEWS {
		let mut cx = Cx::random("C07", 1, mask as u64, thorough);
		let n = skew_n(false);
		let (d, m) = scale_of::<IndexedBTreeDataset<u32>>(n, skew_q(mask));
		dataset(&mut cx, &format!("indexed dataset sharing {mask:05b}"), &rs, &d, &m)?;
		if mask < 8 {
			let t = |i| {
				let q = skew_q(mask)(i);
				(q.0, q.1, q.2)
			};
			let (g, m) = scale_of::<IndexedBTreeGraph<u32>>(n, t);
			indexed(&mut cx, &format!("indexed graph sharing {mask:05b}"), &rs, &g, &m)?;
			let (g, m) = scale_of::<BTreeGraph<u32>>(n, t);
			traversal(&format!("plain graph sharing {mask:05b}"), &g, &m)?;
		}
	}
	let mut cx = Cx::random("C07", 1, 100, thorough);
	let (g, m) = scale::<IndexedBTreeGraph<u32>>(scale_t);
	indexed(&mut cx, "large indexed graph", &[7, 100_003, 66_001, 5], &g, &m)?;
	let (d, m) = scale::<IndexedBTreeDataset<u32>>(scale_q);
	dataset(&mut cx, "large indexed dataset", &[7, 100_003, 66_001, 200_005, 5], &d, &m)?;
	Ok(SKEWS.len() as u64 + 2)
}

fn main() {
	main_with(Prop {
		id: "C07",
		rule: "a case is a random history on a graph (used as a dataset) or a dataset, with traversals, listings, counts and random patterns through the dataset and fallible traits compared with the modelled statements, on the library's and on user-side containers; large contents (one of over 66 000 statements and resources, others of thousands of statements mostly sharing one to three components, all partly removed and refilled) are checked first; sources written here which fail at some points are asked for triples; non-trivial: at least 3 statements, or a source which fails and holds statements",
		quick: 150_000,
		thorough: 2_000_000,
		assumptions: &["resource types with lawful Ord/Eq/Hash (u32, an order-scrambling type, LocalTerm)"],
		run,
		exhaustive: Some(large),
	})
}
