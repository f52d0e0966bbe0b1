//! C06: containment and lookup helpers.
use rdf_types::dataset::*;
use rdf_types::LocalTerm;
use std::collections::{BTreeMap, BTreeSet};
use vharness::cont::*;
use vharness::gen::*;
use vharness::toy::*;
use vharness::*;

/// At most about 16 resources of a large universe.
fn few_of<R: Res>(cx: &mut Cx, rs: &[R]) -> Vec<R> {
	if rs.len() <= 16 {
		return rs.to_vec();
	}
	let k = cx.us(rs.len() - 15);
	let mut v = rs[k..k + 8].to_vec();
	for _ in 0..8 {
		let r = cx.pick(rs).clone();
		if !v.contains(&r) {
			v.push(r);
		}
	}
	v
}

fn listed<R: Res>(what: &str, got: Vec<(R, Vec<R>)>, want: &BTreeMap<R, BTreeSet<R>>) -> vharness::R {
	let keys: Vec<R> = got.iter().map(|x| x.0.clone()).collect();
	same_set(&format!("predicates of {what}"), &keys, &want.keys().cloned().collect())?;
	for (p, os) in got {
		same_set(&format!("objects listed for predicate {p:?} of {what}"), &os, &want[&p])?;
	}
	Ok(())
}

fn graph<R: Res, G: Graph<Resource = R> + PatternMatchingGraph + PredicateTraversableGraph>(cx: &mut Cx, kind: &str, rs: &[R], g: &G, m: &BTreeSet<T<R>>) -> vharness::R {
	let cap = m.len() + 2;
	let few = rs.len() <= 3;
	let rs = &few_of(cx, rs)[..];
	for r in rs {
		ck_eq!(g.contains_triple_subject(r), m.iter().any(|t| t.0 == *r), "{kind}: contains_triple_subject({r:?})");
		ck_eq!(g.contains_triple_predicate(r), m.iter().any(|t| t.1 == *r), "{kind}: contains_triple_predicate({r:?})");
		ck_eq!(g.contains_triple_object(r), m.iter().any(|t| t.2 == *r), "{kind}: contains_triple_object({r:?})");
		if !few && cx.chance(2, 3) {
			continue;
		}
		let mut want: BTreeMap<R, BTreeSet<R>> = BTreeMap::new();
		for t in m.iter().filter(|t| t.0 == *r) {
			want.entry(t.1.clone()).or_default().insert(t.2.clone());
		}
		let got: Vec<(R, Vec<R>)> = g.triple_predicates_objects(r).take(cap).map(|(p, os)| (p.clone(), os.take(cap).cloned().collect())).collect();
		if cx.chance(1, 6) {
			iter_laws(&format!("{kind}: triple_predicates_objects({r:?})"), cap, got.len() / 2, || g.triple_predicates_objects(r).map(|(p, os)| (p, os.take(cap).collect::<Vec<_>>())))?;
		}
		listed(&format!("{kind}: subject {r:?}"), got, &want)?;
		for p in rs {
			let got: Vec<R> = g.triple_objects(r, p).take(cap).cloned().collect();
			if cx.chance(1, 20) {
				iter_laws(&format!("{kind}: triple_objects({r:?}, {p:?})"), cap, got.len() / 2, || g.triple_objects(r, p))?;
			}
			same_set(&format!("{kind}: triple_objects({r:?}, {p:?})"), &got, want.get(p).unwrap_or(&BTreeSet::new()))?;
		}
	}
	let asked: Vec<T<R>> = if rs.len() <= 2 { T::all(rs) } else { (0..8).map(|_| T::gen(cx, rs)).chain(m.iter().take(6).cloned()).collect() };
	for t in asked {
		ck_eq!(g.contains_triple(tr(&t)), m.contains(&t), "{kind}: contains_triple({t:?})");
	}
	Ok(())
}

fn dataset<R: Res, D: Dataset<Resource = R> + PatternMatchingDataset + PredicateTraversableDataset>(cx: &mut Cx, kind: &str, rs: &[R], d: &D, m: &BTreeSet<Q<R>>) -> vharness::R {
	let cap = m.len() + 2;
	let few = rs.len() <= 2;
	let rs = &few_of(cx, rs)[..];
	let graphs: Vec<Option<&R>> = std::iter::once(None).chain(rs.iter().map(Some)).collect();
	for r in rs {
		ck_eq!(d.contains_quad_subject(r), m.iter().any(|t| t.0 == *r), "{kind}: contains_quad_subject({r:?})");
		ck_eq!(d.contains_quad_predicate(r), m.iter().any(|t| t.1 == *r), "{kind}: contains_quad_predicate({r:?})");
		ck_eq!(d.contains_quad_object(r), m.iter().any(|t| t.2 == *r), "{kind}: contains_quad_object({r:?})");
		ck_eq!(d.contains_named_graph(r), m.iter().any(|t| t.3.as_ref() == Some(r)), "{kind}: contains_named_graph({r:?})");
		for &g in &graphs {
			if !few && cx.chance(3, 4) {
				continue;
			}
			let mut want: BTreeMap<R, BTreeSet<R>> = BTreeMap::new();
			for t in m.iter().filter(|t| t.0 == *r && t.3.as_ref() == g) {
				want.entry(t.1.clone()).or_default().insert(t.2.clone());
			}
			let got: Vec<(R, Vec<R>)> = d.quad_predicates_objects(g, r).take(cap).map(|(p, os)| (p.clone(), os.take(cap).cloned().collect())).collect();
			if cx.chance(1, 6) {
				iter_laws(&format!("{kind}: quad_predicates_objects({g:?}, {r:?})"), cap, got.len() / 2, || d.quad_predicates_objects(g, r).map(|(p, os)| (p, os.take(cap).collect::<Vec<_>>())))?;
			}
			listed(&format!("{kind}: graph {g:?} subject {r:?}"), got, &want)?;
			for p in rs {
				if rs.len() > 8 && cx.chance(3, 4) {
					continue;
				}
				let got: Vec<R> = d.quad_objects(g, r, p).take(cap).cloned().collect();
				if cx.chance(1, 20) {
					iter_laws(&format!("{kind}: quad_objects({g:?}, {r:?}, {p:?})"), cap, got.len() / 2, || d.quad_objects(g, r, p))?;
				}
				same_set(&format!("{kind}: quad_objects({g:?}, {r:?}, {p:?})"), &got, want.get(p).unwrap_or(&BTreeSet::new()))?;
			}
		}
	}
	let asked: Vec<Q<R>> = if rs.len() <= 2 { Q::all(rs) } else { (0..8).map(|_| Q::gen(cx, rs)).chain(m.iter().take(6).cloned()).collect() };
	for t in asked {
		ck_eq!(d.contains_quad(qr(&t)), m.contains(&t), "{kind}: contains_quad({t:?})");
	}
	Ok(())
}

fn gcase<R: Res>(cx: &mut Cx) -> vharness::R {
	let rs: Vec<R> = resources(cx);
	let known = &rs[..rs.len().max(2) - 1];
	let mut c = IndexedBTreeGraph::<R>::new();
	let mut m = BTreeSet::new();
	history(cx, known, &mut c, &mut m, false, |cx, c, m, _| if cx.chance(1, 30) { graph(cx, "indexed graph", &rs, c, m) } else { Ok(()) })?;
	graph(cx, "indexed graph", &rs, &c, &m)?;
	// the graph seen as a dataset
	let q: BTreeSet<Q<R>> = m.iter().map(|t| (t.0.clone(), t.1.clone(), t.2.clone(), None)).collect();
	dataset(cx, "indexed graph as a dataset", &rs, &c, &q)?;
	// (the container written here scans: keep it small)
	let few: BTreeSet<T<R>> = m.iter().take(150).cloned().collect();
	graph(cx, "user-defined graph", &rs, &VecGraph(few.iter().cloned().collect()), &few)?;
	if m.len() >= 3 {
		cx.nontrivial();
	}
	Ok(())
}

fn dcase<R: Res>(cx: &mut Cx) -> vharness::R {
	let rs: Vec<R> = resources(cx);
	let known = &rs[..rs.len().max(2) - 1];
	let mut c = IndexedBTreeDataset::<R>::new();
	let mut m = BTreeSet::new();
	history(cx, known, &mut c, &mut m, false, |cx, c, m, _| if cx.chance(1, 30) { dataset(cx, "indexed dataset", &rs, c, m) } else { Ok(()) })?;
	dataset(cx, "indexed dataset", &rs, &c, &m)?;
	let few: BTreeSet<Q<R>> = m.iter().take(150).cloned().collect();
	dataset(cx, "user-defined dataset", &rs, &VecDataset(few.iter().cloned().collect()), &few)?;
	if m.len() >= 3 && m.iter().any(|q| q.3.is_some()) {
		cx.nontrivial();
	}
	Ok(())
}

fn run(cx: &mut Cx) -> vharness::R {
	match cx.below(6) {
		0 => gcase::<u32>(cx),
		1 => dcase::<u32>(cx),
		2 => gcase::<Scrambled>(cx),
		3 => dcase::<Scrambled>(cx),
		4 => gcase::<LocalTerm>(cx),
		_ => dcase::<LocalTerm>(cx),
	}
}

fn large(thorough: bool) -> Result<u64, String> {
	let rs = skew_rs();
	for mask in SKEWS {
		let mut cx = Cx::random("C06", 1, mask as u64, thorough);
		let cx = &mut cx;
		let n = skew_n(false);
		let (d, m) = scale_of::<IndexedBTreeDataset<u32>>(n, skew_q(mask));
		dataset(cx, &format!("indexed dataset sharing {mask:05b}"), &rs, &d, &m)?;
		if mask < 8 {
			let t = |i| {
				let q = skew_q(mask)(i);
				(q.0, q.1, q.2)
			};
			let (g, m) = scale_of::<IndexedBTreeGraph<u32>>(n, t);
			graph(cx, &format!("indexed graph sharing {mask:05b}"), &rs, &g, &m)?;
			let q = m.iter().map(|t| (t.0, t.1, t.2, None)).collect();
			dataset(cx, &format!("indexed graph sharing {mask:05b} as a dataset"), &rs, &g, &q)?;
		}
	}
	let rs = [7u32, 100_003, 66_001, 200_005, 200_003, 299, 100_006, 65_537, 5];
	let mut cx = Cx::random("C06", 1, 100, thorough);
	let (d, m) = scale::<IndexedBTreeDataset<u32>>(scale_q);
	dataset(&mut cx, "large indexed dataset", &rs, &d, &m)?;
	let (g, m) = scale::<IndexedBTreeGraph<u32>>(scale_t);
	graph(&mut cx, "large indexed graph", &rs, &g, &m)?;
	Ok(SKEWS.len() as u64 + 2)
}

fn main() {
	main_with(Prop {
		id: "C06",
		rule: "a case is a random history on an indexed graph or dataset, every helper asked about resources of the universe (known and unknown) and compared with the modelled statements; the provided trait methods are also exercised on user-side containers; large contents (one of over 66 000 statements and resources, others of thousands of statements mostly sharing one to three components, all partly removed and refilled) are checked first; non-trivial: at least 3 statements (and, for datasets, one named graph)",
		quick: 200_000,
		thorough: 2_000_000,
		assumptions: &["resource types with lawful Ord/Eq/Hash (u32, an order-scrambling type, LocalTerm)"],
		run,
		exhaustive: Some(large),
	})
}
