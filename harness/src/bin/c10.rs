//! C10: indexing a plain container.
use rdf_types::dataset::*;
use rdf_types::LocalTerm;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use vharness::cont::*;
use vharness::gen::*;
use vharness::*;

fn h<X: Hash>(x: &X) -> u64 {
	let mut s = DefaultHasher::new();
	x.hash(&mut s);
	s.finish()
}

fn listings<R: Res, C: Cont<R>>(rs: &[R], c: &C, m: &BTreeSet<C::S>) -> vharness::R {
	let cap = rs.len() + 2;
	let role = |i: usize| -> BTreeSet<R> { m.iter().filter_map(|s| s.parts()[i].cloned()).collect() };
	same_set("resources", &c.res(cap), &m.iter().flat_map(|s| s.parts()).flatten().cloned().collect())?;
	if let Some(roles) = c.roles(cap) {
		for i in 0..3 {
			same_set(&format!("role {i} listing"), &roles[i].0, &role(i))?;
			ck_eq!(roles[i].2, role(i).len(), "role {i} count");
		}
	}
	if let Some(g) = c.graphs(cap) {
		same_set("named graphs", &g.0, &role(3))?;
		ck_eq!(g.2, role(3).len(), "named graph count");
	}
	for r in rs {
		ck_eq!(c.has_res(r), m.iter().any(|s| s.parts().into_iter().flatten().any(|x| x == r)), "contains_resource({r:?})");
	}
	Ok(())
}

/// Converted container: same content, same answers, and it goes on like any other.
fn case<R: Res, P: Cont<R>, C: Cont<R, S = P::S>>(cx: &mut Cx, convert: fn(&mut Cx, P) -> C, patterns: fn(&mut Cx, &[R], &C, &BTreeSet<P::S>) -> vharness::R) -> vharness::R {
	let rs: Vec<R> = resources(cx);
	cx.log(|| format!("{} over {} resources", P::NAME, rs.len()));
	let mut p = P::new_();
	let mut m: BTreeSet<P::S> = BTreeSet::new();
	let mut removed = false;
	history(cx, &rs, &mut p, &mut m, false, |_, _, _, st| {
		removed |= st.op == 2 || st.op == 8;
		Ok(())
	})?;
	cx.log(|| format!("convert ({} statements)", m.len()));
	let mut c = convert(cx, p);
	check_set(cx, &rs, &c, &m).map_err(|e| format!("converted: {e}"))?;
	listings(&rs, &c, &m).map_err(|e| format!("converted: {e}"))?;
	patterns(cx, &rs, &c, &m).map_err(|e| format!("converted: {e}"))?;
	let direct = C::collect_(&m.iter().cloned().collect::<Vec<_>>());
	ck!(c == direct, "converted container differs from one built directly");
	ck_eq!(h(&c), h(&direct), "hash of the converted container");
	ck_eq!(format!("{c:?}"), format!("{direct:?}"), "debug form of the converted container");
	if removed && m.len() >= 2 {
		cx.nontrivial();
	}
	// and afterwards
	history(cx, &rs, &mut c, &mut m, true, |cx, c, m, st| {
		if st.touched.is_none() && m.len() < 100 || cx.chance(1, if m.len() > 60 { 60 } else { 6 }) {
			check_set(cx, &rs, c, m)?;
			listings(&rs, c, m)?;
			patterns(cx, &rs, c, m)?;
		}
		Ok(())
	})
	.map_err(|e| format!("after conversion: {e}"))?;
	check_set(cx, &rs, &c, &m).map_err(|e| format!("after conversion: {e}"))?;
	listings(&rs, &c, &m).map_err(|e| format!("after conversion: {e}"))?;
	patterns(cx, &rs, &c, &m).map_err(|e| format!("after conversion: {e}"))
}

fn tp<R: Res>(cx: &mut Cx, rs: &[R], c: &IndexedBTreeGraph<R>, m: &BTreeSet<T<R>>) -> vharness::R {
	for _ in 0..5 {
		let pat = TPat::gen(cx, rs);
		same_bag(&format!("matching {pat:?}"), c.pattern_matching(pat.canonical()).take(m.len() + 2).map(un_t).collect(), &t_matches(m, &pat))?;
	}
	Ok(())
}
fn qp<R: Res>(cx: &mut Cx, rs: &[R], c: &IndexedBTreeDataset<R>, m: &BTreeSet<Q<R>>) -> vharness::R {
	for _ in 0..5 {
		let pat = QPat::gen(cx, rs);
		same_bag(&format!("matching {pat:?}"), c.pattern_matching(pat.canonical()).take(m.len() + 2).map(un_q).collect(), &q_matches(m, &pat))?;
	}
	Ok(())
}
fn gconv<R: Res>(cx: &mut Cx, g: BTreeGraph<R>) -> IndexedBTreeGraph<R> {
	match cx.below(3) {
		0 => g.into_indexed(),
		1 => IndexedBTreeGraph::from_non_indexed(g),
		_ => g.into(),
	}
}
fn dconv<R: Res>(cx: &mut Cx, g: BTreeDataset<R>) -> IndexedBTreeDataset<R> {
	if cx.bool() {
		g.into_indexed()
	} else {
		IndexedBTreeDataset::from_non_indexed(g)
	}
}

fn run(cx: &mut Cx) -> vharness::R {
	match cx.below(7) {
		0 => case::<u32, BTreeGraph<u32>, IndexedBTreeGraph<u32>>(cx, gconv, tp),
		1 => case::<u32, BTreeDataset<u32>, IndexedBTreeDataset<u32>>(cx, dconv, qp),
		2 => case::<Scrambled, BTreeGraph<Scrambled>, IndexedBTreeGraph<Scrambled>>(cx, gconv, tp),
		3 => case::<Scrambled, BTreeDataset<Scrambled>, IndexedBTreeDataset<Scrambled>>(cx, dconv, qp),
		4 => case::<LocalTerm, BTreeGraph<LocalTerm>, IndexedBTreeGraph<LocalTerm>>(cx, gconv, tp),
		5 => case::<LocalTerm, BTreeDataset<LocalTerm>, IndexedBTreeDataset<LocalTerm>>(cx, dconv, qp),
		_ => case::<LocalTerm, BTreeDataset<LocalTerm>, IndexedBTreeDataset<LocalTerm>>(cx, |_, d| d.into(), qp),
	}
}

/// A large content converted: same statements, roles and answers as one built directly.
fn large_one<P: Cont<u32>, C: Cont<u32, S = P::S>>(what: &str, n: u32, make: impl Fn(u32) -> P::S, convert: impl Fn(P) -> C, queries: impl Fn(&C, &BTreeSet<P::S>) -> vharness::R) -> vharness::R {
	let (p, m) = scale_of::<P>(n, make);
	let c = convert(p);
	let want: Vec<P::S> = m.iter().cloned().collect();
	ck!(c.items(want.len() + 2) == want, "{what}: statements after the conversion");
	ck_eq!(c.len_(), want.len(), "{what}: len after the conversion");
	for s in want.iter().step_by(37) {
		ck!(c.contains_(s), "{what}: {s:?} is missing");
	}
	let role = |i: usize| -> BTreeSet<u32> { m.iter().filter_map(|s| s.parts()[i].copied()).collect() };
	let cap = 4 * want.len() + 2;
	same_set(&format!("{what}: resources"), &c.res(cap), &m.iter().flat_map(|s| s.parts()).flatten().copied().collect())?;
	if let Some(roles) = c.roles(cap) {
		for i in 0..3 {
			same_set(&format!("{what}: role {i} listing"), &roles[i].0, &role(i))?;
			ck_eq!(roles[i].2, role(i).len(), "{what}: role {i} count");
		}
	}
	if let Some(g) = c.graphs(cap) {
		same_set(&format!("{what}: named graphs"), &g.0, &role(3))?;
	}
	queries(&c, &m).map_err(|e| format!("{what}: {e}"))?;
	let direct = C::collect_(&want);
	ck!(c == direct, "{what}: differs from one built directly");
	ck_eq!(h(&c), h(&direct), "{what}: hash");
	Ok(())
}

fn all_q(c: &IndexedBTreeDataset<u32>, m: &BTreeSet<Q<u32>>, pats: &[QPat<u32>]) -> vharness::R {
	for pat in pats {
		same_bag(&format!("matching {pat:?}"), c.pattern_matching(pat.canonical()).take(m.len() + 2).map(un_q).collect(), &q_matches(m, pat))?;
	}
	Ok(())
}
fn all_t(c: &IndexedBTreeGraph<u32>, m: &BTreeSet<T<u32>>, pats: &[QPat<u32>]) -> vharness::R {
	for p in pats.iter().filter(|p| p.g == Pos::Any) {
		let pat = TPat { s: p.s.clone(), p: p.p.clone(), o: p.o.clone() };
		same_bag(&format!("matching {pat:?}"), c.pattern_matching(pat.canonical()).take(m.len() + 2).map(un_t).collect(), &t_matches(m, &pat))?;
	}
	Ok(())
}

fn large(thorough: bool) -> Result<u64, String> {
	let t = |q: Q<u32>| (q.0, q.1, q.2);
	let one = |i: u32, x: u32| {
		let at = |k: u32| if i == k { Pos::Given(x) } else { Pos::Any };
		QPat { s: at(0), p: at(1), o: at(2), g: if i == 3 { Pos::Given(Some(x)) } else { Pos::Any } }
	};
	let mut pats = vec![one(0, 7), one(1, 100_003), one(2, 66_000), one(3, 200_003), one(3, 1), one(4, 0)];
	pats.push(QPat { s: Pos::Any, p: Pos::Any, o: Pos::Any, g: Pos::Given(None) });
	pats.push(QPat { s: Pos::Any, p: Pos::Any, o: Pos::Any, g: Pos::Same(0) });
	large_one("large graph", 66_500, scale_t, |g: BTreeGraph<u32>| g.into_indexed(), |c, m| all_t(c, m, &pats))?;
	large_one("large dataset", 66_500, scale_q, |d: BTreeDataset<u32>| d.into_indexed(), |c, m| all_q(c, m, &pats))?;
	let (p, m) = scale_of::<BTreeGraph<u32>>(5_000, |i| t(skew_q(2)(i)));
	let term = |x: &u32| LocalTerm::make(*x);
	let terms: BTreeSet<T<LocalTerm>> = m.iter().map(|s| (term(&s.0), term(&s.1), term(&s.2))).collect();
	ck_eq!(IndexedBTreeGraph::<u32>::from(p).len(), m.len(), "graph converted with From");
	let g = IndexedBTreeGraph::from(BTreeGraph::<LocalTerm>::collect_(&terms.iter().cloned().collect::<Vec<_>>()));
	ck!(g.items(terms.len() + 2).into_iter().eq(terms), "graph of terms converted with From");
	let (_, m) = scale_of::<BTreeDataset<u32>>(9_500, scale_q);
	let terms: BTreeSet<Q<LocalTerm>> = m.iter().map(|s| (term(&s.0), term(&s.1), term(&s.2), s.3.as_ref().map(term))).collect();
	let d: IndexedBTreeDataset = BTreeDataset::<LocalTerm>::collect_(&terms.iter().cloned().collect::<Vec<_>>()).into();
	ck!(d.items(terms.len() + 2).into_iter().eq(terms.iter().cloned()), "dataset of terms converted with From");
	for gr in [None, Some(term(&200_003)), Some(term(&6))] {
		let want: Vec<Q<LocalTerm>> = terms.iter().filter(|q| q.3 == gr).cloned().collect();
		let pat: QPat<LocalTerm> = QPat { s: Pos::Any, p: Pos::Any, o: Pos::Any, g: Pos::Given(gr.clone()) };
		same_bag(&format!("graph {gr:?} of the dataset of terms converted with From"), d.pattern_matching(pat.canonical()).take(want.len() + 2).map(un_q).collect(), &want)?;
	}
	let n = skew_n(thorough);
	for mask in SKEWS {
		let what = format!("content sharing {mask:05b}");
		large_one(&what, n, skew_q(mask), |d: BTreeDataset<u32>| d.into_indexed(), |c, m| all_q(c, m, &skew_pats(mask, 4001)))?;
		if mask < 8 {
			large_one(&what, n, |i| t(skew_q(mask)(i)), |g: BTreeGraph<u32>| g.into_indexed(), |c, m| all_t(c, m, &skew_pats(mask, 4001)))?;
		}
	}
	Ok(5 + 2 * SKEWS.len() as u64)
}

fn main() {
	main_with(Prop {
		id: "C10",
		rule: "a case is a random history on a plain container, its conversion, and a second history on the converted container, all queries compared with the model after the conversion and along the second history; large contents (one of over 66 000 statements and resources, others of thousands of statements mostly sharing one to three components, all partly removed and refilled) are checked first; non-trivial: the first history removed a present statement and at least 2 statements were converted",
		quick: 25_000,
		thorough: 2_000_000,
		assumptions: &["resource types with lawful Ord/Eq/Hash (u32, an order-scrambling type, LocalTerm)"],
		run,
		exhaustive: Some(large),
	})
}
