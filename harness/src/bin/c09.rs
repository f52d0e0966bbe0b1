//! C09: extraction and graph removal.
use rdf_types::dataset::*;
use rdf_types::LocalTerm;
use std::collections::BTreeSet;
use vharness::cont::*;
use vharness::gen::*;
use vharness::*;

/// Everything observable of the dataset agrees with the model.
fn full<R: Res>(cx: &mut Cx, rs: &[R], c: &IndexedBTreeDataset<R>, m: &BTreeSet<Q<R>>) -> vharness::R {
	check_set(cx, rs, c, m)?;
	let role = |i: usize| -> BTreeSet<R> { m.iter().filter_map(|s| s.parts()[i].cloned()).collect() };
	let cap = rs.len() + 2;
	let roles = c.roles(cap).unwrap();
	for i in 0..3 {
		same_set(&format!("role {i} listing"), &roles[i].0, &role(i))?;
	}
	same_set("named graphs", &c.graphs(cap).unwrap().0, &role(3))?;
	same_set("resources", &c.res(cap), &m.iter().flat_map(|s| s.parts()).flatten().cloned().collect())?;
	for _ in 0..4 {
		let pat = QPat::gen(cx, rs);
		same_bag(&format!("matching {pat:?}"), c.pattern_matching(pat.canonical()).take(m.len() + 2).map(un_q).collect(), &q_matches(m, &pat))?;
	}
	Ok(())
}

fn extract<R: Res>(cx: &mut Cx, rs: &[R], c: &mut IndexedBTreeDataset<R>, m: &mut BTreeSet<Q<R>>) -> vharness::R {
	let pat = QPat::gen(cx, rs);
	let want = q_matches(m, &pat);
	let stop = if cx.chance(1, 2) { want.len() + 2 } else { cx.us(want.len() + 1) };
	cx.log(|| format!("extract {pat:?}, at most {stop} of {}", want.len()));
	if !want.is_empty() && want.len() < m.len() {
		cx.class("partial match extraction");
		cx.nontrivial();
	}
	if stop < want.len() {
		cx.class("abandoned extraction");
	}
	let mut got = Vec::new();
	{
		let mut it = c.extract_pattern_matching(pat.canonical());
		while got.len() < stop {
			match it.next() {
				Some(q) => got.push(un_q(q.as_ref())),
				None => {
					ck!(it.next().is_none(), "exhausted extraction of {pat:?} yields again");
					break;
				}
			}
		}
	}
	let g: BTreeSet<Q<R>> = got.iter().cloned().collect();
	ck!(g.len() == got.len(), "extracting {pat:?} yields a quad twice: {got:?}");
	for q in &got {
		ck!(want.contains(q), "extracting {pat:?} yields {q:?}, which does not match or was not there");
		m.remove(q);
	}
	if stop > want.len() {
		same_bag(&format!("extracting {pat:?}"), got, &want)?;
	} else {
		ck!(got.len() == stop, "extracting {pat:?} stopped after {} quads out of {}", got.len(), want.len());
	}
	full(cx, rs, c, m).map_err(|e| format!("after the extraction: {e}"))
}

fn remove_graph<R: Res>(cx: &mut Cx, rs: &[R], c: &mut IndexedBTreeDataset<R>, m: &mut BTreeSet<Q<R>>) -> vharness::R {
	let g = if cx.chance(1, 3) { None } else { Some(cx.pick(rs).clone()) };
	cx.log(|| format!("remove graph {g:?}"));
	let want: BTreeSet<T<R>> = m.iter().filter(|q| q.3 == g).map(|q| (q.0.clone(), q.1.clone(), q.2.clone())).collect();
	let r = c.remove_graph(g.as_ref());
	ck_eq!(r.is_some(), g.is_none() || !want.is_empty(), "remove_graph({g:?}) reports existence");
	if let Some(mut gr) = r {
		check_set(cx, rs, &gr, &want).map_err(|e| format!("graph returned by remove_graph({g:?}): {e}"))?;
		// and it is a usable graph
		let t = T::gen(cx, rs);
		ck_eq!(gr.insert(tv(&t)), !want.contains(&t), "insertion in the removed graph");
	}
	let n = m.len();
	m.retain(|q| q.3 != g);
	if m.len() < n && !m.is_empty() {
		cx.class("graph removed among others");
		cx.nontrivial();
	}
	full(cx, rs, c, m).map_err(|e| format!("after removing graph {g:?}: {e}"))?;
	let again = c.remove_graph(g.as_ref());
	ck_eq!(again.map(|g| g.len()), if g.is_none() { Some(0) } else { None }, "second remove_graph({g:?})");
	Ok(())
}

fn case<R: Res>(cx: &mut Cx) -> vharness::R {
	let rs: Vec<R> = resources(cx);
	let mut c = IndexedBTreeDataset::<R>::new();
	let mut m = BTreeSet::new();
	let every = cx.range(3, 20);
	history(cx, &rs, &mut c, &mut m, false, |cx, c, m, _| match cx.below(2 * every) {
		0 => extract(cx, &rs, c, m),
		1 => remove_graph(cx, &rs, c, m),
		_ => Ok(()),
	})?;
	for _ in 0..cx.range(1, 4) {
		if cx.chance(2, 3) {
			extract(cx, &rs, &mut c, &mut m)?
		} else {
			remove_graph(cx, &rs, &mut c, &mut m)?
		}
	}
	Ok(())
}

fn run(cx: &mut Cx) -> vharness::R {
	match cx.below(4) {
		0 | 1 => case::<u32>(cx),
		2 => case::<Scrambled>(cx),
		_ => case::<LocalTerm>(cx),
	}
}

fn large(thorough: bool) -> Result<u64, String> {
	let (mut c, mut m) = scale::<IndexedBTreeDataset<u32>>(scale_q);
	let pats = [
		QPat { s: Pos::Given(7), p: Pos::Any, o: Pos::Any, g: Pos::Any },
		QPat { s: Pos::Any, p: Pos::Any, o: Pos::Given(66_000), g: Pos::Any },
		QPat { s: Pos::Any, p: Pos::Any, o: Pos::Any, g: Pos::Given(Some(200_003)) },
		QPat { s: Pos::Any, p: Pos::Given(100_002), o: Pos::Any, g: Pos::Any },
		QPat { s: Pos::Any, p: Pos::Any, o: Pos::Any, g: Pos::Same(0) },
	];
	for pat in &pats {
		let want = q_matches(&m, pat);
		let got: Vec<Q<u32>> = c.extract_pattern_matching(pat.canonical()).take(want.len() + 2).map(|q| un_q(q.as_ref())).collect();
		same_bag(&format!("extracting {pat:?}"), got, &want)?;
		for q in want {
			m.remove(&q);
		}
		ck_eq!(c.len(), m.len(), "len after extracting {pat:?}");
	}
	for g in [Some(200_007), None] {
		let want: Vec<T<u32>> = m.iter().filter(|q| q.3 == g).map(|q| (q.0, q.1, q.2)).collect();
		let got = c.remove_graph(g.as_ref());
		ck_eq!(got.map(|x| x.items(want.len() + 2)), Some(want), "graph returned by remove_graph({g:?})");
		m.retain(|q| q.3 != g);
	}
	let want: Vec<Q<u32>> = m.iter().cloned().collect();
	ck_eq!(c.items(m.len() + 2), want, "what is left");
	let mut n = pats.len() as u64 + 2;
	for mask in SKEWS {
		let (base, all) = scale_of::<IndexedBTreeDataset<u32>>(skew_n(thorough), skew_q(mask));
		for pat in skew_pats(mask, 4001) {
			let (mut c, mut m) = (base.clone(), all.clone());
			let want = q_matches(&m, &pat);
			let got: Vec<Q<u32>> = c.extract_pattern_matching(pat.canonical()).take(want.len() + 2).map(|q| un_q(q.as_ref())).collect();
			same_bag(&format!("extracting {pat:?} from a content sharing {mask:05b}"), got, &want)?;
			for q in want {
				m.remove(&q);
			}
			ck!(c.items(m.len() + 2).into_iter().eq(m), "what is left after extracting {pat:?} from a content sharing {mask:05b}");
			n += 1;
		}
		let g = if mask & 16 != 0 { None } else { Some(HUB) };
		let want: Vec<T<u32>> = all.iter().filter(|q| q.3 == g).map(|q| (q.0, q.1, q.2)).collect();
		let mut c = base;
		let got = c.remove_graph(g.as_ref()).map_or(vec![], |x| x.items(want.len() + 2));
		ck!(got == want, "graph {g:?} removed from a content sharing {mask:05b}");
		ck_eq!(c.len(), all.len() - want.len(), "statements left after removing graph {g:?} from a content sharing {mask:05b}");
		n += 1;
	}
	Ok(n)
}

fn main() {
	main_with(Prop {
		id: "C09",
		rule: "a case is a random history on an indexed dataset interleaved with complete or abandoned extractions and graph removals, conservation and full consistency checked after each; large contents (one of over 66 000 statements and resources, others of thousands of statements mostly sharing one to three components, all partly removed and refilled) are checked first; non-trivial: an extraction or removal that takes some but not all quads",
		quick: 100_000,
		thorough: 3_000_000,
		assumptions: &["resource types with lawful Ord/Eq/Hash (u32, an order-scrambling type, LocalTerm)"],
		run,
		exhaustive: Some(large),
	})
}
