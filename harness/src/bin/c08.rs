//! C08: multi-valued pattern matching.
use rdf_types::dataset::*;
use rdf_types::pattern::CanonicalQuadPattern;
use rdf_types::LocalTerm;
use std::collections::BTreeSet;
use vharness::cont::*;
use vharness::gen::*;
use vharness::*;

/// A multi-valued pattern: every given position carries a list of candidates.
fn multi<R: Res>(cx: &mut Cx, rs: &[R]) -> QPat<Vec<R>> {
	// shape first, then candidate lists
	let lists: Vec<Vec<R>> = (0..6)
		.map(|_| {
			let n = match cx.weighted(&[24, 24, 12, 4, 4, 1]) {
				0 => 1,
				1 => 2,
				2 => 3,
				3 => 0,
				4 => rs.len() + 1,
				_ => cx.range(4, 80) as usize,
			};
			let mut v: Vec<R> = Vec::new();
			for _ in 0..n {
				let r = if !v.is_empty() && cx.chance(1, 4) { v[0].clone() } else { cx.pick(rs).clone() };
				v.push(r);
			}
			v
		})
		.collect();
	QPat::gen(cx, &lists)
}

fn accepts<R: Res>(p: &QPat<Vec<R>>, q: &Q<R>) -> bool {
	fn pos<R: PartialEq>(p: &Pos<Vec<R>>, v: &R, prev: &[&R]) -> bool {
		match p {
			Pos::Any => true,
			Pos::Given(l) => l.contains(v),
			Pos::Same(i) => prev[*i] == v,
		}
	}
	pos(&p.s, &q.0, &[])
		&& pos(&p.p, &q.1, &[&q.0])
		&& pos(&p.o, &q.2, &[&q.0, &q.1])
		&& match &p.g {
			Pos::Any => true,
			Pos::Given(None) => q.3.is_none(),
			Pos::Given(Some(l)) => q.3.as_ref().is_some_and(|g| l.contains(g)),
			Pos::Same(i) => q.3.as_ref() == Some([&q.0, &q.1, &q.2][*i]),
		}
}

fn check<R: Res>(c: &IndexedBTreeDataset<R>, m: &BTreeSet<Q<R>>, pat: &QPat<Vec<R>>) -> Result<usize, String> {
	let cap = m.len() + 2;
	let want: Vec<Q<R>> = m.iter().filter(|q| accepts(pat, q)).cloned().collect();
	let p: CanonicalQuadPattern<&Vec<R>> = pat.canonical();
	let mut it = c.multi_pattern_matching(p);
	let mut got = Vec::new();
	while got.len() < cap {
		match it.next() {
			Some(q) => got.push(un_q(q)),
			None => {
				ck!(it.next().is_none(), "exhausted matcher of {pat:?} yields again");
				break;
			}
		}
	}
	same_bag(&format!("multi matching {pat:?}"), got, &want)?;
	let got: Vec<Q<R>> = c.quad_multi_pattern_matching(p).take(cap).map(un_q).collect();
	same_bag(&format!("multi matching {pat:?} through the trait"), got, &want)?;
	if want.len() < 50 && (want.len() + m.len()) % 4 == 0 {
		iter_laws(&format!("multi matching {pat:?}"), want.len(), m.len() / 2, || c.multi_pattern_matching(p).map(un_q))?;
	}
	Ok(want.len())
}

fn case<R: Res>(cx: &mut Cx) -> vharness::R {
	let all: Vec<R> = resources(cx);
	let k = if all.len() > 1 && cx.chance(1, 2) { all.len() - 1 } else { all.len() };
	let rs = &all[..k];
	let mut c = IndexedBTreeDataset::<R>::new();
	let mut m = BTreeSet::new();
	history(cx, rs, &mut c, &mut m, false, |cx, c, m, _| {
		if cx.chance(1, 10) {
			let pat = multi(cx, &all);
			cx.log(|| format!("match {pat:?}"));
			check(c, m, &pat)?;
		}
		Ok(())
	})?;
	for _ in 0..8 {
		let pat = multi(cx, &all);
		cx.log(|| format!("match {pat:?}"));
		let n = check(&c, &m, &pat)?;
		if n > 0 && n < m.len() {
			cx.nontrivial();
		}
	}
	Ok(())
}

fn run(cx: &mut Cx) -> vharness::R {
	match cx.below(4) {
		0 | 1 => case::<u32>(cx),
		2 => case::<Scrambled>(cx),
		_ => case::<LocalTerm>(cx),
	}
}

fn large(thorough: bool) -> Result<u64, String> {
	let (c, m) = scale::<IndexedBTreeDataset<u32>>(scale_q);
	let v = |x: &[u32]| x.to_vec();
	let pats = [
		QPat { s: Pos::Given((0..300).rev().collect()), p: Pos::Any, o: Pos::Any, g: Pos::Any },
		QPat { s: Pos::Any, p: Pos::Given(v(&[100_005, 3, 100_001])), o: Pos::Any, g: Pos::Given(Some(v(&[200_001, 200_000, 7]))) },
		QPat { s: Pos::Given(v(&[9, 299, 0])), p: Pos::Given(v(&[100_005, 100_001])), o: Pos::Given((60_000..66_700).collect()), g: Pos::Any },
		QPat { s: Pos::Any, p: Pos::Any, o: Pos::Given((60_000..70_700).rev().collect()), g: Pos::Same(0) },
		QPat { s: Pos::Any, p: Pos::Given(v(&[100_005, 100_001])), o: Pos::Any, g: Pos::Given(None) },
	];
	for pat in &pats {
		check(&c, &m, pat)?;
	}
	let mut n = pats.len() as u64;
	for mask in SKEWS {
		let (c, m) = scale_of::<IndexedBTreeDataset<u32>>(skew_n(thorough), skew_q(mask));
		for pat in skew_pats(mask, 4001) {
			let many = |k: u32, x: Pos<u32>| match x {
				Pos::Given(x) => Pos::Given(vec![k * 1_000_000 + 8, x, k * 1_000_000 + 5_000]),
				Pos::Any => Pos::Any,
				Pos::Same(i) => Pos::Same(i),
			};
			let g = match pat.g {
				Pos::Given(None) => Pos::Given(None),
				Pos::Given(Some(x)) => Pos::Given(Some(vec![4_000_008, x])),
				Pos::Any => Pos::Any,
				Pos::Same(i) => Pos::Same(i),
			};
			check(&c, &m, &QPat { s: many(1, pat.s), p: many(2, pat.p), o: many(3, pat.o), g }).map_err(|e| format!("content sharing {mask:05b}: {e}"))?;
			n += 1;
		}
	}
	Ok(n)
}

fn main() {
	main_with(Prop {
		id: "C08",
		rule: "a case is a random history on an indexed dataset with random multi-valued patterns (candidate lists possibly empty, repeated, or with unknown resources) compared with filtering the modelled quads; large contents (one of over 66 000 statements and resources, others of thousands of statements mostly sharing one to three components, all partly removed and refilled) are checked first; non-trivial: some pattern matches some but not all quads",
		quick: 250_000,
		thorough: 3_000_000,
		assumptions: &["resource types with lawful Ord/Eq/Hash (u32, an order-scrambling type, LocalTerm)"],
		run,
		exhaustive: Some(large),
	})
}
