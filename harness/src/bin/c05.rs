//! C05: quad pattern matching on an indexed dataset.
use rdf_types::dataset::*;
use rdf_types::LocalTerm;
use std::collections::BTreeSet;
use vharness::cont::*;
use vharness::gen::*;
use vharness::*;

fn check<R: Res>(c: &IndexedBTreeDataset<R>, m: &BTreeSet<Q<R>>, pat: &QPat<R>) -> Result<usize, String> {
	let want = q_matches(m, pat);
	let cap = m.len() + 2;
	let mut it = c.pattern_matching(pat.canonical());
	let mut got = Vec::new();
	while got.len() < cap {
		match it.next() {
			Some(t) => got.push(un_q(t)),
			None => {
				for _ in 0..2 {
					ck!(it.next().is_none(), "exhausted matcher of {pat:?} yields again");
				}
				break;
			}
		}
	}
	same_bag(&format!("matching {pat:?}"), got, &want)?;
	let got: Vec<_> = c.quad_pattern_matching(pat.canonical()).take(cap).map(un_q).collect();
	same_bag(&format!("matching {pat:?} through the trait"), got, &want)?;
	if want.len() < 50 && (want.len() + m.len()) % 4 == 0 {
		iter_laws(&format!("matching {pat:?}"), want.len(), m.len() / 2, || c.pattern_matching(pat.canonical()).map(un_q))?;
	}
	Ok(want.len())
}

fn case<R: Res>(cx: &mut Cx) -> vharness::R {
	let all: Vec<R> = resources(cx);
	// some resources may be unknown to the graph
	let k = if all.len() > 1 && cx.chance(1, 2) { all.len() - 1 } else { all.len() };
	let rs = &all[..k];
	let mut c = IndexedBTreeDataset::<R>::new();
	let mut m = BTreeSet::new();
	let (mut hit, mut holes) = (false, false);
	let mut checks = 0;
	history(cx, rs, &mut c, &mut m, false, |cx, c, m, st| {
		holes |= st.op == 2 || st.op == 8;
		if cx.chance(1, 5) {
			let pat = QPat::gen(cx, &all);
			let n = check(c, m, &pat)?;
			checks += 1;
			if n > 0 && n < m.len() {
				hit = true;
			}
			if n == 0 {
				cx.class("pattern without match");
			}
		}
		Ok(())
	})?;
	if all.len() <= 2 || (all.len() <= 3 && cx.chance(1, 4)) {
		cx.class("all patterns over the universe");
		for pat in QPat::all(&all) {
			let n = check(&c, &m, &pat)?;
			hit |= n > 0 && n < m.len();
		}
	} else {
		for _ in 0..12 {
			let pat = QPat::gen(cx, &all);
			cx.log(|| format!("match {pat:?}"));
			let n = check(&c, &m, &pat)?;
			hit |= n > 0 && n < m.len();
		}
	}
	if hit && holes {
		cx.nontrivial();
	}
	Ok(())
}

fn run(cx: &mut Cx) -> vharness::R {
	match cx.below(4) {
		0 | 1 => case::<u32>(cx),
		2 => case::<Scrambled>(cx),
		_ => case::<LocalTerm>(cx),
	}
}

fn large(thorough: bool) -> Result<u64, String> {
	let (c, m) = scale::<IndexedBTreeDataset<u32>>(scale_q);
	let mut n = 0;
	for i in [1, 299, 256, 65_535, 65_536, 66_499] {
		let (s, p, o, g) = scale_q(i);
		for t in TPat::all(&[s, p, o]) {
			let mut gs = vec![Pos::Any, Pos::Given(None), Pos::Given(g), Pos::Given(Some(o))];
			if matches!(t.s, Pos::Any) {
				gs.push(Pos::Same(0));
			}
			for g in gs {
				let pat = QPat { s: t.s.clone(), p: t.p.clone(), o: t.o.clone(), g };
				if !matches!(pat.s, Pos::Any) && matches!(pat.p, Pos::Given(_)) && (i > 1000 || matches!(pat.o, Pos::Given(_))) {
					check(&c, &m, &pat)?;
					n += 1;
				}
			}
		}
	}
	for pat in [
		QPat { s: Pos::Any, p: Pos::Any, o: Pos::Any, g: Pos::Same(0) },
		QPat { s: Pos::Any, p: Pos::Given(100_003), o: Pos::Any, g: Pos::Any },
		QPat { s: Pos::Any, p: Pos::Any, o: Pos::Given(66_000), g: Pos::Any },
		QPat { s: Pos::Any, p: Pos::Any, o: Pos::Given(66_000), g: Pos::Given(None) },
		QPat { s: Pos::Any, p: Pos::Any, o: Pos::Any, g: Pos::Given(Some(200_003)) },
		QPat { s: Pos::Any, p: Pos::Any, o: Pos::Any, g: Pos::Given(None) },
		QPat { s: Pos::Any, p: Pos::Any, o: Pos::Any, g: Pos::Any },
	] {
		check(&c, &m, &pat)?;
		n += 1;
	}
	for mask in SKEWS {
		let (c, m) = scale_of::<IndexedBTreeDataset<u32>>(skew_n(thorough), skew_q(mask));
		for pat in skew_pats(mask, 4001).into_iter().chain(skew_pats(mask, 4000)) {
			check(&c, &m, &pat).map_err(|e| format!("content sharing {mask:05b}: {e}"))?;
			n += 1;
		}
	}
	Ok(n)
}

fn main() {
	main_with(Prop {
		id: "C05",
		rule: "a case is a random history on an indexed dataset with patterns matched during and after it (all patterns over the universe when it is small), compared with filtering the modelled quads; large contents (one of over 66 000 statements and resources, others of thousands of statements mostly sharing one to three components, all partly removed and refilled) are checked first; non-trivial: the history removes a quad and some pattern matches some but not all quads",
		quick: 200_000,
		thorough: 3_000_000,
		assumptions: &["resource types with lawful Ord/Eq/Hash (u32, an order-scrambling type, LocalTerm)"],
		run,
		exhaustive: Some(large),
	})
}
