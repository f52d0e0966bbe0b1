//! C11: equality, ordering, hashing and text of containers.
use rdf_types::dataset::*;
use rdf_types::{LocalTerm, RdfDisplay};
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use vharness::cont::*;
use vharness::gen::*;
use vharness::*;

fn h<X: Hash>(x: &X) -> (u64, u64) {
	hashes(x)
}

/// A container with content `m`, with some history of its own.
fn build<R: Res, C: Cont<R>>(cx: &mut Cx, m: &BTreeSet<C::S>, rs: &[R]) -> Result<C, String> {
	let mut c = C::new_();
	match cx.below(3) {
		0 => c = C::collect_(&m.iter().cloned().collect::<Vec<_>>()),
		1 => refill(cx, &mut c, m, rs)?,
		_ => {
			// arbitrary start, then fixed up
			let k = cx.below(12);
			for _ in 0..k {
				c.insert_(&C::S::gen(cx, rs));
			}
			let have = c.items(k as usize + 2);
			for s in have {
				if !m.contains(&s) {
					c.remove_(&s);
				}
			}
			let mut v: Vec<C::S> = m.iter().cloned().collect();
			v.reverse();
			c.extend_(&v);
		}
	}
	Ok(c)
}

fn case<R: Res, C: Cont<R>>(cx: &mut Cx, text: Option<fn(&C) -> String>) -> vharness::R {
	let rs: Vec<R> = resources(cx);
	cx.log(|| format!("{} over {} resources", C::NAME, rs.len()));
	let n = *cx.pick(&[0u64, 1, 2, 3, 5, 9, 20, 60]);
	let n = if rs.len() > 5 && cx.chance(1, 25) { cx.range(60, 400) } else { cx.range(0, n) };
	let a: BTreeSet<C::S> = (0..n).map(|_| C::S::gen(cx, &rs)).collect();
	// related contents
	let mut ms = vec![a.clone()];
	for _ in 0..2 {
		let mut b = a.clone();
		match cx.below(5) {
			0 => (),
			1 => {
				b.insert(C::S::gen(cx, &rs));
			}
			2 => {
				if let Some(x) = b.iter().nth(cx.us(b.len().max(1))).cloned() {
					b.remove(&x);
				}
			}
			3 => {
				if let Some(x) = b.iter().nth(cx.us(b.len().max(1))).cloned() {
					b.remove(&x);
					b.insert(C::S::gen(cx, &rs));
				}
			}
			_ => b = (0..n).map(|_| C::S::gen(cx, &rs)).collect(),
		}
		ms.push(b);
	}
	let mut cs: Vec<C> = Vec::new();
	for m in &ms {
		cx.log(|| format!("content {m:?}"));
		cs.push(build(cx, m, &rs)?);
	}
	// one more copy of the first, another way
	ms.push(a.clone());
	cs.push(match cx.below(3) {
		0 => build(cx, &a, &rs)?,
		1 => cs[0].clone(),
		_ => C::collect_(&cs[0].clone().owned(a.len() + 2)),
	});
	let mut eqs = 0;
	for i in 0..cs.len() {
		for j in 0..cs.len() {
			let want = ms[i] == ms[j];
			eqs += (want && i != j) as u32;
			ck_eq!(cs[i] == cs[j], want, "equality of contents {:?} and {:?}", ms[i], ms[j]);
			ck_eq!(cs[i] != cs[j], !want, "inequality of contents {:?} and {:?}", ms[i], ms[j]);
			// the order of BTreeSet is the lexicographic order of sorted elements
			let ord = ms[i].cmp(&ms[j]);
			ck_eq!(cs[i].cmp(&cs[j]), ord, "ordering of contents {:?} and {:?}", ms[i], ms[j]);
			ck_eq!(cs[i].partial_cmp(&cs[j]), Some(ord), "partial ordering of contents {:?} and {:?}", ms[i], ms[j]);
			ck_eq!(cs[i] < cs[j], ord.is_lt(), "< on contents {:?} and {:?}", ms[i], ms[j]);
			if want {
				ck_eq!(h(&cs[i]), h(&cs[j]), "hashes of two containers with content {:?}", ms[i]);
				ck_eq!(format!("{:?}", cs[i]), format!("{:?}", cs[j]), "debug forms of two containers with content {:?}", ms[i]);
				if let Some(t) = text {
					ck_eq!(t(&cs[i]), t(&cs[j]), "RDF texts of two containers with content {:?}", ms[i]);
				}
			}
		}
	}
	let distinct: BTreeSet<&BTreeSet<C::S>> = ms.iter().collect();
	if distinct.len() >= 2 && a.len() >= 2 {
		cx.nontrivial();
	}
	if eqs > 2 {
		cx.class("three or more equal containers");
	}
	Ok(())
}

fn txt<X: RdfDisplay>(x: &X) -> String {
	x.rdf_display().to_string()
}

fn run(cx: &mut Cx) -> vharness::R {
	match cx.below(12) {
		0 => case::<u32, BTreeGraph<u32>>(cx, None),
		1 => case::<u32, IndexedBTreeGraph<u32>>(cx, None),
		2 => case::<u32, BTreeDataset<u32>>(cx, None),
		3 => case::<u32, IndexedBTreeDataset<u32>>(cx, None),
		4 => case::<Scrambled, BTreeGraph<Scrambled>>(cx, None),
		5 => case::<Scrambled, IndexedBTreeGraph<Scrambled>>(cx, None),
		6 => case::<Scrambled, BTreeDataset<Scrambled>>(cx, None),
		7 => case::<Scrambled, IndexedBTreeDataset<Scrambled>>(cx, None),
		8 => case::<LocalTerm, BTreeGraph<LocalTerm>>(cx, Some(txt)),
		9 => case::<LocalTerm, IndexedBTreeGraph<LocalTerm>>(cx, Some(txt)),
		10 => case::<LocalTerm, BTreeDataset<LocalTerm>>(cx, Some(txt)),
		_ => case::<LocalTerm, IndexedBTreeDataset<LocalTerm>>(cx, Some(txt)),
	}
}

fn main() {
	main_with(Prop {
		id: "C11",
		rule: "a case builds four containers of one kind, with equal or slightly different contents, through different histories, and compares ==, cmp, hash, debug and RDF text of all pairs with the modelled contents; non-trivial: at least two distinct contents and at least 2 statements",
		quick: 300_000,
		thorough: 3_000_000,
		assumptions: &["resource types with lawful Ord/Eq/Hash (u32, an order-scrambling type, LocalTerm)"],
		run,
		exhaustive: None,
	})
}
