//! C16: triple pattern maps.
use rdf_types::pattern::triple::canonical as tc;
use rdf_types::pattern::triple::map::*;
use rdf_types::pattern::*;
use rdf_types::{LocalTerm, Triple};
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use vharness::cont::*;
use vharness::gen::*;
use vharness::*;

/// Value whose hash collides with that of many others.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct V(u32);
impl Hash for V {
	fn hash<H: Hasher>(&self, state: &mut H) {
		(self.0 % 3).hash(state)
	}
}

/// Resource whose hash says nothing.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Colliding(u32);
impl Hash for Colliding {
	fn hash<H: Hasher>(&self, state: &mut H) {
		0u8.hash(state)
	}
}
impl Res for Colliding {
	fn make(i: u32) -> Self {
		Colliding(i)
	}
}

fn own<X: Clone>(p: CanonicalTriplePattern<&X>) -> CanonicalTriplePattern<X> {
	use CanonicalTriplePattern as K;
	fn agp<X: Clone>(x: tc::AnySubjectGivenPredicate<&X>) -> tc::AnySubjectGivenPredicate<X> {
		use tc::AnySubjectGivenPredicate as E;
		match x {
			E::AnyObject => E::AnyObject,
			E::SameAsSubject => E::SameAsSubject,
			E::GivenObject(o) => E::GivenObject(o.clone()),
		}
	}
	match p {
		K::AnySubject(x) => K::AnySubject(match x {
			tc::AnySubject::AnyPredicate(x) => tc::AnySubject::AnyPredicate({
				use tc::AnySubjectAnyPredicate as E;
				match x {
					E::AnyObject => E::AnyObject,
					E::SameAsSubject => E::SameAsSubject,
					E::SameAsPredicate => E::SameAsPredicate,
					E::GivenObject(o) => E::GivenObject(o.clone()),
				}
			}),
			tc::AnySubject::SameAsSubject(x) => tc::AnySubject::SameAsSubject(agp(x)),
			tc::AnySubject::GivenPredicate(p, x) => tc::AnySubject::GivenPredicate(p.clone(), agp(x)),
		}),
		K::GivenSubject(s, x) => K::GivenSubject(
			s.clone(),
			match x {
				tc::GivenSubject::AnyPredicate(x) => tc::GivenSubject::AnyPredicate({
					use tc::GivenSubjectAnyPredicate as E;
					match x {
						E::AnyObject => E::AnyObject,
						E::SameAsPredicate => E::SameAsPredicate,
						E::GivenObject(o) => E::GivenObject(o.clone()),
					}
				}),
				tc::GivenSubject::GivenPredicate(p, x) => tc::GivenSubject::GivenPredicate(
					p.clone(),
					match x {
						tc::GivenSubjectGivenPredicate::AnyObject => tc::GivenSubjectGivenPredicate::AnyObject,
						tc::GivenSubjectGivenPredicate::GivenObject(o) => tc::GivenSubjectGivenPredicate::GivenObject(o.clone()),
					},
				),
			},
		),
	}
}

fn full<X: Res>(cx: &mut Cx, rs: &[X]) -> R {
	let mut m: TriplePatternMap<V, X> = TriplePatternMap::default();
	let mut model: BTreeSet<(TPat<X>, V)> = BTreeSet::new();
	let big = cx.chance(1, 80);
	let steps = if big { cx.range(100, 1500) } else { cx.range(0, 30) };
	let vals = if big { cx.range(1, 400) } else { cx.range(1, 6) };
	for _ in 0..steps {
		let p = TPat::gen(cx, rs);
		let v = V(cx.below(vals) as u32);
		cx.log(|| format!("insert {p:?} -> {v:?}"));
		let new = m.insert(own(p.canonical()), v);
		ck_eq!(new, model.insert((p.clone(), v)), "insert({p:?}, {v:?})");
		if cx.chance(1, if big { 50 } else { 4 }) {
			lookup(cx, rs, &m, &model)?;
		}
	}
	for _ in 0..6 {
		lookup(cx, rs, &m, &model)?;
	}
	if model.len() >= 3 {
		cx.nontrivial();
	}
	Ok(())
}

fn lookup<X: Res>(cx: &mut Cx, rs: &[X], m: &TriplePatternMap<V, X>, model: &BTreeSet<(TPat<X>, V)>) -> R {
	let t = T::<X>::gen(cx, rs);
	let want: Vec<V> = model.iter().filter(|(p, _)| p.accepts(&t.0, &t.1, &t.2)).map(|e| e.1).collect();
	if want.len() > 1 {
		cx.class("lookup with several values");
	}
	if want.len() % 2 == 1 {
		iter_laws(&format!("values for {t:?}"), want.len(), want.len() / 2, || m.get(Triple(&t.0, &t.1, &t.2)))?;
	}
	same_bag(&format!("values for {t:?}"), m.get(Triple(&t.0, &t.1, &t.2)).take(model.len() + 2).copied().collect(), &want)
}

/// Sub-maps: insertions into several maps merged in some order.
macro_rules! sub {
	($f:ident, $map:ident, $proj:expr) => {
		fn $f<X: Res>(cx: &mut Cx, rs: &[X]) -> R {
			type M<X> = $map<V, X>;
			let n = cx.range(2, 4) as usize;
			let mut maps: Vec<(M<X>, BTreeSet<(TPat<X>, V)>)> = (0..n).map(|_| (M::default(), BTreeSet::new())).collect();
			let big = cx.chance(1, 80);
			let vals = cx.range(1, if big { 200 } else { 6 });
			let ops = if big { cx.range(50, 600) } else { cx.range(1, 24) };
			for _ in 0..ops {
				if cx.chance(1, if big { 100 } else { 6 }) && maps.len() > 1 {
					let (b, mb) = maps.remove(cx.us(maps.len()));
					let i = cx.us(maps.len());
					let (a, ma) = &mut maps[i];
					cx.log(|| format!("union of {ma:?} with {mb:?}"));
					a.union_with(b);
					if !ma.is_disjoint(&mb) || (!ma.is_empty() && !mb.is_empty()) {
						cx.class("union of non-empty maps");
						cx.nontrivial();
					}
					ma.extend(mb);
					continue;
				}
				let p = TPat::gen(cx, rs);
				let v = V(cx.below(vals) as u32);
				let proj = $proj;
				// keep what the sub-map distinguishes
				if let Some((rest, shown)) = proj(own(p.canonical())) {
					let i = cx.us(maps.len());
					let (m, model) = &mut maps[i];
					cx.log(|| format!("map {i}: insert {shown:?} -> {v:?}"));
					let new = m.insert(rest, v);
					ck_eq!(new, model.insert((shown.clone(), v)), "{}: insert({shown:?}, {v:?})", stringify!($map));
				}
			}
			for (m, model) in &maps {
				for _ in 0..6 {
					let t = T::<X>::gen(cx, rs);
					let want: Vec<V> = model.iter().filter(|(p, _)| p.accepts(&t.0, &t.1, &t.2)).map(|e| e.1).collect();
					same_bag(&format!("{}: values for {t:?} with entries {model:?}", stringify!($map)), m.get(Triple(&t.0, &t.1, &t.2)).take(model.len() + 2).copied().collect(), &want)?;
				}
			}
			Ok(())
		}
	};
}
use CanonicalTriplePattern as K;
type Pr<X, Y> = Option<(Y, TPat<X>)>;
fn shown<X: Clone>(k: &K<X>, s: bool, p: bool) -> TPat<X> {
	let mut t = TPat::read(k.clone());
	if s {
		t.s = Pos::Any;
	}
	if p {
		t.p = Pos::Any;
	}
	t
}
sub!(any_subject, AnySubjectMap, |k: K<X>| -> Pr<X, tc::AnySubject<X>> {
	let t = shown(&k, false, false);
	match k {
		K::AnySubject(x) => Some((x, t)),
		_ => None,
	}
});
sub!(given_subject, GivenSubjectMap, |k: K<X>| -> Pr<X, tc::GivenSubject<X>> {
	// a given-subject map does not know its subject
	let t = shown(&k, true, false);
	match k {
		K::GivenSubject(_, x) => Some((x, t)),
		_ => None,
	}
});
sub!(any_subject_any_predicate, AnySubjectAnyPredicateMap, |k: K<X>| -> Pr<X, tc::AnySubjectAnyPredicate<X>> {
	let t = shown(&k, false, false);
	match k {
		K::AnySubject(tc::AnySubject::AnyPredicate(x)) => Some((x, t)),
		_ => None,
	}
});
sub!(any_subject_given_predicate, AnySubjectGivenPredicateMap, |k: K<X>| -> Pr<X, tc::AnySubjectGivenPredicate<X>> {
	let t = shown(&k, false, true);
	match k {
		K::AnySubject(tc::AnySubject::GivenPredicate(_, x)) => Some((x, t)),
		K::AnySubject(tc::AnySubject::SameAsSubject(x)) => Some((x, t)),
		_ => None,
	}
});
sub!(given_subject_any_predicate, GivenSubjectAnyPredicateMap, |k: K<X>| -> Pr<X, tc::GivenSubjectAnyPredicate<X>> {
	let t = shown(&k, true, false);
	match k {
		K::GivenSubject(_, tc::GivenSubject::AnyPredicate(x)) => Some((x, t)),
		_ => None,
	}
});
sub!(given_subject_given_predicate, GivenSubjectGivenPredicateMap, |k: K<X>| -> Pr<X, tc::GivenSubjectGivenPredicate<X>> {
	let t = shown(&k, true, true);
	match k {
		K::GivenSubject(_, tc::GivenSubject::GivenPredicate(_, x)) => Some((x, t)),
		_ => None,
	}
});

fn case<X: Res>(cx: &mut Cx) -> R {
	let n = if cx.chance(1, 30) { cx.range(4, 60) } else { cx.range(1, 4) } as u32;
	let rs: Vec<X> = (0..n).map(X::make).collect();
	match cx.below(10) {
		0 => any_subject(cx, &rs),
		1 => given_subject(cx, &rs),
		2 => any_subject_any_predicate(cx, &rs),
		3 => any_subject_given_predicate(cx, &rs),
		4 => given_subject_any_predicate(cx, &rs),
		5 => given_subject_given_predicate(cx, &rs),
		_ => full(cx, &rs),
	}
}

fn run(cx: &mut Cx) -> R {
	match cx.below(5) {
		0 | 1 => case::<u32>(cx),
		2 => case::<Colliding>(cx),
		_ => case::<LocalTerm>(cx),
	}
}

/// Maps with thousands of entries below the same resources, and below as many different ones.
fn large(thorough: bool) -> Result<u64, String> {
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
	struct W(u32);
	let n = if thorough { 200_000 } else { 66_500 };
	let mut count = 0;
	let hubs = TPat::all(&[1u32, 2]);
	for pat in &hubs {
		// one pattern, many values
		let n = if thorough { n } else { 2_500 };
		let mut m: TriplePatternMap<W, u32> = TriplePatternMap::default();
		for i in 0..n {
			ck!(m.insert(own(pat.canonical()), W(i)), "value {i} of {pat:?} is not new");
		}
		ck!(!m.insert(own(pat.canonical()), W(n / 2)), "value {} of {pat:?} is new again", n / 2);
		for t in [(1, 1, 1), (1, 2, 1), (2, 1, 1), (1, 1, 2), (2, 2, 2), (3, 3, 3), (1, 2, 3)] {
			let mut got: Vec<W> = m.get(Triple(&t.0, &t.1, &t.2)).take(n as usize + 2).copied().collect();
			got.sort_unstable();
			let want = if pat.accepts(&t.0, &t.1, &t.2) { n } else { 0 };
			ck!(got.iter().copied().eq((0..want).map(W)), "{n} values for {pat:?}: {} of them for {t:?}, expected {want}", got.len());
		}
		count += 1;
	}
	for k in 1..8u32 {
		// many patterns of one form
		let at = |i: u32| {
			let pos = |j: u32| if k & (1 << j) != 0 { Pos::Given(i * 3 + j) } else { Pos::Any };
			TPat { s: pos(0), p: pos(1), o: pos(2) }
		};
		let mut m: TriplePatternMap<W, u32> = TriplePatternMap::default();
		for i in 0..n {
			ck!(m.insert(own(at(i).canonical()), W(i)), "pattern {:?} is not new", at(i));
		}
		for i in (0..n).step_by(11).chain([255, 256, 65_535, 65_536]) {
			let t = (i * 3, i * 3 + 1, i * 3 + 2);
			let got: Vec<W> = m.get(Triple(&t.0, &t.1, &t.2)).take(3).copied().collect();
			ck_eq!(got, vec![W(i)], "values for {t:?} among {n} patterns like {:?}", at(0));
		}
		let got = m.get(Triple(&(n * 3), &(n * 3 + 1), &(n * 3 + 2))).count();
		ck_eq!(got, 0, "values for an unknown triple among {n} patterns like {:?}", at(0));
		count += 1;
	}
	Ok(count)
}

fn main() {
	main_with(Prop {
		id: "C16",
		rule: "a case is a history of insertions into a pattern map (or insertions into and unions of sub-maps), with lookups of random triples compared with a list of (pattern, value) entries filtered by the reference pattern meaning; maps with thousands of values under one pattern (each of the patterns over two resources) and with 66 500 patterns of one form are checked first; non-trivial: at least 3 entries, or a union of two non-empty sub-maps",
		quick: 800_000,
		thorough: 6_000_000,
		assumptions: &["resource and value types with lawful Eq/Hash"],
		run,
		exhaustive: Some(large),
	})
}
