//! C12: dataset isomorphism.
use iref::{Iri, IriBuf};
use rdf_types::dataset::isomorphism::*;
use rdf_types::dataset::*;
use rdf_types::interpretation::*;
use rdf_types::{CowLiteral, Literal, LiteralRef, LiteralType, LocalTerm, Term};
use std::borrow::Cow;
use std::collections::BTreeSet;
use vharness::cont::*;
use vharness::gen::*;
use vharness::toy::*;
use vharness::*;

type QI = Q<u32>;
type DI = BTreeSet<QI>;

/// Resources `0..NAMED0` are blank, the others named.
const NAMED0: u32 = 100;

fn map_q(q: &QI, f: &dyn Fn(u32) -> u32) -> QI {
	let g = |x: u32| if x < NAMED0 { f(x) } else { x };
	(g(q.0), g(q.1), g(q.2), q.3.map(g))
}

fn blanks(d: &DI) -> Vec<u32> {
	let s: BTreeSet<u32> = d.iter().flat_map(|q| [Some(q.0), Some(q.1), Some(q.2), q.3]).flatten().filter(|x| *x < NAMED0).collect();
	s.into_iter().collect()
}

/// Reference: does some bijection between the blank nodes turn `a` into `b`? Exhaustive.
fn brute(a: &DI, b: &DI) -> bool {
	let (ba, bb) = (blanks(a), blanks(b));
	if a.len() != b.len() || ba.len() != bb.len() {
		return false;
	}
	fn rec(i: usize, ba: &[u32], bb: &[u32], used: &mut Vec<bool>, m: &mut Vec<u32>, a: &DI, b: &DI) -> bool {
		if i == ba.len() {
			return a.iter().all(|q| b.contains(&map_q(q, &|x| m[ba.iter().position(|y| *y == x).unwrap()])));
		}
		for j in 0..bb.len() {
			if !used[j] {
				used[j] = true;
				m.push(bb[j]);
				if rec(i + 1, ba, bb, used, m, a, b) {
					return true;
				}
				m.pop();
				used[j] = false;
			}
		}
		false
	}
	rec(0, &ba, &bb, &mut vec![false; bb.len()], &mut Vec::new(), a, b)
}

fn node(cx: &mut Cx, nb: u32, nn: u32, blank: u64) -> u32 {
	if nb > 0 && (nn == 0 || cx.chance(blank, 10)) {
		cx.below(nb as u64) as u32
	} else {
		NAMED0 + cx.below(nn.max(1) as u64) as u32
	}
}

fn gen_q(cx: &mut Cx, nb: u32, nn: u32, named_graphs: bool) -> QI {
	let s = node(cx, nb, nn, 7);
	let p = node(cx, nb, nn, 1);
	let o = if cx.chance(1, 8) { s } else { node(cx, nb, nn, 6) };
	let g = if named_graphs && cx.chance(1, 3) { Some(node(cx, nb, nn, 4)) } else { None };
	(s, p, o, g)
}

/// A random permutation of `0..n`.
fn perm(cx: &mut Cx, n: u32) -> Vec<u32> {
	let mut v: Vec<u32> = (0..n).collect();
	for i in (1..n as usize).rev() {
		let j = i - cx.us(i + 1).min(i);
		v.swap(i, j);
	}
	v
}

fn mutate(cx: &mut Cx, d: &DI, nb: u32, nn: u32, ng: bool) -> DI {
	let mut d = d.clone();
	let Some(q) = d.iter().nth(cx.us(d.len().max(1))).copied() else {
		d.insert(gen_q(cx, nb, nn, ng));
		return d;
	};
	match cx.below(7) {
		0 | 1 => {
			// one component replaced
			let mut n = q;
			let x = node(cx, nb, nn, 5);
			match cx.below(4) {
				0 => n.0 = x,
				1 => n.1 = x,
				2 => n.2 = x,
				_ => n.3 = if n.3.is_some() && cx.bool() { None } else { Some(x) },
			}
			d.remove(&q);
			d.insert(n);
		}
		2 => {
			// reversed edge
			d.remove(&q);
			d.insert((q.2, q.1, q.0, q.3));
		}
		3 => {
			// two edges with exchanged objects
			let r = *d.iter().nth(cx.us(d.len())).unwrap();
			d.remove(&q);
			d.remove(&r);
			d.insert((q.0, q.1, r.2, q.3));
			d.insert((r.0, r.1, q.2, r.3));
		}
		4 => {
			let r = *d.iter().nth(cx.us(d.len())).unwrap();
			d.remove(&q);
			d.remove(&r);
			d.insert((q.0, r.1, q.2, q.3));
			d.insert((r.0, q.1, r.2, r.3));
		}
		5 => {
			let r = *d.iter().nth(cx.us(d.len())).unwrap();
			d.remove(&q);
			d.remove(&r);
			d.insert((q.0, q.1, q.2, r.3));
			d.insert((r.0, r.1, r.2, q.3));
		}
		_ => {
			d.remove(&q);
			d.insert(gen_q(cx, nb, nn, ng));
		}
	}
	d
}

/// Disjoint cycles of the given sizes, hard to tell apart locally.
fn cycles(sizes: &[u32], p: u32, both: bool, g: Option<u32>) -> DI {
	let mut d = DI::new();
	let mut base = 0;
	for n in sizes {
		for i in 0..*n {
			let (x, y) = (base + i, base + (i + 1) % n);
			d.insert((x, p, y, g));
			if both {
				d.insert((y, p, x, g));
			}
		}
		base += n;
	}
	d
}

/// Groups of blank nodes with the same neighbourhood, tied to names or to a blank node of their own.
fn families(cx: &mut Cx) -> (DI, u32) {
	let mut d = DI::new();
	let mut next = 0;
	let groups = cx.range(1, 3) as u32;
	for k in 0..groups {
		let n = *cx.pick(&[9u32, 7, 8, 10, 12, 13, 16, 17, 24, 2, 3]);
		// what the members are tied to: a name, or a blank node with a mark
		let hub = if cx.bool() {
			next += 1;
			d.insert((next - 1, NAMED0 + 40, NAMED0 + 41 + k, None));
			next - 1
		} else {
			NAMED0 + 30 + k
		};
		let p = NAMED0 + 20 + k;
		let g = if cx.chance(1, 3) { Some(NAMED0 + 25) } else { None };
		let role = cx.below(4);
		let pair = cx.chance(1, 4);
		for _ in 0..n {
			let x = next;
			next += 1;
			d.insert(match role {
				0 => (x, p, hub, g),
				1 => (hub, p, x, g),
				2 => (hub, x, p, g),
				_ => (hub, p, NAMED0, Some(x)),
			});
			if pair {
				d.insert((x, NAMED0 + 50, NAMED0 + 51, None));
			}
		}
	}
	(d, next)
}

/// An altered dataset, with the answer when the blank-erased statements settle it.
fn altered(a: &DI, d: DI) -> (DI, Option<bool>) {
	let erase = |d: &DI| {
		let mut v: Vec<QI> = d.iter().map(|q| map_q(q, &|_| 0)).collect();
		v.sort();
		v
	};
	let w = if d == *a {
		Some(true)
	} else if erase(&d) != erase(a) {
		Some(false)
	} else {
		None // only the consistency of the answer is checked
	};
	(d, w)
}

fn named(i: u32) -> Term {
	let k = i / 6;
	let lit = |v: String, t: LiteralType| Term::Literal(Literal::new(v, t));
	match i % 6 {
		0 => Term::Iri(iri(&format!("http://example.org/{k}"))),
		1 => lit(format!("http://example.org/{k}"), LiteralType::Any(rdf_types::XSD_STRING.to_owned())),
		2 => lit(format!("{k}"), LiteralType::LangString(lang("en"))),
		3 => lit(format!("{k}"), LiteralType::LangString(lang("fr"))),
		4 => lit(format!("{k}"), LiteralType::Any(iri("http://example.org/0"))),
		_ => lit(format!("_:b{k}"), LiteralType::Any(rdf_types::XSD_STRING.to_owned())),
	}
}

fn local(x: u32, label: &dyn Fn(u32) -> String) -> LocalTerm {
	if x < NAMED0 {
		LocalTerm::Anonymous(blank(&label(x)))
	} else {
		LocalTerm::Named(named(x - NAMED0))
	}
}

/// Interpretation by a table; resources without term are blank.
struct Table(Vec<Vec<Term>>);

impl Interpretation for Table {
	type Resource = u32;
	fn iri(&self, iri: &Iri) -> Option<u32> {
		self.0.iter().position(|ts| ts.iter().any(|t| matches!(t, Term::Iri(i) if i.as_iri() == iri))).map(|i| i as u32)
	}
	fn literal<'a>(&self, literal: impl Into<LiteralRef<'a>>) -> Option<u32> {
		let l = literal.into();
		self.0.iter().position(|ts| ts.iter().any(|t| matches!(t, Term::Literal(i) if i.as_ref() == l))).map(|i| i as u32)
	}
}
impl ReverseInterpretation for Table {
	type Iris<'a> = std::vec::IntoIter<Cow<'a, Iri>>;
	type Literals<'a> = std::vec::IntoIter<CowLiteral<'a>>;
	fn iris_of<'a>(&'a self, r: &'a u32) -> Self::Iris<'a> {
		let v: Vec<_> = self.0[*r as usize].iter().filter_map(|t| if let Term::Iri(i) = t { Some(Cow::Borrowed(i.as_iri())) } else { None }).collect();
		v.into_iter()
	}
	fn literals_of<'a>(&'a self, r: &'a u32) -> Self::Literals<'a> {
		let v: Vec<_> = self.0[*r as usize].iter().filter_map(|t| if let Term::Literal(i) = t { Some(i.as_cow()) } else { None }).collect();
		v.into_iter()
	}
}

fn verify<R: Ord + Clone + std::fmt::Debug>(what: &str, got: Option<BTreeBijection<R>>, want: Option<bool>, a: &BTreeSet<Q<R>>, b: &BTreeSet<Q<R>>, is_blank: &dyn Fn(&R) -> bool) -> R_ {
	let Some(m) = got else {
		ck!(want != Some(true), "{what}: no bijection found between isomorphic datasets\n  A = {a:?}\n  B = {b:?}");
		return Ok(());
	};
	ck!(want != Some(false), "{what}: a bijection is returned for non-isomorphic datasets\n  A = {a:?}\n  B = {b:?}\n  {:?}", m.forward);
	let bl = |d: &BTreeSet<Q<R>>| -> BTreeSet<R> { d.iter().flat_map(|q| [Some(q.0.clone()), Some(q.1.clone()), Some(q.2.clone()), q.3.clone()]).flatten().filter(|x| is_blank(x)).collect() };
	let keys: BTreeSet<R> = m.forward.keys().map(|k| (*k).clone()).collect();
	let vals: BTreeSet<R> = m.forward.values().map(|k| (*k).clone()).collect();
	ck_eq!(keys, bl(a), "{what}: domain of the bijection");
	ck_eq!(vals, bl(b), "{what}: image of the bijection");
	ck_eq!(vals.len(), m.forward.len(), "{what}: the bijection is not one-to-one");
	let inv: BTreeSet<(R, R)> = m.backward.iter().map(|(k, v)| ((*v).clone(), (*k).clone())).collect();
	let fwd: BTreeSet<(R, R)> = m.forward.iter().map(|(k, v)| ((*k).clone(), (*v).clone())).collect();
	ck_eq!(inv, fwd, "{what}: backward is not the inverse of forward");
	let f = |r: &R| m.forward.get(r).map(|x| (*x).clone()).unwrap_or_else(|| r.clone());
	let image: BTreeSet<Q<R>> = a.iter().map(|q| (f(&q.0), f(&q.1), f(&q.2), q.3.as_ref().map(f))).collect();
	ck_eq!(&image, b, "{what}: the returned bijection does not map A onto B (A = {a:?})");
	Ok(())
}
type R_ = vharness::R;

/// Tests one pair of datasets through one pair of container kinds.
fn pair<R: Res>(cx: &mut Cx, a: &BTreeSet<Q<R>>, b: &BTreeSet<Q<R>>, run: &dyn Fn(&dyn AnyDs<R>, &dyn AnyDs<R>) -> R_) -> R_ {
	let mk = |cx: &mut Cx, d: &BTreeSet<Q<R>>| -> Box<dyn AnyDs<R>> {
		let mut v: Vec<Q<R>> = d.iter().cloned().collect();
		// shuffled
		for i in (1..v.len()).rev() {
			let j = i - cx.us(i + 1).min(i);
			v.swap(i, j);
		}
		let graph = d.iter().all(|q| q.3.is_none());
		match cx.below(if graph { 5 } else { 3 }) {
			0 => Box::new(v.iter().map(qv).collect::<BTreeDataset<R>>()),
			1 => Box::new(v.iter().map(qv).collect::<IndexedBTreeDataset<R>>()),
			2 => Box::new(VecDataset(v)),
			3 => Box::new(v.iter().map(|q| rdf_types::Triple(q.0.clone(), q.1.clone(), q.2.clone())).collect::<BTreeGraph<R>>()),
			_ => Box::new(VecGraph(v.into_iter().map(|q| (q.0, q.1, q.2)).collect())),
		}
	};
	let (x, y) = (mk(cx, a), mk(cx, b));
	run(&*x, &*y)
}

/// Any dataset, seen as its quads.
trait AnyDs<R> {
	fn list(&self) -> Vec<rdf_types::Quad<&R>>;
}
impl<R, D: TraversableDataset<Resource = R>> AnyDs<R> for D {
	fn list(&self) -> Vec<rdf_types::Quad<&R>> {
		self.quads().collect()
	}
}
/// Adapter giving the type-erased dataset back to the library.
struct View<'x, R>(&'x dyn AnyDs<R>);
impl<R> Dataset for View<'_, R> {
	type Resource = R;
}
impl<R> TraversableDataset for View<'_, R> {
	type Quads<'a>
		= std::vec::IntoIter<rdf_types::Quad<&'a R>>
	where
		Self: 'a;
	fn quads(&self) -> Self::Quads<'_> {
		self.0.list().into_iter()
	}
}

fn run(cx: &mut Cx) -> R_ {
	let ng = cx.chance(1, 2);
	let shape = cx.weighted(&[5, 4, 2, 2, 1]);
	let (a, b0, mut want): (DI, DI, Option<bool>);
	let (mut nb, nn);
	match shape {
		0 | 1 => {
			// random dataset, and a (possibly altered) copy of it or another random one
			nb = cx.below(6) as u32;
			nn = *cx.pick(&[3u32, 1, 2, 6, 12]);
			let n = cx.range(0, if shape == 0 { 5 } else { 14 });
			a = (0..n).map(|_| gen_q(cx, nb, nn, ng)).collect();
			let k = cx.weighted(&[3, 5, 3, 1]);
			let mut d = a.clone();
			match k {
				0 => (),
				1 => d = mutate(cx, &d, nb, nn, ng),
				2 => {
					for _ in 0..cx.range(2, 3) {
						d = mutate(cx, &d, nb, nn, ng)
					}
				}
				_ => d = (0..n).map(|_| gen_q(cx, nb, nn, ng)).collect(),
			}
			b0 = d;
			nb = nb.max(1);
			want = None;
		}
		2 => {
			// regular structures
			let p = NAMED0 + cx.below(2) as u32;
			let both = cx.bool();
			let g = *cx.pick(&[None, Some(NAMED0), Some(0)]);
			let sets: &[(&[u32], &[u32])] = &[(&[6], &[3, 3]), (&[4], &[2, 2]), (&[5], &[3, 2]), (&[6], &[4, 2]), (&[3, 2], &[4, 1]), (&[2, 2, 2], &[3, 3]), (&[6], &[6]), (&[3, 3], &[3, 3]), (&[2, 2, 2], &[2, 2, 2]), (&[5, 1], &[3, 3])];
			let (x, y) = *cx.pick(sets);
			let (x, y) = if cx.bool() { (y, x) } else { (x, y) };
			let mut da = cycles(x, p, both, g);
			let mut db = cycles(y, p, both, g);
			if cx.chance(1, 3) {
				let q = gen_q(cx, 6, 3, ng);
				da.insert(q);
				db.insert(q);
			}
			a = da;
			b0 = db;
			nb = 6;
			nn = 3;
			want = None;
		}
		4 => {
			let (mut d, n) = families(cx);
			nb = n;
			nn = 3;
			if cx.bool() {
				b0 = d.clone();
				want = Some(true);
			} else {
				// Each side has a node without counterpart: with a mere difference of counts
				// the library would search through the permutations of the others.
				let x = cx.below(n as u64) as u32;
				let mut e = d.clone();
				d.insert((x, NAMED0 + 52, NAMED0 + 53, None));
				e.insert(match cx.below(4) {
					0 => (NAMED0 + 53, NAMED0 + 52, x, None),
					1 => (x, NAMED0 + 53, NAMED0 + 52, None),
					2 => (x, NAMED0 + 52, NAMED0 + 53, Some(NAMED0)),
					_ => (x, NAMED0 + 52, NAMED0 + 54, None),
				});
				b0 = e;
				want = Some(false);
			}
			a = d;
			cx.class("families of interchangeable blank nodes");
		}
		_ => {
			// larger, answer known by construction
			nb = if cx.chance(1, 8) { cx.range(15, 60) } else { cx.range(6, 14) } as u32;
			nn = *cx.pick(&[6u32, 3, 20]);
			let n = cx.range(nb as u64, 3 * nb as u64);
			let mut d: DI = (0..n).map(|_| gen_q(cx, nb, nn, ng)).collect();
			// distinguishing marks keep the search short
			for x in 0..nb {
				if nb > 14 || cx.chance(3, 4) {
					d.insert((x, NAMED0 + 50, NAMED0 + x, None));
				}
			}
			a = d;
			if cx.bool() {
				b0 = a.clone();
				want = Some(true);
			} else {
				let (d, w) = altered(&a, mutate(cx, &a, nb, nn, ng));
				want = w;
				b0 = d;
			}
			cx.class("larger datasets");
		}
	}
	let (mut a, mut b0) = (a, b0);
	if (shape < 3 || want == Some(true)) && cx.chance(1, 400) {
		// many statements without blank node
		let d: Vec<QI> = (0..cx.range(50, 1500)).map(|_| gen_q(cx, 0, 45, ng)).collect();
		a.extend(d.iter().copied());
		let mut d: DI = d.into_iter().collect();
		if cx.bool() {
			d = mutate(cx, &d, 0, 45, ng);
		}
		b0.extend(d);
		let ground = |d: &DI| -> DI { d.iter().filter(|q| blanks(&DI::from([**q])).is_empty()).copied().collect() };
		if ground(&a) != ground(&b0) {
			want = Some(false);
		}
		cx.class("many statements");
	}
	let pm = perm(cx, nb.max(14));
	let b: DI = b0.iter().map(|q| map_q(q, &|x| pm[x as usize])).collect();
	if shape < 3 {
		want = Some(brute(&a, &b));
	}
	cx.log(|| format!("A = {a:?}\nB = {b:?} (blank nodes: below {NAMED0}), isomorphic: {want:?}"));
	match want {
		Some(true) => cx.class("isomorphic"),
		Some(false) => cx.class("not isomorphic"),
		None => cx.class("unknown to the reference"),
	}
	if a.len() >= 2 && !blanks(&a).is_empty() {
		cx.nontrivial();
	}

	if cx.chance(2, 3) {
		// labels: same family on both sides, or disjoint ones
		let same = cx.bool();
		let la = |x: u32| format!("_:b{x}");
		let lb = move |x: u32| if same { format!("_:b{x}") } else { format!("_:{x}.c") };
		let conv = |d: &DI, l: &dyn Fn(u32) -> String| -> BTreeSet<Q<LocalTerm>> { d.iter().map(|q| (local(q.0, l), local(q.1, l), local(q.2, l), q.3.map(|g| local(g, l)))).collect() };
		let (ta, tb) = (conv(&a, &la), conv(&b, &lb));
		pair(cx, &ta, &tb, &|x, y| {
			let (x, y) = (View(x), View(y));
			let blank = |t: &LocalTerm| matches!(t, LocalTerm::Anonymous(_));
			let r = find_bijection(&x, &y);
			let found = r.is_some();
			verify("find_bijection(A, B)", r, want, &ta, &tb, &blank)?;
			verify("find_bijection(B, A)", find_bijection(&y, &x), Some(found), &tb, &ta, &blank)?;
			verify("find_bijection_with((), A, B)", find_bijection_with(&(), &x, &y), Some(found), &ta, &tb, &blank)?;
			ck_eq!(are_isomorphic(&x, &y), found, "are_isomorphic(A, B)");
			ck_eq!(are_isomorphic_with(&(), &x, &y), found, "are_isomorphic_with((), A, B)");
			ck_eq!(are_isomorphic(&y, &x), found, "are_isomorphic(B, A)");
			verify("find_bijection(A, A)", find_bijection(&x, &x), Some(true), &ta, &ta, &blank)?;
			Ok(())
		})
	} else {
		// user-defined interpretation over numbers; a named resource has one to three terms
		cx.class("user-defined interpretation");
		let mut tab: Vec<Vec<Term>> = vec![Vec::new(); NAMED0 as usize];
		for i in 0..60u32 {
			let mut ts = Vec::new();
			let k = cx.weighted(&[4, 1, 1, 1]);
			if k != 1 {
				ts.push(Term::Iri(iri(&format!("http://example.org/{i}"))));
			}
			if k == 1 || k == 2 {
				ts.push(Term::Literal(Literal::new(format!("http://example.org/{i}"), LiteralType::LangString(lang("en")))));
			}
			if k == 3 {
				ts.push(Term::Iri(IriBuf::new(format!("urn:x:{i}")).unwrap()));
				ts.push(Term::Literal(Literal::new(format!("{i}"), LiteralType::Any(rdf_types::XSD_STRING.to_owned()))));
			}
			tab.push(ts);
		}
		let int = Table(tab);
		pair(cx, &a, &b, &|x, y| {
			let (x, y) = (View(x), View(y));
			let blank = |t: &u32| *t < NAMED0;
			let r = find_bijection_with(&int, &x, &y);
			let found = r.is_some();
			verify("find_bijection_with(A, B)", r, want, &a, &b, &blank)?;
			verify("find_bijection_with(B, A)", find_bijection_with(&int, &y, &x), Some(found), &b, &a, &blank)?;
			ck_eq!(are_isomorphic_with(&int, &x, &y), found, "are_isomorphic_with(A, B)");
			Ok(())
		})
	}
}

/// Many blank nodes, on a small stack: the search may not go one level deeper for each of them.
fn exhaustive(thorough: bool) -> Result<u64, String> {
	let sizes: &[u32] = if thorough { &[2000, 6000] } else { &[2000] };
	let mut n = 0;
	for &size in sizes {
		for shape in 0..3 {
			for same in [true, false] {
				let statements = |copy: bool| -> BTreeDataset {
					let b = |i: u32| LocalTerm::Anonymous(blank(&if copy { format!("_:y{}", size - i) } else { format!("_:x{i}") }));
					let r = |i: u32| LocalTerm::iri(iri(&format!("http://e/{i}")));
					let mut d = BTreeDataset::new();
					for i in 0..size {
						// nodes of 25 degrees, so that few of them look alike
						for k in 0..i % 25 {
							d.insert(rdf_types::Quad(b(i), r(k), r(1000 + i), None));
						}
						match shape {
							0 => d.insert(rdf_types::Quad(b(i), r(0), r(1000 + i), None)),
							1 => d.insert(rdf_types::Quad(b(i), r(100), b((i + 1) % size), None)),
							_ => d.insert(rdf_types::Quad(r(1), r(2), r(1000 + i), Some(b(i)))),
						};
					}
					if copy && !same {
						d.insert(rdf_types::Quad(b(size / 2), r(100), b(size / 2), None));
					} else {
						d.insert(rdf_types::Quad(b(size / 2), r(100), b(if shape == 1 { size / 2 } else { 0 }), None));
					}
					d
				};
				let (a, b) = (statements(false), statements(true));
				let want = same || shape == 1;
				let got = std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 10).spawn_scoped(s, || are_isomorphic(&a, &b)).map(|h| h.join())).map_err(|e| e.to_string())?.map_err(|_| "panic".to_string())?;
				ck!(got == want, "{size} blank nodes (shape {shape}): isomorphic is {got} instead of {want}");
				n += 1;
			}
		}
	}
	Ok(n)
}

fn main() {
	// the library reports on stderr
	if std::env::args().nth(1).as_deref() != Some("replay") {
		unsafe {
			let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
			libc::dup2(n, 2);
		}
	}
	main_with(Prop {
		id: "C12",
		rule: "a case is a pair of datasets: a random one (blank nodes in any position) and a renamed, shuffled, possibly altered copy; regular structures (cycles); larger ones (up to 60 blank nodes, or families of up to 24 interchangeable ones) with a known answer; enumerated, thousands of blank nodes on a small stack. The verdict is compared with an exhaustive search over all blank node bijections (or the planted answer), and any returned bijection is applied and verified, both ways round, through five container kinds and the transparent or a table-driven interpretation; non-trivial: at least 2 quads and a blank node",
		quick: 300_000,
		thorough: 3_000_000,
		assumptions: &["distinct named resources of an interpretation share no term", "datasets are sets of quads", "search time is not claimed: non-isomorphic pairs told apart only by the size of a family of interchangeable nodes are not generated"],
		run,
		exhaustive: Some(exhaustive),
	})
}
