//! C21: triples and quads keep every component in its place.
use rdf_types::*;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use vharness::gen::*;
use vharness::nq::same_text;
use vharness::*;

fn h<T: Hash + ?Sized>(x: &T) -> (u64, u64) {
	hashes(x)
}

// component types, all different
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct S(u32);
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct P(u32);
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct O(u32);
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct G(u32);

/// Another type comparable with the components, with incomparable values.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Other(f64);
macro_rules! other {
	($($t:ident),*) => { $(
		impl PartialEq<Other> for $t { fn eq(&self, o: &Other) -> bool { self.0 as f64 == o.0 } }
		impl PartialOrd<Other> for $t { fn partial_cmp(&self, o: &Other) -> Option<Ordering> { (self.0 as f64).partial_cmp(&o.0) } }
	)* };
}
other!(S, P, O, G);

/// Component-wise comparison, graph last, default graph first.
fn model_cmp(a: [Option<f64>; 4], b: [Option<f64>; 4]) -> Option<Ordering> {
	for i in 0..4 {
		let c = match (a[i], b[i]) {
			(None, None) => Some(Ordering::Equal),
			(None, Some(_)) => Some(Ordering::Less),
			(Some(_), None) => Some(Ordering::Greater),
			(Some(x), Some(y)) => x.partial_cmp(&y),
		};
		if c != Some(Ordering::Equal) {
			return c;
		}
	}
	Some(Ordering::Equal)
}

type Q = Quad<S, P, O, G>;
type T = Triple<S, P, O>;
type Parts = (S, P, O, Option<G>);

#[allow(deprecated)]
fn check_quad(c: Parts) -> R {
	let (s, p, o, g) = c;
	let q: Q = Quad::new(s, p, o, g);
	ck_eq!((q.0, q.1, q.2, q.3), c, "fields of Quad::new");
	ck_eq!((*q.subject(), *q.predicate(), *q.object(), q.graph().copied()), c, "accessors of {c:?}");
	ck_eq!((q.into_subject(), q.into_predicate(), q.into_object(), q.into_graph()), c, "into accessors of {c:?}");
	ck_eq!(q.into_parts(), c, "into_parts of {c:?}");
	for (what, r) in [("as_ref", q.as_ref()), ("borrow_components", q.borrow_components())] {
		ck!(std::ptr::eq(r.0, &q.0) && std::ptr::eq(r.1, &q.1) && std::ptr::eq(r.2, &q.2), "{what} of {c:?} refers to other components");
		ck_eq!((*r.0, *r.1, *r.2, r.3.copied()), c, "{what} of {c:?}");
		ck_eq!(r.cloned().into_parts(), c, "cloned of {what} of {c:?}");
		ck_eq!(r.into_cloned().into_parts(), c, "into_cloned of {what} of {c:?}");
		ck_eq!(r.copied().into_parts(), c, "copied of {what} of {c:?}");
		ck_eq!(r.into_copied().into_parts(), c, "into_copied of {what} of {c:?}");
	}
	let mut m = q;
	*m.subject_mut() = S(901);
	ck_eq!(m.into_parts(), (S(901), p, o, g), "subject_mut of {c:?}");
	let mut m = q;
	*m.predicate_mut() = P(902);
	ck_eq!(m.into_parts(), (s, P(902), o, g), "predicate_mut of {c:?}");
	let mut m = q;
	*m.object_mut() = O(903);
	ck_eq!(m.into_parts(), (s, p, O(903), g), "object_mut of {c:?}");
	let mut m = q;
	match m.graph_mut() {
		Some(x) => {
			ck!(g.is_some(), "graph_mut of {c:?}");
			*x = G(904);
			ck_eq!(m.into_parts(), (s, p, o, Some(G(904))), "graph_mut of {c:?}");
		}
		None => ck!(g.is_none(), "graph_mut of {c:?}"),
	}
	let (t, tg) = q.into_triple();
	ck_eq!((t.into_parts(), tg), ((s, p, o), g), "into_triple of {c:?}");
	ck_eq!(t.into_quad(tg).into_parts(), c, "into_quad of the triple of {c:?}");
	ck_eq!(q.map_subject(|x| ("s", x)).into_parts(), (("s", s), p, o, g), "map_subject of {c:?}");
	ck_eq!(q.map_predicate(|x| ("p", x)).into_parts(), (s, ("p", p), o, g), "map_predicate of {c:?}");
	ck_eq!(q.map_object(|x| ("o", x)).into_parts(), (s, p, ("o", o), g), "map_object of {c:?}");
	let mut seen = None;
	let r = q.map_graph(|x| {
		seen = Some(x);
		Some(("g", x))
	});
	ck_eq!(r.into_parts(), (s, p, o, Some(("g", g))), "map_graph of {c:?}");
	ck_eq!(seen, Some(g), "argument of map_graph of {c:?}");
	ck_eq!(q.map_graph(|_| None::<u8>).into_parts(), (s, p, o, None), "map_graph to the default graph of {c:?}");
	for ng in [None, Some(G(77)), g] {
		ck_eq!(q.with_graph(ng).into_parts(), (s, p, o, ng), "with_graph of {c:?}");
	}
	ck_eq!(q.map_all(|x| ("s", x), |x| ("p", x), |x| ("o", x), |x| x.map(|x| ("g", x))).into_parts(), (("s", s), ("p", p), ("o", o), g.map(|x| ("g", x))), "map_all of {c:?}");
	ck_eq!(q.map_all(|x| x, |x| x, |x| x, |x| Some((x, 1))).into_parts(), (s, p, o, Some((g, 1))), "map_all of the graph of {c:?}");
	let u: Quad<u32> = Quad(s.0, p.0, o.0, g.map(|g| g.0));
	let mut calls = vec![];
	let r = u.map(|x| {
		calls.push(x);
		(x, "m")
	});
	ck_eq!(r.into_parts(), ((s.0, "m"), (p.0, "m"), (o.0, "m"), g.map(|g| (g.0, "m"))), "map of {c:?}");
	calls.sort();
	let mut want: Vec<u32> = [Some(s.0), Some(p.0), Some(o.0), g.map(|g| g.0)].into_iter().flatten().collect();
	want.sort();
	ck_eq!(calls, want, "arguments of map of {c:?}");
	Ok(())
}

fn check_triple(c: (S, P, O), g: Option<G>) -> R {
	let (s, p, o) = c;
	let t: T = Triple::new(s, p, o);
	ck_eq!((t.0, t.1, t.2), c, "fields of Triple::new");
	ck_eq!((*t.subject(), *t.predicate(), *t.object()), c, "triple accessors of {c:?}");
	ck_eq!((t.into_subject(), t.into_predicate(), t.into_object()), c, "triple into accessors of {c:?}");
	ck_eq!(t.into_parts(), c, "triple into_parts of {c:?}");
	let r = t.as_ref();
	ck!(std::ptr::eq(r.0, &t.0) && std::ptr::eq(r.1, &t.1) && std::ptr::eq(r.2, &t.2), "triple as_ref of {c:?} refers to other components");
	ck_eq!(r.cloned().into_parts(), c, "triple cloned of {c:?}");
	ck_eq!(r.into_cloned().into_parts(), c, "triple into_cloned of {c:?}");
	ck_eq!(r.copied().into_parts(), c, "triple copied of {c:?}");
	ck_eq!(r.into_copied().into_parts(), c, "triple into_copied of {c:?}");
	let mut m = t;
	*m.subject_mut() = S(901);
	ck_eq!(m.into_parts(), (S(901), p, o), "triple subject_mut of {c:?}");
	let mut m = t;
	*m.predicate_mut() = P(902);
	ck_eq!(m.into_parts(), (s, P(902), o), "triple predicate_mut of {c:?}");
	let mut m = t;
	*m.object_mut() = O(903);
	ck_eq!(m.into_parts(), (s, p, O(903)), "triple object_mut of {c:?}");
	ck_eq!(t.into_quad(g).into_parts(), (s, p, o, g), "into_quad of {c:?} and {g:?}");
	ck_eq!(t.map_subject(|x| ("s", x)).into_parts(), (("s", s), p, o), "triple map_subject of {c:?}");
	ck_eq!(t.map_predicate(|x| ("p", x)).into_parts(), (s, ("p", p), o), "triple map_predicate of {c:?}");
	ck_eq!(t.map_object(|x| ("o", x)).into_parts(), (s, p, ("o", o)), "triple map_object of {c:?}");
	let u: Triple<u32> = Triple(s.0, p.0, o.0);
	let mut calls = vec![];
	let r = u.map(|x| {
		calls.push(x);
		(x, "m")
	});
	ck_eq!(r.into_parts(), ((s.0, "m"), (p.0, "m"), (o.0, "m")), "triple map of {c:?}");
	calls.sort();
	let mut want = vec![s.0, p.0, o.0];
	want.sort();
	ck_eq!(calls, want, "arguments of the triple map of {c:?}");
	Ok(())
}

fn nums(c: Parts) -> [Option<f64>; 4] {
	[Some(c.0 .0 as f64), Some(c.1 .0 as f64), Some(c.2 .0 as f64), c.3.map(|g| g.0 as f64)]
}

fn check_cmp(a: Parts, b: Parts) -> R {
	let (qa, qb): (Q, Q) = (Quad(a.0, a.1, a.2, a.3), Quad(b.0, b.1, b.2, b.3));
	let want = model_cmp(nums(a), nums(b)).unwrap();
	ck_eq!(qa.cmp(&qb), want, "order of the quads {a:?} and {b:?}");
	ck_eq!(qa.partial_cmp(&qb), Some(want), "partial order of the quads {a:?} and {b:?}");
	ck_eq!(qa == qb, want == Ordering::Equal, "equality of the quads {a:?} and {b:?}");
	ck_eq!(qa.as_ref() == qb.as_ref(), want == Ordering::Equal, "equality of the borrowed quads {a:?} and {b:?}");
	ck_eq!(qa.as_ref().partial_cmp(&qb.as_ref()), Some(want), "order of the borrowed quads {a:?} and {b:?}");
	ck_eq!(qa.as_ref().cmp(&qb.as_ref()), want, "order of the borrowed quads {a:?} and {b:?}");
	if qa == qb {
		ck_eq!(h(&qa), h(&qb), "hash of the quad {a:?}");
	}
	ck_eq!(h(&qa), h(&qa.as_ref()), "hash of the borrowed quad {a:?}");
	let (ta, tb): (T, T) = (Triple(a.0, a.1, a.2), Triple(b.0, b.1, b.2));
	let tn = |c: Parts| {
		let mut n = nums(c);
		n[3] = None;
		n
	};
	let want = model_cmp(tn(a), tn(b)).unwrap();
	ck_eq!(ta.cmp(&tb), want, "order of the triples {a:?} and {b:?}");
	ck_eq!(ta.partial_cmp(&tb), Some(want), "partial order of the triples {a:?} and {b:?}");
	ck_eq!(ta == tb, want == Ordering::Equal, "equality of the triples {a:?} and {b:?}");
	ck_eq!(ta.as_ref().cmp(&tb.as_ref()), want, "order of the borrowed triples {a:?} and {b:?}");
	ck_eq!(h(&ta), h(&ta.as_ref()), "hash of the borrowed triple {a:?}");
	Ok(())
}

/// Comparison between statements of different component types, possibly incomparable.
fn check_mixed(a: Parts, b: [f64; 3], g: Option<f64>) -> R {
	let qa: Q = Quad(a.0, a.1, a.2, a.3);
	let qb = Quad(Other(b[0]), Other(b[1]), Other(b[2]), g.map(Other));
	let n = [Some(b[0]), Some(b[1]), Some(b[2]), g];
	let want = model_cmp(nums(a), n);
	ck_eq!(qa.partial_cmp(&qb), want, "order of {a:?} and {qb:?}");
	ck_eq!(qa == qb, want == Some(Ordering::Equal), "equality of {a:?} and {qb:?}");
	let ta: T = Triple(a.0, a.1, a.2);
	let tb = Triple(Other(b[0]), Other(b[1]), Other(b[2]));
	let mut na = nums(a);
	na[3] = None;
	let want = model_cmp(na, [n[0], n[1], n[2], None]);
	ck_eq!(ta.partial_cmp(&tb), want, "order of {ta:?} and {tb:?}");
	ck_eq!(ta == tb, want == Some(Ordering::Equal), "equality of {ta:?} and {tb:?}");
	Ok(())
}

fn to_id(t: &LocalTerm) -> Option<Id> {
	match t {
		LocalTerm::Anonymous(b) => Some(Id::BlankId(b.clone())),
		LocalTerm::Named(Term::Iri(i)) => Some(Id::Iri(i.clone())),
		_ => None,
	}
}
fn of_id(i: &Id) -> LocalTerm {
	match i {
		Id::BlankId(b) => LocalTerm::Anonymous(b.clone()),
		Id::Iri(i) => LocalTerm::Named(Term::Iri(i.clone())),
	}
}
fn of_ref(i: &IdRef) -> LocalTerm {
	match i {
		IdRef::BlankId(b) => LocalTerm::Anonymous(blank(b.as_str())),
		IdRef::Iri(i) => LocalTerm::Named(Term::Iri(iri(i.as_str()))),
	}
}

/// Lexical statements and their borrowed forms.
fn check_lexical(s: &LocalTerm, p: &iref::IriBuf, o: &LocalTerm, g: &Option<LocalTerm>) -> R {
	let sid = || to_id(s).unwrap();
	let gid = || g.as_ref().map(|g| to_id(g).unwrap());
	let q: RdfQuad = Quad(sid(), p.clone(), o.clone(), gid());
	let ok = |a: &LocalTerm, b: &str, c: &LocalTerm, d: Option<LocalTerm>| {
		same_text(a, s)
			&& b == p.as_str()
			&& same_text(c, o)
			&& match (&d, g) {
				(None, None) => true,
				(Some(x), Some(y)) => same_text(x, y),
				_ => false,
			}
	};
	let r = q.as_lexical_quad_ref();
	ck!(ok(&of_ref(&r.0), r.1.as_str(), &r.2.to_owned(), r.3.as_ref().map(of_ref)), "borrowed form of the lexical quad {s} {p} {o} {g:?}");
	let b = r.into_owned();
	ck!(ok(&of_id(&b.0), b.1.as_str(), &b.2, b.3.as_ref().map(of_id)), "owned form of the borrowed lexical quad {s} {p} {o} {g:?}");
	let t: LexicalTriple = Triple(sid(), p.clone(), o.clone());
	let r = t.as_lexical_triple_ref();
	ck!(ok(&of_ref(&r.0), r.1.as_str(), &r.2.to_owned(), g.clone()), "borrowed form of the lexical triple {s} {p} {o}");
	let b = r.into_owned();
	ck!(ok(&of_id(&b.0), b.1.as_str(), &b.2, g.clone()), "owned form of the borrowed lexical triple {s} {p} {o}");
	Ok(())
}

/// Owned against borrowed terms inside statements.
fn check_terms<X: Clone + Ord + Debug + Hash>(a: &Quad<X>, b: &Quad<X>) -> R {
	let by = a.0.cmp(&b.0).then(a.1.cmp(&b.1)).then(a.2.cmp(&b.2)).then(a.3.cmp(&b.3));
	ck_eq!(a.cmp(b), by, "order of {a:?} and {b:?}");
	ck_eq!(a == b, by == Ordering::Equal, "equality of {a:?} and {b:?}");
	ck_eq!(a.clone().into_triple().0.cmp(&b.clone().into_triple().0), a.0.cmp(&b.0).then(a.1.cmp(&b.1)).then(a.2.cmp(&b.2)), "order of the triples of {a:?} and {b:?}");
	Ok(())
}

fn run(cx: &mut Cx) -> R {
	let m = cx.pick(&[2u64, 3, 5, 1000]).to_owned();
	let mut parts = |cx: &mut Cx| -> Parts { (S(cx.below(m) as u32), P(cx.below(m) as u32), O(cx.below(m) as u32), cx.bool().then(|| G(cx.below(m) as u32))) };
	let a = parts(cx);
	let mut b = parts(cx);
	match cx.below(6) {
		0 => b = a,
		1 => b = (a.0, a.1, a.2, b.3),
		2 => b = (a.0, a.1, b.2, a.3),
		3 => b = (a.0, b.1, b.2, a.3),
		_ => (),
	}
	cx.log(|| format!("{a:?} {b:?}"));
	if a != b {
		cx.nontrivial();
	}
	check_quad(a)?;
	check_triple((a.0, a.1, a.2), a.3)?;
	check_cmp(a, b)?;
	let mut f = |x: u32, cx: &mut Cx| match cx.weighted(&[6, 1, 1]) {
		0 => x as f64,
		1 => f64::NAN,
		_ => x as f64 + 0.5,
	};
	let v = [f(b.0 .0, cx), f(b.1 .0, cx), f(b.2 .0, cx)];
	let g = b.3.map(|g| f(g.0, cx));
	check_mixed(a, v, g)?;
	if cx.chance(1, 2) {
		let pool: Vec<LocalTerm> = (0..3).map(|_| any_local_term(cx)).collect();
		let mut q = |cx: &mut Cx| Quad(cx.pick(&pool).clone(), cx.pick(&pool).clone(), cx.pick(&pool).clone(), cx.bool().then(|| cx.pick(&pool).clone()));
		let (x, y) = (q(cx), q(cx));
		cx.log(|| format!("{x:?} {y:?}"));
		check_terms(&x, &y)?;
		// borrowed terms against owned terms
		let r = x.as_ref().map(|t| t.as_ref());
		ck_eq!(r.partial_cmp(&y), x.partial_cmp(&y), "order of the borrowed terms of {x:?} against {y:?}");
		ck_eq!(r == y, x == y, "equality of the borrowed terms of {x:?} with {y:?}");
		let id = |cx: &mut Cx| if cx.bool() { LocalTerm::Named(Term::Iri(any_iri(cx))) } else { LocalTerm::Anonymous(any_blank(cx)) };
		let (s, p, o) = (id(cx), any_iri(cx), any_local_term(cx));
		let g = cx.bool().then(|| id(cx));
		check_lexical(&s, &p, &o, &g)?;
		cx.class("terms");
	}
	Ok(())
}

fn exhaustive(_: bool) -> Result<u64, String> {
	let mut all: Vec<Parts> = vec![];
	for s in 0..3 {
		for p in 0..3 {
			for o in 0..3 {
				for g in 0..4 {
					all.push((S(s), P(p), O(o), (g > 0).then(|| G(g - 1))));
				}
			}
		}
	}
	let mut n = 0;
	for a in &all {
		check_quad(*a)?;
		check_triple((a.0, a.1, a.2), a.3)?;
		for b in &all {
			check_cmp(*a, *b)?;
			n += 1;
		}
	}
	Ok(n)
}

fn main() {
	main_with(Prop {
		id: "C21",
		rule: "enumeration of every pair of quads over 3 values per component and the default graph; random statements with components of different types, incomparable values, terms and lexical forms; oracle: tuples; non-trivial: the two statements differ",
		quick: 2_000_000,
		thorough: 10_000_000,
		assumptions: &["functions passed to map are called once per component, in unspecified order"],
		run,
		exhaustive: Some(exhaustive),
	})
}
