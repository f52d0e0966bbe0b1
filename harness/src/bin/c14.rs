//! C14: accessors and transformations of canonical patterns.
use rdf_types::pattern::quad::canonical as qc;
use rdf_types::pattern::triple::canonical as tc;
use rdf_types::pattern::*;
use rdf_types::{LocalTerm, Triple};
use std::fmt::Debug;
use vharness::cont::*;
use vharness::gen::*;
use vharness::*;

macro_rules! conv {
	($s:ident, $p:ident, $o:ident, $m:ident) => {
		fn $s<X>(x: $m::PatternSubject<X>) -> Pos<X> {
			match x {
				$m::PatternSubject::Any => Pos::Any,
				$m::PatternSubject::Given(x) => Pos::Given(x),
			}
		}
		fn $p<X>(x: $m::PatternPredicate<X>) -> Pos<X> {
			match x {
				$m::PatternPredicate::Any => Pos::Any,
				$m::PatternPredicate::SameAsSubject => Pos::Same(0),
				$m::PatternPredicate::Given(x) => Pos::Given(x),
			}
		}
		fn $o<X>(x: $m::PatternObject<X>) -> Pos<X> {
			match x {
				$m::PatternObject::Any => Pos::Any,
				$m::PatternObject::SameAsSubject => Pos::Same(0),
				$m::PatternObject::SameAsPredicate => Pos::Same(1),
				$m::PatternObject::Given(x) => Pos::Given(x),
			}
		}
	};
}
conv!(qs, qp, qo, qc);
conv!(ts, tp, to, tc);
fn qg<X>(x: qc::PatternGraph<X>) -> Pos<Option<X>> {
	match x {
		qc::PatternGraph::Any => Pos::Any,
		qc::PatternGraph::SameAsSubject => Pos::Same(0),
		qc::PatternGraph::SameAsPredicate => Pos::Same(1),
		qc::PatternGraph::SameAsObject => Pos::Same(2),
		qc::PatternGraph::Given(x) => Pos::Given(x),
	}
}
fn pmap<'a, X, Y>(p: &'a Pos<X>, f: impl FnOnce(&'a X) -> Y) -> Pos<Y> {
	match p {
		Pos::Any => Pos::Any,
		Pos::Given(x) => Pos::Given(f(x)),
		Pos::Same(i) => Pos::Same(*i),
	}
}
fn qmap<X, Y>(p: &QPat<X>, f: &dyn Fn(&X) -> Y) -> QPat<Y> {
	QPat { s: pmap(&p.s, f), p: pmap(&p.p, f), o: pmap(&p.o, f), g: pmap(&p.g, |g| g.as_ref().map(f)) }
}
fn given<X: Clone>(p: &Pos<X>) -> Option<X> {
	match p {
		Pos::Given(x) => Some(x.clone()),
		_ => None,
	}
}
fn own<X: Clone>(c: CanonicalQuadPattern<&X>) -> CanonicalQuadPattern<X> {
	// destructure and rebuild without the library's map
	let p = QPat::read(c);
	rebuild(&qmap(&p, &|x: &&X| (*x).clone()))
}
/// Owned canonical pattern of a reference pattern, without any library conversion.
fn rebuild<X: Clone>(p: &QPat<X>) -> CanonicalQuadPattern<X> {
	// constructors by reference, then each constructor rebuilt by hand through serialised positions
	use CanonicalQuadPattern as K;
	macro_rules! g {
		($ty:ident, $($i:literal => $v:ident),*) => {
			match &p.g {
				Pos::Any => qc::$ty::AnyGraph,
				Pos::Given(g) => qc::$ty::GivenGraph(g.clone()),
				$(Pos::Same($i) => qc::$ty::$v,)*
				#[allow(unreachable_patterns)]
				_ => unreachable!(),
			}
		};
	}
	macro_rules! asgp {
		() => {
			match &p.o {
				Pos::Any => qc::AnySubjectGivenPredicate::AnyObject(g!(AnySubjectGivenPredicateAnyObject, 0 => SameAsSubject, 2 => SameAsObject)),
				Pos::Same(_) => qc::AnySubjectGivenPredicate::SameAsSubject(g!(AnySubjectGivenPredicateGivenObject, 0 => SameAsSubject)),
				Pos::Given(o) => qc::AnySubjectGivenPredicate::GivenObject(o.clone(), g!(AnySubjectGivenPredicateGivenObject, 0 => SameAsSubject)),
			}
		};
	}
	match &p.s {
		Pos::Given(s) => K::GivenSubject(
			s.clone(),
			match &p.p {
				Pos::Given(pr) => qc::GivenSubject::GivenPredicate(
					pr.clone(),
					match &p.o {
						Pos::Given(o) => qc::GivenSubjectGivenPredicate::GivenObject(o.clone(), g!(GivenSubjectGivenPredicateGivenObject,)),
						_ => qc::GivenSubjectGivenPredicate::AnyObject(g!(GivenSubjectGivenPredicateAnyObject, 2 => SameAsObject)),
					},
				),
				_ => qc::GivenSubject::AnyPredicate(match &p.o {
					Pos::Any => qc::GivenSubjectAnyPredicate::AnyObject(g!(GivenSubjectAnyPredicateAnyObject, 1 => SameAsPredicate, 2 => SameAsObject)),
					Pos::Same(_) => qc::GivenSubjectAnyPredicate::SameAsPredicate(g!(GivenSubjectAnyPredicateGivenObject, 1 => SameAsPredicate)),
					Pos::Given(o) => qc::GivenSubjectAnyPredicate::GivenObject(o.clone(), g!(GivenSubjectAnyPredicateGivenObject, 1 => SameAsPredicate)),
				}),
			},
		),
		_ => K::AnySubject(match &p.p {
			Pos::Any => qc::AnySubject::AnyPredicate(match &p.o {
				Pos::Any => qc::AnySubjectAnyPredicate::AnyObject(g!(AnySubjectAnyPredicateAnyObject, 0 => SameAsSubject, 1 => SameAsPredicate, 2 => SameAsObject)),
				Pos::Same(0) => qc::AnySubjectAnyPredicate::SameAsSubject(g!(AnySubjectAnyPredicateGivenObject, 0 => SameAsSubject, 1 => SameAsPredicate)),
				Pos::Same(_) => qc::AnySubjectAnyPredicate::SameAsPredicate(g!(AnySubjectAnyPredicateGivenObject, 0 => SameAsSubject, 1 => SameAsPredicate)),
				Pos::Given(o) => qc::AnySubjectAnyPredicate::GivenObject(o.clone(), g!(AnySubjectAnyPredicateGivenObject, 0 => SameAsSubject, 1 => SameAsPredicate)),
			}),
			Pos::Same(_) => qc::AnySubject::SameAsSubject(asgp!()),
			Pos::Given(pr) => qc::AnySubject::GivenPredicate(pr.clone(), asgp!()),
		}),
	}
}

fn check<X: Clone + PartialEq + Debug + Eq + Ord>(p: &QPat<X>, rs: &[X]) -> R {
	let k: CanonicalQuadPattern<X> = own(p.canonical());
	ck_eq!(QPat::read(k.clone()), *p, "harness: reading back {p:?}");
	// components one by one, by reference
	ck_eq!(qs(k.subject().cloned()), p.s, "subject() of {p:?}");
	ck_eq!(qp(k.predicate().cloned()), p.p, "predicate() of {p:?}");
	ck_eq!(qo(k.object().cloned()), p.o, "object() of {p:?}");
	ck_eq!(qs(k.subject()), pmap(&p.s, |x| x), "subject() by reference of {p:?}");
	let rp = k.predicate();
	ck_eq!(qp(rp), pmap(&p.p, |x| x), "predicate() by reference of {p:?}");
	ck_eq!(qo(k.object()), pmap(&p.o, |x| x), "object() by reference of {p:?}");
	ck_eq!(qg(k.graph()), pmap(&p.g, |x| x.as_ref()), "graph() of {p:?}");
	// by value
	ck_eq!(qs(k.clone().into_subject()), p.s, "into_subject() of {p:?}");
	ck_eq!(qp(k.clone().into_predicate()), p.p, "into_predicate() of {p:?}");
	ck_eq!(qo(k.clone().into_object()), p.o, "into_object() of {p:?}");
	ck_eq!(qg(k.clone().into_graph()), p.g, "into_graph() of {p:?}");
	// given identifiers of the components
	ck_eq!(k.subject().id().map(|x| (*x).clone()), given(&p.s), "subject().id() of {p:?}");
	ck_eq!(k.predicate().id().map(|x| (*x).clone()), given(&p.p), "predicate().id() of {p:?}");
	ck_eq!(k.object().id().map(|x| (*x).clone()), given(&p.o), "object().id() of {p:?}");
	ck_eq!(k.clone().into_subject().into_id(), given(&p.s), "into_subject().into_id() of {p:?}");
	ck_eq!(k.clone().into_predicate().into_id(), given(&p.p), "into_predicate().into_id() of {p:?}");
	ck_eq!(k.clone().into_object().into_id(), given(&p.o), "into_object().into_id() of {p:?}");
	// all at once
	let (s, pr, o, g) = k.clone().into_parts();
	let parts = QPat { s: qs(s), p: qp(pr), o: qo(o), g: qg(g) };
	ck_eq!(parts, *p, "into_parts() of {p:?}");
	ck_eq!(rebuild(&parts), k, "pattern rebuilt from its parts {p:?}");
	// the parts below the subject
	match k.clone() {
		CanonicalQuadPattern::AnySubject(x) => {
			ck_eq!(qp(x.predicate().cloned()), p.p, "predicate() below {p:?}");
			ck_eq!(qo(x.object().cloned()), p.o, "object() below {p:?}");
			ck_eq!(qg(x.graph()), pmap(&p.g, |x| x.as_ref()), "graph() below {p:?}");
			ck_eq!(qp(x.clone().into_predicate()), p.p, "into_predicate() below {p:?}");
			ck_eq!(qo(x.clone().into_object()), p.o, "into_object() below {p:?}");
			ck_eq!(qg(x.clone().into_graph()), p.g, "into_graph() below {p:?}");
			let (pr, o, g) = x.into_parts();
			ck_eq!((qp(pr), qo(o), qg(g)), (p.p.clone(), p.o.clone(), p.g.clone()), "into_parts() below {p:?}");
		}
		CanonicalQuadPattern::GivenSubject(_, x) => {
			ck_eq!(qp(x.predicate().cloned()), p.p, "predicate() below {p:?}");
			ck_eq!(qo(x.object().cloned()), p.o, "object() below {p:?}");
			ck_eq!(qg(x.graph()), pmap(&p.g, |x| x.as_ref()), "graph() below {p:?}");
			ck_eq!(qp(x.clone().into_predicate()), p.p, "into_predicate() below {p:?}");
			ck_eq!(qo(x.clone().into_object()), p.o, "into_object() below {p:?}");
			ck_eq!(qg(x.clone().into_graph()), p.g, "into_graph() below {p:?}");
			let (pr, o, g) = x.into_parts();
			ck_eq!((qp(pr), qo(o), qg(g)), (p.p.clone(), p.o.clone(), p.g.clone()), "into_parts() below {p:?}");
		}
	}
	// borrowed form
	ck_eq!(QPat::read(k.as_ref()), p.by_ref(), "as_ref() of {p:?}");
	ck_eq!(QPat::read(p.canonical()), p.by_ref(), "harness: canonical of {p:?}");
	// map
	let mut calls: Vec<X> = Vec::new();
	let m = k.clone().map(|x| {
		calls.push(x.clone());
		("mapped", x)
	});
	ck_eq!(QPat::read(m), qmap(p, &|x| ("mapped", x.clone())), "map() of {p:?}");
	let mut want: Vec<X> = [given(&p.s), given(&p.p), given(&p.o), given(&p.g).flatten()].into_iter().flatten().collect();
	want.sort();
	calls.sort();
	ck_eq!(calls, want, "resources map() applies the function to, in {p:?}");
	// map2
	let mut calls: Vec<X> = Vec::new();
	let (a, b) = k.clone().map2(|x| {
		calls.push(x.clone());
		(("left", x.clone()), (x, 7u8))
	});
	ck_eq!(QPat::read(a), qmap(p, &|x| ("left", x.clone())), "left pattern of map2() of {p:?}");
	ck_eq!(QPat::read(b), qmap(p, &|x| (x.clone(), 7u8)), "right pattern of map2() of {p:?}");
	calls.sort();
	ck_eq!(calls, want, "resources map2() applies the function to, in {p:?}");
	// splitting off the graph
	let (t, g) = k.clone().into_triple();
	ck_eq!(TPat::read(t.clone()), TPat { s: p.s.clone(), p: p.p.clone(), o: p.o.clone() }, "triple part of into_triple() of {p:?}");
	ck_eq!(qg(g), p.g, "graph part of into_triple() of {p:?}");
	// opening to any graph
	let any = QPat::read(t.clone().with_any_graph());
	ck_eq!(any, QPat { s: p.s.clone(), p: p.p.clone(), o: p.o.clone(), g: Pos::Any }, "with_any_graph() of the triple part of {p:?}");

	// triple pattern accessors
	ck_eq!(ts(t.subject().cloned()), p.s, "triple subject() of {p:?}");
	ck_eq!(tp(t.predicate().cloned()), p.p, "triple predicate() of {p:?}");
	ck_eq!(to(t.object().cloned()), p.o, "triple object() of {p:?}");
	ck_eq!(ts(t.clone().into_subject()), p.s, "triple into_subject() of {p:?}");
	ck_eq!(tp(t.clone().into_predicate()), p.p, "triple into_predicate() of {p:?}");
	ck_eq!(to(t.clone().into_object()), p.o, "triple into_object() of {p:?}");
	ck_eq!(t.subject().id().map(|x| (*x).clone()), given(&p.s), "triple subject().id() of {p:?}");
	ck_eq!(t.predicate().id().map(|x| (*x).clone()), given(&p.p), "triple predicate().id() of {p:?}");
	ck_eq!(t.object().id().map(|x| (*x).clone()), given(&p.o), "triple object().id() of {p:?}");
	ck_eq!(t.clone().into_subject().into_id(), given(&p.s), "triple into_subject().into_id() of {p:?}");
	ck_eq!(t.clone().into_predicate().into_id(), given(&p.p), "triple into_predicate().into_id() of {p:?}");
	ck_eq!(t.clone().into_object().into_id(), given(&p.o), "triple into_object().into_id() of {p:?}");
	match &t {
		CanonicalTriplePattern::AnySubject(x) => {
			ck_eq!(tp(x.predicate().cloned()), p.p, "triple predicate() below {p:?}");
			ck_eq!(to(x.object().cloned()), p.o, "triple object() below {p:?}");
			ck_eq!(tp(x.clone().into_predicate()), p.p, "triple into_predicate() below {p:?}");
			ck_eq!(to(x.clone().into_object()), p.o, "triple into_object() below {p:?}");
		}
		CanonicalTriplePattern::GivenSubject(_, x) => {
			ck_eq!(tp(x.predicate().cloned()), p.p, "triple predicate() below {p:?}");
			ck_eq!(to(x.object().cloned()), p.o, "triple object() below {p:?}");
			ck_eq!(tp(x.clone().into_predicate()), p.p, "triple into_predicate() below {p:?}");
			ck_eq!(to(x.clone().into_object()), p.o, "triple into_object() below {p:?}");
			match x {
				tc::GivenSubject::AnyPredicate(y) => ck_eq!(y.as_given().cloned(), given(&p.o), "as_given() below {p:?}"),
				tc::GivenSubject::GivenPredicate(_, y) => ck_eq!(y.as_given().cloned(), given(&p.o), "as_given() below {p:?}"),
			}
		}
	}
	// filtering by the object component
	for s in rs.iter().take(3) {
		for pr in rs.iter().take(3) {
			for o in rs.iter().take(4) {
				let want = match &p.o {
					Pos::Any => true,
					Pos::Given(x) => x == o,
					Pos::Same(0) => o == s,
					Pos::Same(_) => o == pr,
				};
				ck_eq!(t.object().filter_triple(Triple(s, pr, o)), want, "triple object filter of {p:?} on {:?}", (s, pr, o));
				ck_eq!(k.object().filter_triple(Triple(s, pr, o)), want, "quad object filter of {p:?} on {:?}", (s, pr, o));
			}
		}
	}
	Ok(())
}

trait ByRef<X> {
	fn by_ref(&self) -> QPat<&X>;
}
impl<X> ByRef<X> for QPat<X> {
	fn by_ref(&self) -> QPat<&X> {
		QPat { s: pmap(&self.s, |x| x), p: pmap(&self.p, |x| x), o: pmap(&self.o, |x| x), g: pmap(&self.g, |x| x.as_ref()) }
	}
}

fn exhaustive(_: bool) -> Result<u64, String> {
	let rs = [0u32, 1, 2, 3];
	let all = QPat::all(&rs);
	for p in &all {
		check(p, &rs)?;
	}
	Ok(all.len() as u64)
}

fn case<X: Res>(cx: &mut Cx) -> R {
	let n = cx.range(2, 6) as u32;
	let rs: Vec<X> = (0..n).map(X::make).collect();
	let p = QPat::gen(cx, &rs);
	cx.log(|| format!("{p:?}"));
	if [given(&p.s), given(&p.p), given(&p.o)].iter().any(|x| x.is_some()) {
		cx.nontrivial();
	}
	check(&p, &rs)
}

fn run(cx: &mut Cx) -> R {
	if cx.bool() {
		case::<Scrambled>(cx)
	} else {
		case::<LocalTerm>(cx)
	}
}

fn main() {
	main_with(Prop {
		id: "C14",
		rule: "enumeration of every canonical quad pattern over 4 resources (and its triple part), plus random ones over other resource types; each accessor and transformation is compared with the pattern read by destructuring; non-trivial: at least one given position",
		quick: 1_500_000,
		thorough: 4_000_000,
		assumptions: &["functions passed to map are called once per given resource, in unspecified order"],
		run,
		exhaustive: Some(exhaustive),
	})
}
