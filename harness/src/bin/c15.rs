//! C15: binding a position of a triple pattern.
use rdf_types::pattern::triple::canonical as tc;
use rdf_types::pattern::*;
use rdf_types::LocalTerm;
use std::fmt::Debug;
use vharness::cont::*;
use vharness::gen::*;
use vharness::*;

fn own<X: Clone>(p: &TPat<X>) -> CanonicalTriplePattern<X> {
	macro_rules! asgp {
		() => {
			match &p.o {
				Pos::Any => tc::AnySubjectGivenPredicate::AnyObject,
				Pos::Same(_) => tc::AnySubjectGivenPredicate::SameAsSubject,
				Pos::Given(o) => tc::AnySubjectGivenPredicate::GivenObject(o.clone()),
			}
		};
	}
	match &p.s {
		Pos::Given(s) => CanonicalTriplePattern::GivenSubject(
			s.clone(),
			match &p.p {
				Pos::Given(pr) => tc::GivenSubject::GivenPredicate(
					pr.clone(),
					match &p.o {
						Pos::Given(o) => tc::GivenSubjectGivenPredicate::GivenObject(o.clone()),
						_ => tc::GivenSubjectGivenPredicate::AnyObject,
					},
				),
				_ => tc::GivenSubject::AnyPredicate(match &p.o {
					Pos::Any => tc::GivenSubjectAnyPredicate::AnyObject,
					Pos::Same(_) => tc::GivenSubjectAnyPredicate::SameAsPredicate,
					Pos::Given(o) => tc::GivenSubjectAnyPredicate::GivenObject(o.clone()),
				}),
			},
		),
		_ => CanonicalTriplePattern::AnySubject(match &p.p {
			Pos::Any => tc::AnySubject::AnyPredicate(match &p.o {
				Pos::Any => tc::AnySubjectAnyPredicate::AnyObject,
				Pos::Same(0) => tc::AnySubjectAnyPredicate::SameAsSubject,
				Pos::Same(_) => tc::AnySubjectAnyPredicate::SameAsPredicate,
				Pos::Given(o) => tc::AnySubjectAnyPredicate::GivenObject(o.clone()),
			}),
			Pos::Same(_) => tc::AnySubject::SameAsSubject(asgp!()),
			Pos::Given(pr) => tc::AnySubject::GivenPredicate(pr.clone(), asgp!()),
		}),
	}
}

/// The original pattern without what it requires of position `k` alone.
fn freed<X: Clone>(p: &TPat<X>, k: usize) -> TPat<X> {
	let mut q = p.clone();
	let pos = [&mut q.s, &mut q.p, &mut q.o].into_iter().nth(k).unwrap();
	if matches!(pos, Pos::Given(_)) {
		*pos = Pos::Any;
	}
	q
}

/// Binds position `k`, returns the old component, in place.
fn bind<X: Clone>(c: &mut CanonicalTriplePattern<X>, k: usize, r: X) -> Pos<X> {
	match k {
		0 => match c.set_subject(r) {
			tc::PatternSubject::Any => Pos::Any,
			tc::PatternSubject::Given(x) => Pos::Given(x),
		},
		1 => match c.set_predicate(r) {
			tc::PatternPredicate::Any => Pos::Any,
			tc::PatternPredicate::SameAsSubject => Pos::Same(0),
			tc::PatternPredicate::Given(x) => Pos::Given(x),
		},
		_ => match c.set_object(r) {
			tc::PatternObject::Any => Pos::Any,
			tc::PatternObject::SameAsSubject => Pos::Same(0),
			tc::PatternObject::SameAsPredicate => Pos::Same(1),
			tc::PatternObject::Given(x) => Pos::Given(x),
		},
	}
}

fn check<X: Clone + PartialEq + Debug>(p: &TPat<X>, k: usize, r: &X, triples: &[T<X>]) -> Result<CanonicalTriplePattern<X>, String> {
	let role = ["subject", "predicate", "object"][k];
	let orig = own(p);
	ck_eq!(TPat::read(orig.clone()), *p, "harness: reading back {p:?}");
	let mut c = orig.clone();
	let old = bind(&mut c, k, r.clone());
	let was = [&p.s, &p.p, &p.o][k];
	ck_eq!(&old, was, "component returned when binding the {role} of {p:?} to {r:?}");
	let by_value = match k {
		0 => orig.with_subject(r.clone()),
		1 => orig.with_predicate(r.clone()),
		_ => orig.with_object(r.clone()),
	};
	ck_eq!(by_value, c, "by-value and in-place binding of the {role} of {p:?} to {r:?}");
	let got = TPat::read(c.clone());
	let rest = freed(p, k);
	for t in triples {
		let want = rest.accepts(&t.0, &t.1, &t.2) && *[&t.0, &t.1, &t.2][k] == *r;
		ck_eq!(got.accepts(&t.0, &t.1, &t.2), want, "{p:?} with the {role} bound to {r:?} is {got:?}: acceptance of {t:?}");
	}
	Ok(c)
}

fn all_triples<X: Clone>(rs: &[X]) -> Vec<T<X>> {
	let mut v = Vec::new();
	for s in rs {
		for p in rs {
			for o in rs {
				v.push((s.clone(), p.clone(), o.clone()));
			}
		}
	}
	v
}

fn exhaustive(_: bool) -> Result<u64, String> {
	let ts = all_triples(&[0u32, 1, 2, 3]);
	let mut n = 0;
	for p in TPat::all(&[0u32, 1, 2]) {
		for k in 0..3 {
			for r in 0..4 {
				check(&p, k, &r, &ts)?;
				n += 1;
			}
		}
	}
	Ok(n)
}

fn case<X: Res>(cx: &mut Cx) -> R {
	let n = cx.range(2, 4) as u32;
	let rs: Vec<X> = (0..n).map(X::make).collect();
	let ts = all_triples(&rs);
	let mut p = TPat::gen(cx, &rs);
	if matches!((&p.p, &p.o), (Pos::Same(_), _) | (_, Pos::Same(_))) {
		cx.nontrivial();
	}
	// several bindings in a row
	for _ in 0..cx.range(1, 4) {
		let k = cx.us(3);
		let r = cx.pick(&rs).clone();
		cx.log(|| format!("{p:?}: position {k} := {r:?}"));
		let c = check(&p, k, &r, &ts)?;
		p = TPat::read(c);
	}
	Ok(())
}

fn run(cx: &mut Cx) -> R {
	if cx.bool() {
		case::<Scrambled>(cx)
	} else {
		case::<LocalTerm>(cx)
	}
}

fn main() {
	main_with(Prop {
		id: "C15",
		rule: "enumeration of every canonical triple pattern over 3 resources, every position and 4 bound resources, acceptance compared on every triple over 4 resources; plus random sequences of bindings over other resource types; non-trivial: a pattern with an equality constraint",
		quick: 1_000_000,
		thorough: 4_000_000,
		assumptions: &[],
		run,
		exhaustive: Some(exhaustive),
	})
}
