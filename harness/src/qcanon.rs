// Constructor-by-constructor construction of canonical quad patterns (included by cont.rs).

macro_rules! graph_part {
	($g:expr, $ty:ident, $($i:literal => $v:ident),*) => {
		match $g {
			Pos::Any => qc::$ty::AnyGraph,
			Pos::Given(g) => qc::$ty::GivenGraph(g.as_ref()),
			$(Pos::Same($i) => qc::$ty::$v,)*
			#[allow(unreachable_patterns)]
			Pos::Same(i) => unreachable!("graph same as {i}"),
		}
	};
}

impl<X> QPat<X> {
	fn c_asgpgo(&self) -> qc::AnySubjectGivenPredicateGivenObject<&X> {
		graph_part!(&self.g, AnySubjectGivenPredicateGivenObject, 0 => SameAsSubject)
	}
	fn c_asgp(&self) -> qc::AnySubjectGivenPredicate<&X> {
		match &self.o {
			Pos::Any => qc::AnySubjectGivenPredicate::AnyObject(graph_part!(&self.g, AnySubjectGivenPredicateAnyObject, 0 => SameAsSubject, 2 => SameAsObject)),
			Pos::Same(0) => qc::AnySubjectGivenPredicate::SameAsSubject(self.c_asgpgo()),
			Pos::Given(o) => qc::AnySubjectGivenPredicate::GivenObject(o, self.c_asgpgo()),
			_ => unreachable!(),
		}
	}
	fn c_asapgo(&self) -> qc::AnySubjectAnyPredicateGivenObject<&X> {
		graph_part!(&self.g, AnySubjectAnyPredicateGivenObject, 0 => SameAsSubject, 1 => SameAsPredicate)
	}
	fn c_gsapgo(&self) -> qc::GivenSubjectAnyPredicateGivenObject<&X> {
		graph_part!(&self.g, GivenSubjectAnyPredicateGivenObject, 1 => SameAsPredicate)
	}

	/// The canonical pattern, built constructor by constructor (no library conversion involved).
	pub fn canonical(&self) -> CanonicalQuadPattern<&X> {
		match &self.s {
			Pos::Given(s) => CanonicalQuadPattern::GivenSubject(
				s,
				match &self.p {
					Pos::Any => qc::GivenSubject::AnyPredicate(match &self.o {
						Pos::Any => qc::GivenSubjectAnyPredicate::AnyObject(graph_part!(&self.g, GivenSubjectAnyPredicateAnyObject, 1 => SameAsPredicate, 2 => SameAsObject)),
						Pos::Same(_) => qc::GivenSubjectAnyPredicate::SameAsPredicate(self.c_gsapgo()),
						Pos::Given(o) => qc::GivenSubjectAnyPredicate::GivenObject(o, self.c_gsapgo()),
					}),
					Pos::Given(p) => qc::GivenSubject::GivenPredicate(
						p,
						match &self.o {
							Pos::Any => qc::GivenSubjectGivenPredicate::AnyObject(graph_part!(&self.g, GivenSubjectGivenPredicateAnyObject, 2 => SameAsObject)),
							Pos::Given(o) => qc::GivenSubjectGivenPredicate::GivenObject(o, graph_part!(&self.g, GivenSubjectGivenPredicateGivenObject,)),
							_ => unreachable!(),
						},
					),
					_ => unreachable!(),
				},
			),
			_ => CanonicalQuadPattern::AnySubject(match &self.p {
				Pos::Any => qc::AnySubject::AnyPredicate(match &self.o {
					Pos::Any => qc::AnySubjectAnyPredicate::AnyObject(graph_part!(&self.g, AnySubjectAnyPredicateAnyObject, 0 => SameAsSubject, 1 => SameAsPredicate, 2 => SameAsObject)),
					Pos::Same(0) => qc::AnySubjectAnyPredicate::SameAsSubject(self.c_asapgo()),
					Pos::Same(_) => qc::AnySubjectAnyPredicate::SameAsPredicate(self.c_asapgo()),
					Pos::Given(o) => qc::AnySubjectAnyPredicate::GivenObject(o, self.c_asapgo()),
				}),
				Pos::Same(_) => qc::AnySubject::SameAsSubject(self.c_asgp()),
				Pos::Given(p) => qc::AnySubject::GivenPredicate(p, self.c_asgp()),
			}),
		}
	}
}

macro_rules! graph_back {
	($g:expr, $ty:ident, $($i:literal => $v:ident),*) => {
		match $g {
			qc::$ty::AnyGraph => Pos::Any,
			qc::$ty::GivenGraph(g) => Pos::Given(g),
			$(qc::$ty::$v => Pos::Same($i),)*
		}
	};
}

impl<X> QPat<X> {
	/// Reads a canonical pattern by destructuring its constructors (no library accessor involved).
	pub fn read(c: CanonicalQuadPattern<X>) -> QPat<X> {
		fn asgp<X>(x: qc::AnySubjectGivenPredicate<X>) -> (Pos<X>, Pos<Option<X>>) {
			use qc::AnySubjectGivenPredicate as E;
			match x {
				E::AnyObject(g) => (Pos::Any, graph_back!(g, AnySubjectGivenPredicateAnyObject, 0 => SameAsSubject, 2 => SameAsObject)),
				E::SameAsSubject(g) => (Pos::Same(0), graph_back!(g, AnySubjectGivenPredicateGivenObject, 0 => SameAsSubject)),
				E::GivenObject(o, g) => (Pos::Given(o), graph_back!(g, AnySubjectGivenPredicateGivenObject, 0 => SameAsSubject)),
			}
		}
		match c {
			CanonicalQuadPattern::AnySubject(x) => {
				let (p, (o, g)) = match x {
					qc::AnySubject::AnyPredicate(x) => {
						use qc::AnySubjectAnyPredicate as E;
						(
							Pos::Any,
							match x {
								E::AnyObject(g) => (Pos::Any, graph_back!(g, AnySubjectAnyPredicateAnyObject, 0 => SameAsSubject, 1 => SameAsPredicate, 2 => SameAsObject)),
								E::SameAsSubject(g) => (Pos::Same(0), graph_back!(g, AnySubjectAnyPredicateGivenObject, 0 => SameAsSubject, 1 => SameAsPredicate)),
								E::SameAsPredicate(g) => (Pos::Same(1), graph_back!(g, AnySubjectAnyPredicateGivenObject, 0 => SameAsSubject, 1 => SameAsPredicate)),
								E::GivenObject(o, g) => (Pos::Given(o), graph_back!(g, AnySubjectAnyPredicateGivenObject, 0 => SameAsSubject, 1 => SameAsPredicate)),
							},
						)
					}
					qc::AnySubject::SameAsSubject(x) => (Pos::Same(0), asgp(x)),
					qc::AnySubject::GivenPredicate(p, x) => (Pos::Given(p), asgp(x)),
				};
				QPat { s: Pos::Any, p, o, g }
			}
			CanonicalQuadPattern::GivenSubject(s, x) => {
				let (p, (o, g)) = match x {
					qc::GivenSubject::AnyPredicate(x) => {
						use qc::GivenSubjectAnyPredicate as E;
						(
							Pos::Any,
							match x {
								E::AnyObject(g) => (Pos::Any, graph_back!(g, GivenSubjectAnyPredicateAnyObject, 1 => SameAsPredicate, 2 => SameAsObject)),
								E::SameAsPredicate(g) => (Pos::Same(1), graph_back!(g, GivenSubjectAnyPredicateGivenObject, 1 => SameAsPredicate)),
								E::GivenObject(o, g) => (Pos::Given(o), graph_back!(g, GivenSubjectAnyPredicateGivenObject, 1 => SameAsPredicate)),
							},
						)
					}
					qc::GivenSubject::GivenPredicate(p, x) => {
						use qc::GivenSubjectGivenPredicate as E;
						(
							Pos::Given(p),
							match x {
								E::AnyObject(g) => (Pos::Any, graph_back!(g, GivenSubjectGivenPredicateAnyObject, 2 => SameAsObject)),
								E::GivenObject(o, g) => (Pos::Given(o), graph_back!(g, GivenSubjectGivenPredicateGivenObject,)),
							},
						)
					}
				};
				QPat { s: Pos::Given(s), p, o, g }
			}
		}
	}
}

impl<X> TPat<X> {
	/// Reads a canonical pattern by destructuring its constructors (no library accessor involved).
	pub fn read(c: CanonicalTriplePattern<X>) -> TPat<X> {
		fn asgp<X>(x: tc::AnySubjectGivenPredicate<X>) -> Pos<X> {
			match x {
				tc::AnySubjectGivenPredicate::AnyObject => Pos::Any,
				tc::AnySubjectGivenPredicate::SameAsSubject => Pos::Same(0),
				tc::AnySubjectGivenPredicate::GivenObject(o) => Pos::Given(o),
			}
		}
		match c {
			CanonicalTriplePattern::AnySubject(x) => {
				let (p, o) = match x {
					tc::AnySubject::AnyPredicate(x) => (
						Pos::Any,
						match x {
							tc::AnySubjectAnyPredicate::AnyObject => Pos::Any,
							tc::AnySubjectAnyPredicate::SameAsSubject => Pos::Same(0),
							tc::AnySubjectAnyPredicate::SameAsPredicate => Pos::Same(1),
							tc::AnySubjectAnyPredicate::GivenObject(o) => Pos::Given(o),
						},
					),
					tc::AnySubject::SameAsSubject(x) => (Pos::Same(0), asgp(x)),
					tc::AnySubject::GivenPredicate(p, x) => (Pos::Given(p), asgp(x)),
				};
				TPat { s: Pos::Any, p, o }
			}
			CanonicalTriplePattern::GivenSubject(s, x) => {
				let (p, o) = match x {
					tc::GivenSubject::AnyPredicate(x) => (
						Pos::Any,
						match x {
							tc::GivenSubjectAnyPredicate::AnyObject => Pos::Any,
							tc::GivenSubjectAnyPredicate::SameAsPredicate => Pos::Same(1),
							tc::GivenSubjectAnyPredicate::GivenObject(o) => Pos::Given(o),
						},
					),
					tc::GivenSubject::GivenPredicate(p, x) => (
						Pos::Given(p),
						match x {
							tc::GivenSubjectGivenPredicate::AnyObject => Pos::Any,
							tc::GivenSubjectGivenPredicate::GivenObject(o) => Pos::Given(o),
						},
					),
				};
				TPat { s: Pos::Given(s), p, o }
			}
		}
	}
}

impl<X: Clone> TPat<X> {
	/// Every pattern shape over the given resources.
	pub fn all(rs: &[X]) -> Vec<Self> {
		let mut v = Vec::new();
		let giv = || rs.iter().cloned().map(Pos::Given);
		for s in std::iter::once(Pos::Any).chain(giv()) {
			let mut ps: Vec<Pos<X>> = std::iter::once(Pos::Any).chain(giv()).collect();
			if matches!(s, Pos::Any) {
				ps.push(Pos::Same(0));
			}
			for p in ps {
				let mut os: Vec<Pos<X>> = std::iter::once(Pos::Any).chain(giv()).collect();
				if matches!(s, Pos::Any) {
					os.push(Pos::Same(0));
				}
				if matches!(p, Pos::Any) {
					os.push(Pos::Same(1));
				}
				for o in os {
					v.push(TPat { s: s.clone(), p: p.clone(), o });
				}
			}
		}
		v
	}
}

impl<X: Clone> QPat<X> {
	/// Every pattern shape over the given resources.
	pub fn all(rs: &[X]) -> Vec<Self> {
		let mut v = Vec::new();
		for t in TPat::all(rs) {
			let mut gs = vec![Pos::Any, Pos::Given(None)];
			gs.extend(rs.iter().cloned().map(|r| Pos::Given(Some(r))));
			for (i, p) in [&t.s, &t.p, &t.o].into_iter().enumerate() {
				if matches!(p, Pos::Any) {
					gs.push(Pos::Same(i));
				}
			}
			for g in gs {
				v.push(QPat { s: t.s.clone(), p: t.p.clone(), o: t.o.clone(), g });
			}
		}
		v
	}
}
