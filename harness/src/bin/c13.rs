//! C13: construction of canonical patterns.
use rdf_types::pattern::*;
use rdf_types::{LocalTerm, Quad, Triple};
use std::fmt::Debug;
use vharness::cont::*;
use vharness::gen::*;
use vharness::*;

/// Component of a variable pattern: a resource or a variable number.
#[derive(Clone, Debug, PartialEq)]
enum C<X> {
	R(X),
	V(u8),
}

/// Reference meaning of `(s, p, o, g)` (no graph: default graph).
fn describes<X: PartialEq>(c: &[C<X>; 3], g: &Option<C<X>>, q: &Q<X>) -> bool {
	let mut env: Vec<(u8, &X)> = Vec::new();
	let mut eat = |c: &C<X>, v: Option<&'_ X>| -> bool {
		let _ = &v;
		match (c, v) {
			(C::R(r), Some(v)) => r == v,
			(C::R(_), None) => false,
			(C::V(_), _) => true,
		}
	};
	let vals = [&q.0, &q.1, &q.2];
	for (c, v) in c.iter().zip(vals) {
		if !eat(c, Some(v)) {
			return false;
		}
		if let C::V(n) = c {
			match env.iter().find(|e| e.0 == *n) {
				Some(e) if e.1 != v => return false,
				Some(_) => (),
				None => env.push((*n, v)),
			}
		}
	}
	match (g, &q.3) {
		(None, g) => g.is_none(),
		(Some(C::R(r)), Some(v)) => r == v,
		(Some(C::R(_)), None) => false,
		// a variable of its own: any graph
		(Some(C::V(n)), v) => match env.iter().find(|e| e.0 == *n) {
			Some(e) => v.as_ref() == Some(e.1),
			None => true,
		},
	}
}

fn rv<X: Clone, V>(c: &C<X>, name: &dyn Fn(u8) -> V) -> ResourceOrVar<X, V> {
	match c {
		C::R(x) => ResourceOrVar::Resource(x.clone()),
		C::V(n) => ResourceOrVar::Var(name(*n)),
	}
}

/// A component stays what it is, a resource or a variable, through conversions.
fn component<X: Clone + PartialEq + Debug>(c: &C<X>) -> R {
	let x: ResourceOrVar<X, u8> = rv(c, &|n| n);
	let back = |r: ResourceOrVar<X, u8>| match r {
		ResourceOrVar::Resource(x) => C::R(x),
		ResourceOrVar::Var(n) => C::V(n),
	};
	ck_eq!(back(x.clone()), *c, "harness: component {c:?}");
	ck!(
		match (x.as_ref(), c) {
			(ResourceOrVar::Resource(a), C::R(b)) => a == b,
			(ResourceOrVar::Var(a), C::V(b)) => a == b,
			_ => false,
		},
		"as_ref() of the component {c:?}"
	);
	ck!(
		match (x.clone().map(|r| ("mapped", r)), c) {
			(ResourceOrVar::Resource((t, a)), C::R(b)) => t == "mapped" && a == *b,
			(ResourceOrVar::Var(a), C::V(b)) => a == *b,
			_ => false,
		},
		"map() of the component {c:?}"
	);
	for ans in [true, false] {
		let mut asked = None;
		let got = x.is_id_or(|v| {
			asked = Some(*v);
			ans
		});
		match c {
			C::R(_) => ck!(got && asked.is_none(), "is_id_or() of the component {c:?}"),
			C::V(n) => ck!(got == ans && asked == Some(*n), "is_id_or() of the component {c:?}"),
		}
	}
	if let C::R(r) = c {
		ck_eq!(back(ResourceOrVar::from(r.clone())), *c, "component made from a resource");
	}
	Ok(())
}

fn agree_q<X: Clone + PartialEq + Debug>(what: &str, canon: CanonicalQuadPattern<X>, stmts: &[Q<X>], want: &dyn Fn(&Q<X>) -> bool) -> R {
	let p = QPat::read(canon);
	for q in stmts {
		ck_eq!(p.accepts(&q.0, &q.1, &q.2, q.3.as_ref()), want(q), "{what}: the canonical pattern {p:?} on {q:?}");
	}
	Ok(())
}
fn agree_t<X: Clone + PartialEq + Debug>(what: &str, canon: CanonicalTriplePattern<X>, stmts: &[Q<X>], want: &dyn Fn(&Q<X>) -> bool) -> R {
	let p = TPat::read(canon);
	for q in stmts {
		ck_eq!(p.accepts(&q.0, &q.1, &q.2), want(q), "{what}: the canonical pattern {p:?} on {:?}", (&q.0, &q.1, &q.2));
	}
	Ok(())
}

/// Variable patterns.
fn vars<X: Clone + PartialEq + Debug>(c: &[C<X>; 3], g: &Option<C<X>>, stmts: &[Q<X>]) -> R {
	let num = |n: u8| n;
	let text = |n: u8| ["y", "", "x1", "a", "Z"][n as usize % 5].to_string();
	let neg = |n: u8| -(n as i64);
	let q0: QuadPattern<X, u8> = Quad(rv(&c[0], &num), rv(&c[1], &num), rv(&c[2], &num), g.as_ref().map(|g| rv(g, &num)));
	let q1: QuadPattern<X, String> = Quad(rv(&c[0], &text), rv(&c[1], &text), rv(&c[2], &text), g.as_ref().map(|g| rv(g, &text)));
	let q2: QuadPattern<X, i64> = Quad(rv(&c[0], &neg), rv(&c[1], &neg), rv(&c[2], &neg), g.as_ref().map(|g| rv(g, &neg)));
	let k0 = CanonicalQuadPattern::from_pattern(q0.clone());
	ck_eq!(CanonicalQuadPattern::from_pattern(q1), k0, "renaming the variables of {c:?} {g:?} changes the canonical pattern");
	ck_eq!(CanonicalQuadPattern::from_pattern(q2), k0, "renaming the variables of {c:?} {g:?} changes the canonical pattern");
	ck_eq!(CanonicalQuadPattern::from(q0), k0, "From<QuadPattern> on {c:?} {g:?}");
	agree_q(&format!("quad pattern {c:?} graph {g:?}"), k0, stmts, &|q| describes(c, g, q))?;
	if g.is_none() {
		let t0: TriplePattern<X, u8> = Triple(rv(&c[0], &num), rv(&c[1], &num), rv(&c[2], &num));
		let t1: TriplePattern<X, String> = Triple(rv(&c[0], &text), rv(&c[1], &text), rv(&c[2], &text));
		let k = CanonicalTriplePattern::from_pattern(t0.clone());
		ck_eq!(CanonicalTriplePattern::from_pattern(t1.clone()), k, "renaming the variables of {c:?} changes the canonical pattern");
		ck_eq!(CanonicalTriplePattern::from(t0.clone()), k, "From<TriplePattern> on {c:?}");
		agree_t(&format!("triple pattern {c:?}"), k, stmts, &|q| describes(c, &None, &(q.0.clone(), q.1.clone(), q.2.clone(), None)))?;
		// as a quad pattern: no graph, the default graph
		let k = CanonicalQuadPattern::from_triple_pattern(t0.clone());
		ck_eq!(CanonicalQuadPattern::from_triple_pattern(t1), k, "renaming the variables of {c:?} changes the canonical quad pattern");
		ck_eq!(CanonicalQuadPattern::from(t0), k, "From<TriplePattern> for quad patterns on {c:?}");
		agree_q(&format!("triple pattern {c:?} as a quad pattern"), k, stmts, &|q| describes(c, &None, q))?;
	}
	Ok(())
}

/// Statements and optional components.
fn options<X: Clone + PartialEq + Debug>(o: &[Option<X>; 3], g: &Option<Option<X>>, stmts: &[Q<X>]) -> R {
	let fits = |q: &Q<X>| o[0].as_ref().map_or(true, |x| *x == q.0) && o[1].as_ref().map_or(true, |x| *x == q.1) && o[2].as_ref().map_or(true, |x| *x == q.2);
	let t = Triple(o[0].clone(), o[1].clone(), o[2].clone());
	let q = Quad(o[0].clone(), o[1].clone(), o[2].clone(), g.clone());
	let k = CanonicalQuadPattern::from_option_quad(q.clone());
	ck_eq!(CanonicalQuadPattern::from(q), k, "From<Quad<Option>> on {o:?} {g:?}");
	agree_q(&format!("optional quad {o:?} graph {g:?}"), k, stmts, &|q| fits(q) && g.as_ref().map_or(true, |g| *g == q.3))?;
	if g.is_none() {
		let k = CanonicalTriplePattern::from_option_triple(t.clone());
		ck_eq!(CanonicalTriplePattern::from(t.clone()), k, "From<Triple<Option>> on {o:?}");
		agree_t(&format!("optional triple {o:?}"), k, stmts, &fits)?;
		let k = CanonicalQuadPattern::from_option_triple(t.clone());
		ck_eq!(CanonicalQuadPattern::from(t), k, "From<Triple<Option>> for quad patterns on {o:?}");
		agree_q(&format!("optional triple {o:?} as a quad pattern"), k, stmts, &fits)?;
	}
	if let ([Some(s), Some(p), Some(ob)], gg) = (o, g) {
		if let Some(gg) = gg {
			let q = Quad(s.clone(), p.clone(), ob.clone(), gg.clone());
			let k = CanonicalQuadPattern::from_quad(q.clone());
			ck_eq!(CanonicalQuadPattern::from(q), k, "From<Quad> on {o:?} {gg:?}");
			agree_q(&format!("quad {o:?} {gg:?}"), k, stmts, &|q| fits(q) && *gg == q.3)?;
		} else {
			let t = Triple(s.clone(), p.clone(), ob.clone());
			let k = CanonicalQuadPattern::from_triple(t.clone());
			ck_eq!(CanonicalQuadPattern::from(t.clone()), k, "From<Triple> for quad patterns on {o:?}");
			agree_q(&format!("triple {o:?} as a quad pattern"), k, stmts, &fits)?;
			let k = CanonicalTriplePattern::from_triple(t.clone());
			ck_eq!(CanonicalTriplePattern::from(t), k, "From<Triple> on {o:?}");
			agree_t(&format!("triple {o:?}"), k, stmts, &fits)?;
		}
	}
	Ok(())
}

fn all_stmts<X: Clone>(rs: &[X]) -> Vec<Q<X>> {
	let mut v = Vec::new();
	for s in rs {
		for p in rs {
			for o in rs {
				for g in std::iter::once(None).chain(rs.iter().cloned().map(Some)) {
					v.push((s.clone(), p.clone(), o.clone(), g));
				}
			}
		}
	}
	v
}

fn exhaustive(_: bool) -> Result<u64, String> {
	let mut n = 0;
	let st = all_stmts(&[0u32, 1, 2, 3]);
	let comp: Vec<C<u32>> = [C::R(0), C::R(1), C::R(2)].into_iter().chain((0..4).map(C::V)).collect();
	let opts = [None, Some(0u32), Some(1), Some(2)];
	for a in &comp {
		component(a)?;
		for b in &comp {
			for c in &comp {
				for g in std::iter::once(None).chain(comp.iter().cloned().map(Some)) {
					vars(&[a.clone(), b.clone(), c.clone()], &g, &st)?;
					n += 1;
				}
			}
		}
	}
	for a in opts {
		for b in opts {
			for c in opts {
				for g in [None, Some(None), Some(Some(0)), Some(Some(1)), Some(Some(2))] {
					options(&[a, b, c], &g, &st)?;
					n += 1;
				}
			}
		}
	}
	Ok(n)
}

fn case<X: Res>(cx: &mut Cx) -> R {
	let n = cx.range(2, 5) as u32;
	let rs: Vec<X> = (0..n).map(X::make).collect();
	let stmts: Vec<Q<X>> = (0..40)
		.map(|_| {
			let q = quad_i(cx, n);
			let f = |i: u32| rs[i as usize].clone();
			(f(q.0), f(q.1), f(q.2), q.3.map(f))
		})
		.collect();
	let comp = |cx: &mut Cx| if cx.chance(2, 5) { C::R(cx.pick(&rs).clone()) } else { C::V(cx.below(5) as u8) };
	let c = [comp(cx), comp(cx), comp(cx)];
	let g = if cx.chance(3, 4) { Some(comp(cx)) } else { None };
	cx.log(|| format!("variable pattern {c:?} graph {g:?}"));
	for c in c.iter().chain(&g) {
		component(c)?;
	}
	vars(&c, &g, &stmts)?;
	let opt = |cx: &mut Cx| if cx.bool() { Some(cx.pick(&rs).clone()) } else { None };
	let o = [opt(cx), opt(cx), opt(cx)];
	let g2 = if cx.bool() { Some(opt(cx)) } else { None };
	cx.log(|| format!("optional components {o:?} graph {g2:?}"));
	options(&o, &g2, &stmts)?;
	if c.iter().any(|x| matches!(x, C::V(_))) {
		cx.nontrivial();
	}
	Ok(())
}

fn run(cx: &mut Cx) -> R {
	if cx.bool() {
		case::<Scrambled>(cx)
	} else {
		case::<LocalTerm>(cx)
	}
}

fn main() {
	main_with(Prop {
		id: "C13",
		rule: "enumeration of every variable pattern over 3 resources and 4 variables and every optional pattern over 3 resources, evaluated on every quad over 4 resources; plus random ones over other resource types. The canonical pattern is read by destructuring and its acceptance compared with the reference meaning; variables are renamed three ways; non-trivial: a pattern with at least one variable",
		quick: 600_000,
		thorough: 4_000_000,
		assumptions: &["a triple, or an optional triple, turned into a quad pattern leaves the graph free; a graph variable used nowhere else leaves the graph free"],
		run,
		exhaustive: Some(exhaustive),
	})
}
