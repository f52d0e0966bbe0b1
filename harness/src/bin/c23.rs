//! C23: interpretations map terms to resources and back consistently.
use rdf_types::generator::{Blank, LocalGeneratorInterpretation};
use rdf_types::interpretation::fallible::{FallibleGenerativeInterpretation, TraversableFallibleInterpretation};
use rdf_types::interpretation::*;
use rdf_types::*;
use std::borrow::Cow;
use vharness::cont::iter_laws;
use vharness::gen::*;
use vharness::nq::same_text;
use vharness::*;

/// Reference interpretation: a table of resources and their terms.
#[derive(Clone, Debug, PartialEq, Default)]
struct Table {
	rows: Vec<Vec<LocalTerm>>,
	ids: Vec<Node>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Node(usize);

impl Table {
	fn find(&self, t: &LocalTerm) -> Option<Node> {
		self.rows.iter().position(|r| r.contains(t)).map(Node)
	}
	fn add_row(&mut self, terms: Vec<LocalTerm>) -> Node {
		let n = Node(self.rows.len());
		self.rows.push(terms);
		self.ids.push(n);
		n
	}
	fn put(&mut self, t: LocalTerm) -> Node {
		self.find(&t).unwrap_or_else(|| self.add_row(vec![t]))
	}
}
impl Interpretation for Table {
	type Resource = Node;
	fn iri(&self, i: &Iri) -> Option<Node> {
		self.find(&LocalTerm::Named(Term::Iri(iri(i.as_str()))))
	}
	fn literal<'a>(&self, l: impl Into<LiteralRef<'a>>) -> Option<Node> {
		let l = l.into();
		self.find(&LocalTerm::Named(Term::Literal(Literal { value: l.value.to_string(), type_: own_type(l.type_) })))
	}
}
fn own_type(t: LiteralTypeRef) -> LiteralType {
	match t {
		LiteralTypeRef::Any(i) => LiteralType::Any(iri(i.as_str())),
		LiteralTypeRef::LangString(l) => LiteralType::LangString(lang(l.as_str())),
	}
}
impl LocalInterpretation for Table {
	fn blank_id(&self, b: &BlankId) -> Option<Node> {
		self.find(&LocalTerm::Anonymous(blank(b.as_str())))
	}
}
impl TraversableInterpretation for Table {
	type Resources<'a> = std::slice::Iter<'a, Node>;
	fn resources(&self) -> Self::Resources<'_> {
		self.ids.iter()
	}
}
impl InterpretationMut for Table {
	fn insert_iri<'a>(&mut self, i: impl Into<Cow<'a, Iri>>) -> Node {
		let i = i.into();
		self.put(LocalTerm::Named(Term::Iri(iri(i.as_str()))))
	}
	fn insert_literal<'a>(&mut self, l: impl Into<CowLiteral<'a>>) -> Node {
		let l = l.into();
		let type_ = match &l.type_ {
			CowLiteralType::Any(i) => LiteralType::Any(iri(i.as_str())),
			CowLiteralType::LangString(t) => LiteralType::LangString(lang(t.as_str())),
		};
		self.put(LocalTerm::Named(Term::Literal(Literal { value: l.value.to_string(), type_ })))
	}
}
impl LocalInterpretationMut for Table {
	fn insert_blank_id<'a>(&mut self, b: impl Into<Cow<'a, BlankId>>) -> Node {
		let b = b.into();
		self.put(LocalTerm::Anonymous(blank(b.as_str())))
	}
}
impl ReverseInterpretation for Table {
	type Iris<'a> = std::vec::IntoIter<Cow<'a, Iri>>;
	type Literals<'a> = std::vec::IntoIter<CowLiteral<'a>>;
	fn iris_of<'a>(&'a self, n: &'a Node) -> Self::Iris<'a> {
		let v: Vec<Cow<'a, Iri>> = self.rows[n.0]
			.iter()
			.filter_map(|t| match t {
				LocalTerm::Named(Term::Iri(i)) => Some(Cow::Borrowed(i.as_iri())),
				_ => None,
			})
			.collect();
		v.into_iter()
	}
	fn literals_of<'a>(&'a self, n: &'a Node) -> Self::Literals<'a> {
		let v: Vec<CowLiteral<'a>> = self.rows[n.0]
			.iter()
			.filter_map(|t| match t {
				LocalTerm::Named(Term::Literal(l)) => Some(CowLiteral {
					value: Cow::Borrowed(&l.value),
					type_: match &l.type_ {
						LiteralType::Any(i) => CowLiteralType::Any(Cow::Borrowed(i)),
						LiteralType::LangString(t) => CowLiteralType::LangString(Cow::Borrowed(t)),
					},
				}),
				_ => None,
			})
			.collect();
		v.into_iter()
	}
}
impl ReverseLocalInterpretation for Table {
	type BlankIds<'a> = std::vec::IntoIter<Cow<'a, BlankId>>;
	fn blank_ids_of<'a>(&'a self, n: &'a Node) -> Self::BlankIds<'a> {
		let v: Vec<Cow<'a, BlankId>> = self.rows[n.0]
			.iter()
			.filter_map(|t| match t {
				LocalTerm::Anonymous(b) => Some(Cow::Borrowed(b.as_blank_id_ref())),
				_ => None,
			})
			.collect();
		v.into_iter()
	}
}

// ------------------------------------------------------------------ reading results

fn cow_term(t: CowTerm) -> LocalTerm {
	LocalTerm::Named(match t {
		CowTerm::Iri(i) => Term::Iri(iri(i.as_str())),
		CowTerm::Literal(l) => Term::Literal(lit(l)),
	})
}
fn lit(l: CowLiteral) -> Literal {
	Literal {
		value: l.value.to_string(),
		type_: match l.type_ {
			CowLiteralType::Any(i) => LiteralType::Any(iri(i.as_str())),
			CowLiteralType::LangString(t) => LiteralType::LangString(lang(t.as_str())),
		},
	}
}
fn cow_local(t: CowLocalTerm) -> LocalTerm {
	match t {
		CowLocalTerm::Anonymous(b) => LocalTerm::Anonymous(blank(b.as_str())),
		CowLocalTerm::Named(t) => cow_term(t),
	}
}
fn term_ref(t: &Term) -> TermRef<'_> {
	match t {
		Term::Iri(i) => TermRef::Iri(i),
		Term::Literal(l) => TermRef::Literal(lit_ref(l)),
	}
}
fn lit_ref(l: &Literal) -> LiteralRef<'_> {
	LiteralRef {
		value: &l.value,
		type_: match &l.type_ {
			LiteralType::Any(i) => LiteralTypeRef::Any(i),
			LiteralType::LangString(t) => LiteralTypeRef::LangString(t),
		},
	}
}
fn local_ref(t: &LocalTerm) -> LocalTermRef<'_> {
	match t {
		LocalTerm::Anonymous(b) => LocalTermRef::Anonymous(b),
		LocalTerm::Named(t) => LocalTermRef::Named(term_ref(t)),
	}
}
fn cow_of(t: &Term, owned: bool) -> CowTerm<'_> {
	match t {
		Term::Iri(i) => CowTerm::Iri(if owned { Cow::Owned(i.clone()) } else { Cow::Borrowed(i) }),
		Term::Literal(l) => CowTerm::Literal(lit_cow(l, owned)),
	}
}
fn lit_cow(l: &Literal, owned: bool) -> CowLiteral<'_> {
	CowLiteral {
		value: if owned { Cow::Owned(l.value.clone()) } else { Cow::Borrowed(&l.value) },
		type_: match &l.type_ {
			LiteralType::Any(i) => CowLiteralType::Any(if owned { Cow::Owned(i.clone()) } else { Cow::Borrowed(i) }),
			LiteralType::LangString(t) => CowLiteralType::LangString(if owned { Cow::Owned(t.clone()) } else { Cow::Borrowed(t) }),
		},
	}
}
fn same_list(a: &mut Vec<LocalTerm>, b: &mut Vec<LocalTerm>) -> bool {
	a.sort();
	b.sort();
	a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| same_text(x, y))
}

// ------------------------------------------------------------------ checks

/// Every way of interpreting `t` gives `want`.
fn forward<I: Interpretation>(what: &str, i: &I, t: &Term, want: &Option<I::Resource>) -> R
where
	I::Resource: PartialEq + std::fmt::Debug,
{
	match t {
		Term::Iri(x) => ck_eq!(i.iri(x), *want, "{what}: resource of the IRI {x}"),
		Term::Literal(l) => ck_eq!(i.literal(lit_ref(l)), *want, "{what}: resource of the literal {l:?}"),
	}
	ck_eq!(i.term(term_ref(t)), *want, "{what}: resource of the term {t:?}");
	Ok(())
}
fn forward_local<I: LocalInterpretation>(what: &str, i: &I, t: &LocalTerm, want: &Option<I::Resource>) -> R
where
	I::Resource: PartialEq + std::fmt::Debug,
{
	ck_eq!(i.local_term(local_ref(t)), *want, "{what}: resource of the local term {t:?}");
	match t {
		LocalTerm::Anonymous(b) => {
			ck_eq!(i.blank_id(b), *want, "{what}: resource of the blank node {b}");
			ck_eq!(i.id(IdRef::BlankId(b)), *want, "{what}: resource of the identifier {b}");
		}
		LocalTerm::Named(n) => {
			forward(what, i, n, want)?;
			if let Term::Iri(x) = n {
				ck_eq!(i.id(IdRef::Iri(x)), *want, "{what}: resource of the identifier {x}");
			}
		}
	}
	Ok(())
}
/// Reverse lookups of `r` give `terms`.
fn reverse<I: ReverseInterpretation>(what: &str, i: &I, r: &I::Resource, terms: &[LocalTerm]) -> R {
	let cap = terms.len() + 2;
	let mut named: Vec<LocalTerm> = terms.iter().filter(|t| !matches!(t, LocalTerm::Anonymous(_))).cloned().collect();
	let mut iris: Vec<LocalTerm> = named.iter().filter(|t| matches!(t, LocalTerm::Named(Term::Iri(_)))).cloned().collect();
	let mut lits: Vec<LocalTerm> = named.iter().filter(|t| matches!(t, LocalTerm::Named(Term::Literal(_)))).cloned().collect();
	let mut got: Vec<LocalTerm> = i.iris_of(r).take(cap).map(|x| LocalTerm::Named(Term::Iri(iri(x.as_str())))).collect();
	ck!(same_list(&mut got, &mut iris), "{what}: IRIs {got:?}, expected {iris:?}");
	let mut got: Vec<LocalTerm> = i.literals_of(r).take(cap).map(|l| LocalTerm::Named(Term::Literal(lit(l)))).collect();
	ck!(same_list(&mut got, &mut lits), "{what}: literals {got:?}, expected {lits:?}");
	let mut got: Vec<LocalTerm> = i.terms_of(r).take(cap).map(cow_term).collect();
	ck!(same_list(&mut got, &mut named), "{what}: terms {got:?}, expected {named:?}");
	iter_laws(&format!("{what}: terms"), named.len(), named.len() / 2, || i.terms_of(r).map(cow_term))?;
	ck_eq!(i.is_anonymous(r), named.is_empty(), "{what}: is_anonymous with terms {named:?}");
	Ok(())
}
fn reverse_local<I: ReverseLocalInterpretation>(what: &str, i: &I, r: &I::Resource, terms: &[LocalTerm]) -> R {
	reverse(what, i, r, terms)?;
	let cap = terms.len() + 2;
	let mut all = terms.to_vec();
	let mut got: Vec<LocalTerm> = i.local_terms_of(r).take(cap).map(cow_local).collect();
	ck!(same_list(&mut got, &mut all), "{what}: local terms {got:?}, expected {all:?}");
	iter_laws(&format!("{what}: local terms"), all.len(), all.len() * 2 / 3, || i.local_terms_of(r).map(cow_local))?;
	let mut blanks: Vec<LocalTerm> = terms.iter().filter(|t| matches!(t, LocalTerm::Anonymous(_))).cloned().collect();
	let mut got: Vec<LocalTerm> = i.blank_ids_of(r).take(cap).map(|b| LocalTerm::Anonymous(blank(b.as_str()))).collect();
	ck!(same_list(&mut got, &mut blanks), "{what}: blank node identifiers {got:?}, expected {blanks:?}");
	Ok(())
}

/// Inserts `t` through one of the entry points.
fn insert_via<I: LocalInterpretationMut>(cx: &mut Cx, i: &mut I, t: &LocalTerm) -> I::Resource {
	let owned = cx.bool();
	let general = cx.below(4);
	match t {
		LocalTerm::Anonymous(b) => {
			let c: Cow<BlankId> = if owned { Cow::Owned(b.clone()) } else { Cow::Borrowed(b) };
			match general {
				0 => i.insert_blank_id(c),
				1 => i.insert_id(CowId::BlankId(c)),
				2 => i.insert_local_term(t.clone()),
				_ => i.insert_local_term(CowLocalTerm::Anonymous(c)),
			}
		}
		LocalTerm::Named(n) => match general {
			0 => i.insert_local_term(CowLocalTerm::Named(cow_of(n, owned))),
			1 => i.insert_local_term(t.clone()),
			2 => match n {
				Term::Iri(x) => i.insert_id(CowId::Iri(if owned { Cow::Owned(x.clone()) } else { Cow::Borrowed(x.as_iri()) })),
				_ => insert_named_via(cx, i, n),
			},
			_ => insert_named_via(cx, i, n),
		},
	}
}
fn insert_named_via<I: InterpretationMut>(cx: &mut Cx, i: &mut I, n: &Term) -> I::Resource {
	let owned = cx.bool();
	match (cx.below(4), n) {
		(1, Term::Iri(x)) if cx.bool() => i.insert_term(Term::Iri(x.clone())),
		(0, Term::Iri(x)) => {
			if owned {
				i.insert_iri(Cow::Owned(x.clone()))
			} else {
				i.insert_iri(Cow::Borrowed(x.as_iri()))
			}
		}
		(0, Term::Literal(l)) => i.insert_literal(lit_cow(l, owned)),
		(1, Term::Literal(l)) => i.insert_literal(l),
		(2, n) => i.insert_term(n.clone()),
		(_, n) => i.insert_term(cow_of(n, owned)),
	}
}

fn gen_pool(cx: &mut Cx) -> Vec<LocalTerm> {
	let mut v: Vec<LocalTerm> = vec![];
	for _ in 0..cx.range(1, 8) {
		let t = any_local_term(cx);
		if !v.contains(&t) {
			v.push(t);
		}
	}
	// look-alikes
	if cx.bool() {
		let t = v[cx.us(v.len())].clone();
		let text = match &t {
			LocalTerm::Anonymous(b) => b.to_string(),
			LocalTerm::Named(Term::Iri(i)) => i.to_string(),
			LocalTerm::Named(Term::Literal(l)) => l.value.clone(),
		};
		let l = LocalTerm::Named(Term::Literal(Literal { value: text, type_: any_literal_type(cx) }));
		if !v.contains(&l) {
			v.push(l);
		}
	}
	v
}

fn table_case(cx: &mut Cx) -> R {
	let pool = gen_pool(cx);
	let mut model = Table::default();
	// some terms distributed over rows, some rows without terms
	for _ in 0..cx.below(4) {
		model.add_row(vec![]);
	}
	for t in &pool {
		match cx.below(4) {
			0 => (),
			1 if !model.rows.is_empty() => {
				let k = cx.us(model.rows.len());
				model.rows[k].push(t.clone());
			}
			_ => {
				model.add_row(vec![t.clone()]);
			}
		}
	}
	cx.log(|| format!("table {:?}", model.rows));
	if model.rows.iter().any(|r| r.len() > 1) {
		cx.nontrivial();
		cx.class("several terms for a resource");
	}
	let check_all = |what: &str, model: &Table, direct: Option<&Table>, g: &WithGenerator<Named, Table>, l: &WithLocalGenerator<Blank, Table>| -> R {
		for t in &pool {
			let want = model.find(t);
			if let Some(d) = direct {
				forward_local(&format!("{what}, table"), d, t, &want)?;
			}
			forward_local(&format!("{what}, with local generator"), l, t, &want)?;
			if let LocalTerm::Named(n) = t {
				forward(&format!("{what}, with generator"), g, n, &want)?;
			}
		}
		for (k, row) in model.rows.iter().enumerate() {
			let n = Node(k);
			if let Some(d) = direct {
				reverse_local(&format!("{what}, table"), d, &n, row)?;
			}
			reverse_local(&format!("{what}, with local generator"), l, &n, row)?;
			reverse(&format!("{what}, with generator"), g, &n, row)?;
		}
		Ok(())
	};
	let table = model.clone();
	let mut g = WithGenerator::new(model.clone(), Named(0));
	let offset = cx.below(3) as usize;
	let mut l = WithLocalGenerator::new(model.clone(), Blank::new_full("gen".into(), offset));
	check_all("initially", &model, Some(&table), &g, &l)?;
	// fallible traversal
	let got: Vec<Node> = table.try_resources().take(model.ids.len() + 2).map(|r| r.map(|x| *x)).collect::<Result<_, _>>().unwrap();
	ck_eq!(got, model.ids, "resources through the fallible view");
	// histories of insertions and fresh resources, in all three
	let mut m2 = model.clone(); // follows the local generator
	let mut m1 = model.clone(); // follows the generator
	let mut made = 0;
	let mut named = 0;
	for _ in 0..cx.range(0, 8) {
		match cx.below(4) {
			0 => {
				let r = if cx.bool() { l.new_resource() } else { l.try_new_resource().unwrap() };
				let fresh = blank(&format!("_:gen{}", offset + made));
				made += 1;
				let want = m2.put(LocalTerm::Anonymous(fresh.clone()));
				cx.log(|| format!("new local resource {fresh}"));
				ck_eq!(r, want, "fresh resource for {fresh}");
				ck_eq!(l.generator().count(), offset + made, "identifiers drawn");
			}
			1 => {
				let r = if cx.bool() { g.new_resource() } else { g.try_new_resource().unwrap() };
				named += 1;
				let t = LocalTerm::Named(Named::nth(named));
				let want = m1.put(t.clone());
				cx.log(|| format!("new named resource {t:?}"));
				ck_eq!(r, want, "fresh resource for {t:?}");
				ck_eq!(g.generator().0, named, "terms drawn");
			}
			_ => {
				let t = cx.pick(&pool).clone();
				cx.log(|| format!("insert {t:?}"));
				let r = insert_via(cx, &mut l, &t);
				ck_eq!(r, m2.put(t.clone()), "resource of the inserted {t:?}");
				if let LocalTerm::Named(n) = &t {
					let r = insert_named_via(cx, &mut g, n);
					ck_eq!(r, m1.put(t.clone()), "resource of the inserted {t:?} (named)");
				}
			}
		}
	}
	check_all("finally", &m2, None, &WithGenerator::new(m2.clone(), Named(0)), &l)?;
	ck_eq!(*g.inner_interpretation(), m1, "interpretation inside the generator wrapper");
	ck_eq!(*l.inner_interpretation(), m2, "interpretation inside the local generator wrapper");
	ck_eq!(*g.inner_interpretation_mut(), m1, "interpretation inside the generator wrapper");
	ck_eq!(*l.inner_interpretation_mut(), m2, "interpretation inside the local generator wrapper");
	ck_eq!(l.generator_mut().count(), offset + made, "generator inside the local generator wrapper");
	ck_eq!(g.generator_mut().0, named, "generator inside the wrapper");
	if cx.bool() {
		let (i, b) = l.into_parts();
		ck_eq!(i, m2, "interpretation out of the local generator wrapper");
		ck_eq!(b.count(), offset + made, "generator out of the local generator wrapper");
		let (i, n) = g.into_parts();
		ck_eq!(i, m1, "interpretation out of the generator wrapper");
		ck_eq!(n.0, named, "generator out of the generator wrapper");
	} else if cx.bool() {
		ck_eq!(l.into_inner_interpretation(), m2, "interpretation out of the local generator wrapper");
		ck_eq!(g.into_inner_interpretation(), m1, "interpretation out of the generator wrapper");
	} else {
		ck_eq!(l.into_generator().count(), offset + made, "generator out of the local generator wrapper");
		ck_eq!(g.into_generator().0, named, "generator out of the generator wrapper");
	}
	Ok(())
}

/// Generator of IRIs and literals.
struct Named(u64);
impl Named {
	fn nth(k: u64) -> Term {
		if k % 2 == 0 {
			Term::Literal(Literal { value: format!("n{k}"), type_: LiteralType::LangString(lang("en")) })
		} else {
			Term::Iri(iri(&format!("urn:named:{k}")))
		}
	}
}
impl Generator for Named {
	fn next_term(&mut self) -> Term {
		self.0 += 1;
		Named::nth(self.0)
	}
}

/// Interpretations in which terms are their own resources.
fn transparent_case(cx: &mut Cx) -> R {
	let pool = gen_pool(cx);
	cx.log(|| format!("transparent {pool:?}"));
	cx.class("transparent");
	if pool.len() > 2 {
		cx.nontrivial();
	}
	let mut li = LocalGeneratorInterpretation::new(Blank::new_with_prefix("p".into()));
	let mut wg: WithGenerator<Named> = WithGenerator::new((), Named(0));
	let wl = WithLocalGenerator::new(LocalGeneratorInterpretation::new(Blank::new()), Blank::new());
	for t in &pool {
		let want = Some(t.clone());
		forward_local("local generator interpretation", &li, t, &want)?;
		forward_local("wrapped local generator interpretation", &wl, t, &want)?;
		reverse_local("local generator interpretation", &li, t, std::slice::from_ref(t))?;
		reverse_local("wrapped local generator interpretation", &wl, t, std::slice::from_ref(t))?;
		reverse("transparent interpretation", &(), t, std::slice::from_ref(t))?;
		reverse("wrapped transparent interpretation", &wg, t, std::slice::from_ref(t))?;
		if let LocalTerm::Named(n) = t {
			forward("transparent interpretation", &(), n, &want)?;
			forward("wrapped transparent interpretation", &wg, n, &want)?;
			for (what, r) in [("transparent", insert_named_via(cx, &mut (), n)), ("wrapped", insert_named_via(cx, &mut wg, n)), ("local generator", insert_named_via(cx, &mut li, n))] {
				ck!(same_text(&r, t), "{what}: {t:?} inserted as {r:?}");
			}
			ck!(same_text(&().term(term_ref(n)).unwrap(), t), "text of {t:?} interpreted transparently");
		}
		ck!(same_text(&li.local_term(local_ref(t)).unwrap(), t), "text of {t:?} interpreted transparently");
	}
	// fresh resources
	let k = cx.range(1, 5);
	for i in 0..k {
		let r = ConstGenerativeInterpretation::new_resource(&li);
		ck!(same_text(&r, &LocalTerm::Anonymous(blank(&format!("_:p{i}")))), "fresh resource {i}: {r:?}");
		ck!(li.is_anonymous(&r), "fresh blank node {r:?} is not anonymous");
		let r = wg.new_resource();
		ck!(same_text(&r, &LocalTerm::Named(Named::nth(i + 1))), "fresh named resource {i}: {r:?}");
		ck!(!wg.is_anonymous(&r), "fresh named resource {r:?} is anonymous");
	}
	ck_eq!(li.into_generator().count(), k as usize, "identifiers drawn");
	ck_eq!(wg.into_generator().0, k, "terms drawn");
	Ok(())
}

fn run(cx: &mut Cx) -> R {
	if cx.chance(1, 3) {
		transparent_case(cx)
	} else {
		table_case(cx)
	}
}

fn main() {
	main_with(Prop {
		id: "C23",
		rule: "random interpretation tables (resources with none, one or several IRIs, literals and blank identifiers; look-alike terms) behind the library's combined entry points, wrappers and fallible views, with histories of insertions and fresh resources; and the transparent interpretations; oracle: the table; non-trivial: a resource with several terms, or more than two terms",
		quick: 300_000,
		thorough: 3_000_000,
		assumptions: &["the primitive methods of the wrapped interpretation are the harness's own, written without library conversions"],
		run,
		exhaustive: None,
	})
}
