//! The four containers behind one interface, their reference model (a `BTreeSet` of tuples), and
//! the history driver.
use crate::gen::*;
use crate::{ck, ck_eq, Cx, R as Res_};
use rdf_types::dataset::*;
use rdf_types::pattern::CanonicalQuadPattern;
use rdf_types::{Quad, Triple};
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::hash::Hash;

pub type T<R> = (R, R, R);
pub type Q<R> = (R, R, R, Option<R>);

pub fn tr<R>(t: &T<R>) -> Triple<&R> {
	Triple(&t.0, &t.1, &t.2)
}
pub fn tv<R: Clone>(t: &T<R>) -> Triple<R> {
	Triple(t.0.clone(), t.1.clone(), t.2.clone())
}
pub fn un_t<R: Clone>(t: Triple<&R>) -> T<R> {
	(t.0.clone(), t.1.clone(), t.2.clone())
}
pub fn qr<R>(t: &Q<R>) -> Quad<&R> {
	Quad(&t.0, &t.1, &t.2, t.3.as_ref())
}
pub fn qv<R: Clone>(t: &Q<R>) -> Quad<R> {
	Quad(t.0.clone(), t.1.clone(), t.2.clone(), t.3.clone())
}
pub fn un_q<R: Clone>(t: Quad<&R>) -> Q<R> {
	(t.0.clone(), t.1.clone(), t.2.clone(), t.3.cloned())
}

/// A statement of the reference model.
pub trait Stmt<R>: Clone + Ord + Debug + Hash {
	fn gen(cx: &mut Cx, rs: &[R]) -> Self;
	fn parts(&self) -> [Option<&R>; 4];
	/// All statements over the given resources (only called for small universes).
	fn all(rs: &[R]) -> Vec<Self>;
}

impl<R: Res> Stmt<R> for T<R> {
	fn gen(cx: &mut Cx, rs: &[R]) -> Self {
		let (s, p, o) = triple_i(cx, rs.len() as u32);
		(rs[s as usize].clone(), rs[p as usize].clone(), rs[o as usize].clone())
	}
	fn parts(&self) -> [Option<&R>; 4] {
		[Some(&self.0), Some(&self.1), Some(&self.2), None]
	}
	fn all(rs: &[R]) -> Vec<Self> {
		let mut v = Vec::new();
		for s in rs {
			for p in rs {
				for o in rs {
					v.push((s.clone(), p.clone(), o.clone()))
				}
			}
		}
		v
	}
}
impl<R: Res> Stmt<R> for Q<R> {
	fn gen(cx: &mut Cx, rs: &[R]) -> Self {
		let (s, p, o, g) = quad_i(cx, rs.len() as u32);
		(rs[s as usize].clone(), rs[p as usize].clone(), rs[o as usize].clone(), g.map(|g| rs[g as usize].clone()))
	}
	fn parts(&self) -> [Option<&R>; 4] {
		[Some(&self.0), Some(&self.1), Some(&self.2), self.3.as_ref()]
	}
	fn all(rs: &[R]) -> Vec<Self> {
		let mut v = Vec::new();
		for (s, p, o) in T::all(rs) {
			v.push((s.clone(), p.clone(), o.clone(), None));
			for g in rs {
				v.push((s.clone(), p.clone(), o.clone(), Some(g.clone())))
			}
		}
		v
	}
}

pub trait Cont<R: Res>: Clone + Debug + Eq + Ord + Hash + Default + Sized {
	type S: Stmt<R>;
	const NAME: &'static str;
	fn new_() -> Self;
	fn insert_(&mut self, s: &Self::S) -> bool;
	fn remove_(&mut self, s: &Self::S) -> bool;
	/// through the mutation trait
	fn t_insert(&mut self, s: &Self::S);
	fn t_remove(&mut self, s: &Self::S);
	/// through the fallible mutation trait
	fn f_insert(&mut self, s: &Self::S);
	fn contains_(&self, s: &Self::S) -> bool;
	fn len_(&self) -> usize;
	fn empty_(&self) -> bool;
	fn items(&self, cap: usize) -> Vec<Self::S>;
	fn items_ref(&self, cap: usize) -> Vec<Self::S>;
	fn items_trait(&self, cap: usize) -> (Vec<Self::S>, usize);
	fn owned(self, cap: usize) -> Vec<Self::S>;
	/// the other ways to go through the iterators (counting, skipping, ...) agree with stepping
	fn laws(&self, n: usize, k: usize) -> Res_;
	fn extend_(&mut self, v: &[Self::S]);
	fn collect_(v: &[Self::S]) -> Self;
	fn has_res(&self, r: &R) -> bool;
	fn res(&self, cap: usize) -> Vec<R>;
	fn res_trait(&self, cap: usize) -> (Vec<R>, usize);
	/// subjects, predicates, objects: inherent listing, trait listing and count
	fn roles(&self, _cap: usize) -> Option<[(Vec<R>, Vec<R>, usize); 3]> {
		None
	}
	/// iterator laws on the listings
	fn role_laws(&self, k: usize) -> Res_ {
		iter_laws("resources through the trait", usize::MAX, k, || self.res_trait(usize::MAX).0.into_iter())
	}
	/// named graphs: inherent listing (if any), trait listing, count
	fn graphs(&self, _cap: usize) -> Option<(Vec<R>, Vec<R>, usize)> {
		None
	}
	/// Operation specific to the container; returns false if there is none.
	fn extra(&mut self, _cx: &mut Cx, _m: &mut BTreeSet<Self::S>, _rs: &[R]) -> Result<bool, String> {
		Ok(false)
	}
}

macro_rules! common {
	($st:ident, $val:ident, $rf:ident, $un:ident, $trav:ident, $items:ident, $count:ident, $mu:ident, $fal:path) => {
		type S = $st<R>;
		fn new_() -> Self {
			Self::new()
		}
		fn insert_(&mut self, s: &Self::S) -> bool {
			self.insert($val(s))
		}
		fn remove_(&mut self, s: &Self::S) -> bool {
			self.remove($rf(s))
		}
		fn t_insert(&mut self, s: &Self::S) {
			$mu::insert(self, $val(s))
		}
		fn t_remove(&mut self, s: &Self::S) {
			$mu::remove(self, $rf(s))
		}
		fn f_insert(&mut self, s: &Self::S) {
			use $fal as F;
			match F::try_insert(self, $val(s)) {
				Ok(()) => (),
				Err(e) => match e {},
			}
		}
		fn contains_(&self, s: &Self::S) -> bool {
			self.contains($rf(s))
		}
		fn len_(&self) -> usize {
			self.len()
		}
		fn empty_(&self) -> bool {
			self.is_empty()
		}
		fn items(&self, cap: usize) -> Vec<Self::S> {
			self.iter().take(cap).map($un).collect()
		}
		fn items_ref(&self, cap: usize) -> Vec<Self::S> {
			let mut v = Vec::new();
			for x in self {
				if v.len() >= cap {
					break;
				}
				v.push($un(x));
			}
			v
		}
		fn items_trait(&self, cap: usize) -> (Vec<Self::S>, usize) {
			($trav::$items(self).take(cap).map($un).collect(), $trav::$count(self))
		}
		fn owned(self, cap: usize) -> Vec<Self::S> {
			self.into_iter().take(cap).map(|x| $un(x.as_ref())).collect()
		}
		fn laws(&self, n: usize, k: usize) -> Res_ {
			iter_laws("iteration", n, k, || self.iter().map($un))?;
			iter_laws("iteration of a reference", n, k, || self.into_iter().map($un))?;
			iter_laws("traversal through the trait", n, k, || $trav::$items(self).map($un))?;
			iter_laws("owned iteration", n, k, || self.clone().into_iter().map(|x| $un(x.as_ref())))?;
			iter_laws("resources", usize::MAX, k, || self.resources().cloned())
		}
		fn extend_(&mut self, v: &[Self::S]) {
			self.extend(v.iter().map($val))
		}
		fn collect_(v: &[Self::S]) -> Self {
			v.iter().map($val).collect()
		}
		fn has_res(&self, r: &R) -> bool {
			self.contains_resource(r)
		}
		fn res(&self, cap: usize) -> Vec<R> {
			self.resources().take(cap).cloned().collect()
		}
	};
}

fn lst<'a, R: Clone + 'a>(i: impl Iterator<Item = &'a R>, cap: usize) -> Vec<R> {
	i.take(cap).cloned().collect()
}

impl<R: Res> Cont<R> for BTreeGraph<R> {
	const NAME: &'static str = "plain graph";
	common!(T, tv, tr, un_t, TraversableGraph, triples, triples_count, GraphMut, rdf_types::dataset::fallible_graph::FallibleGraphMut);
	fn res_trait(&self, cap: usize) -> (Vec<R>, usize) {
		(lst(ResourceTraversableGraph::graph_resources(self), cap), ResourceTraversableGraph::graph_resource_count(self))
	}
}

impl<R: Res> Cont<R> for IndexedBTreeGraph<R> {
	const NAME: &'static str = "indexed graph";
	common!(T, tv, tr, un_t, TraversableGraph, triples, triples_count, GraphMut, rdf_types::dataset::fallible_graph::FallibleGraphMut);
	fn res_trait(&self, cap: usize) -> (Vec<R>, usize) {
		(lst(ResourceTraversableGraph::graph_resources(self), cap), ResourceTraversableGraph::graph_resource_count(self))
	}
	fn roles(&self, cap: usize) -> Option<[(Vec<R>, Vec<R>, usize); 3]> {
		Some([
			(lst(self.subjects(), cap), lst(self.graph_subjects(), cap), self.graph_subject_count()),
			(lst(self.predicates(), cap), lst(self.graph_predicates(), cap), self.graph_predicate_count()),
			(lst(self.objects(), cap), lst(self.graph_objects(), cap), self.graph_object_count()),
		])
	}
	fn role_laws(&self, k: usize) -> Res_ {
		iter_laws("subjects", usize::MAX, k, || self.subjects())?;
		iter_laws("predicates", usize::MAX, k, || self.predicates())?;
		iter_laws("objects", usize::MAX, k, || self.objects())?;
		iter_laws("graph_subjects", usize::MAX, k, || self.graph_subjects())?;
		iter_laws("graph_predicates", usize::MAX, k, || self.graph_predicates())?;
		iter_laws("graph_objects", usize::MAX, k, || self.graph_objects())?;
		iter_laws("graph_resources", usize::MAX, k, || self.graph_resources())?;
		iter_laws("subjects as a dataset", usize::MAX, k, || SubjectTraversableDataset::subjects(self))?;
		iter_laws("predicates as a dataset", usize::MAX, k, || PredicateTraversableDataset::predicates(self))?;
		iter_laws("objects as a dataset", usize::MAX, k, || ObjectTraversableDataset::objects(self))
	}
	fn extra(&mut self, cx: &mut Cx, m: &mut BTreeSet<Self::S>, rs: &[R]) -> Result<bool, String> {
		let mut plain = BTreeGraph::new();
		refill(cx, &mut plain, m, rs)?;
		cx.log(|| "replace by the indexed form of a plain graph with the same content".into());
		*self = match cx.below(3) {
			0 => plain.into_indexed(),
			1 => IndexedBTreeGraph::from_non_indexed(plain),
			_ => plain.into(),
		};
		Ok(true)
	}
}

impl<R: Res> Cont<R> for BTreeDataset<R> {
	const NAME: &'static str = "plain dataset";
	common!(Q, qv, qr, un_q, TraversableDataset, quads, quads_count, DatasetMut, rdf_types::dataset::fallible::FallibleDatasetMut);
	fn res_trait(&self, cap: usize) -> (Vec<R>, usize) {
		(lst(ResourceTraversableDataset::resources(self), cap), ResourceTraversableDataset::resource_count(self))
	}
}

impl<R: Res> Cont<R> for IndexedBTreeDataset<R> {
	const NAME: &'static str = "indexed dataset";
	common!(Q, qv, qr, un_q, TraversableDataset, quads, quads_count, DatasetMut, rdf_types::dataset::fallible::FallibleDatasetMut);
	fn res_trait(&self, cap: usize) -> (Vec<R>, usize) {
		(lst(ResourceTraversableDataset::resources(self), cap), ResourceTraversableDataset::resource_count(self))
	}
	fn roles(&self, cap: usize) -> Option<[(Vec<R>, Vec<R>, usize); 3]> {
		Some([
			(lst(self.subjects(), cap), lst(SubjectTraversableDataset::subjects(self), cap), self.subject_count()),
			(lst(self.predicates(), cap), lst(PredicateTraversableDataset::predicates(self), cap), self.predicate_count()),
			(lst(self.objects(), cap), lst(ObjectTraversableDataset::objects(self), cap), self.object_count()),
		])
	}
	fn role_laws(&self, k: usize) -> Res_ {
		iter_laws("subjects", usize::MAX, k, || self.subjects())?;
		iter_laws("predicates", usize::MAX, k, || self.predicates())?;
		iter_laws("objects", usize::MAX, k, || self.objects())?;
		iter_laws("named graphs", usize::MAX, k, || self.named_graphs())?;
		iter_laws("subjects through the trait", usize::MAX, k, || SubjectTraversableDataset::subjects(self))?;
		iter_laws("predicates through the trait", usize::MAX, k, || PredicateTraversableDataset::predicates(self))?;
		iter_laws("objects through the trait", usize::MAX, k, || ObjectTraversableDataset::objects(self))?;
		iter_laws("named graphs through the trait", usize::MAX, k, || NamedGraphTraversableDataset::named_graphs(self))?;
		iter_laws("resources through the trait", usize::MAX, k, || ResourceTraversableDataset::resources(self))
	}
	fn graphs(&self, cap: usize) -> Option<(Vec<R>, Vec<R>, usize)> {
		Some((lst(self.named_graphs(), cap), lst(NamedGraphTraversableDataset::named_graphs(self), cap), self.named_graph_count()))
	}
	fn extra(&mut self, cx: &mut Cx, m: &mut BTreeSet<Self::S>, rs: &[R]) -> Result<bool, String> {
		match cx.weighted(&[3, 3, 1]) {
			0 => {
				let g = if cx.chance(1, 3) { None } else { Some(cx.pick(rs).clone()) };
				cx.log(|| format!("remove graph {g:?}"));
				cx.class("op: remove graph");
				self.remove_graph(g.as_ref());
				m.retain(|q| q.3 != g);
			}
			1 => {
				let pat = QPat::gen(cx, rs);
				let all = cx.chance(2, 3);
				cx.class("op: extract");
				cx.log(|| format!("extract {pat:?} {}", if all { "completely" } else { "then abandon after the first" }));
				let cap = m.len() + 1;
				let out: Vec<Quad<R>> = self.extract_pattern_matching(pat.canonical()).take(if all { cap } else { 1 }).collect();
				for q in out {
					m.remove(&un_q(q.as_ref()));
				}
			}
			_ => {
				let mut plain = BTreeDataset::new();
				refill(cx, &mut plain, m, rs)?;
				cx.log(|| "replace by the indexed form of a plain dataset with the same content".into());
				*self = if cx.bool() { IndexedBTreeDataset::from_non_indexed(plain) } else { plain.into_indexed() };
			}
		}
		Ok(true)
	}
}

/// Fills an empty container with the content of `m`, in a random order and with detours
/// (statements inserted, then removed) so that its internal layout varies.
pub fn refill<R: Res, C: Cont<R>>(cx: &mut Cx, c: &mut C, m: &BTreeSet<C::S>, rs: &[R]) -> Res_ {
	let mut v: Vec<C::S> = m.iter().cloned().collect();
	match cx.below(3) {
		0 => (),
		1 => v.reverse(),
		_ => {
			for i in (1..v.len()).rev() {
				let j = cx.us(i + 1);
				v.swap(i, j);
			}
		}
	}
	let mut det = Vec::new();
	for s in &v {
		if cx.chance(1, 6) {
			let d = C::S::gen(cx, rs);
			if !m.contains(&d) {
				c.insert_(&d);
				det.push(d);
			}
		}
		if cx.chance(1, 6) {
			if let Some(d) = det.pop() {
				c.remove_(&d);
			}
		}
		c.insert_(s);
	}
	for d in det {
		c.remove_(&d);
	}
	Ok(())
}

pub fn resources<R: Res>(cx: &mut Cx) -> Vec<R> {
	let n = universe(cx);
	(0..n).map(R::make).collect()
}

/// Iterator adaptors and hints agree with stepping through the (at most `n` + 1) items.
pub fn iter_laws<X: PartialEq + Debug, I: Iterator<Item = X>>(what: &str, n: usize, k: usize, make: impl Fn() -> I) -> Res_ {
	let mut all = Vec::new();
	let mut it = make();
	while all.len() <= n.min(1 << 20) {
		match it.next() {
			Some(x) => all.push(x),
			None => break,
		}
	}
	let len = all.len();
	let k = if len == 0 { 0 } else { k % (len + 1) };
	let mut it = make();
	for i in 0..=k {
		let (lo, hi) = it.size_hint();
		ck!(lo <= len - i && hi.map_or(true, |h| len - i <= h), "{what}: size hint ({lo}, {hi:?}) with {} items left", len - i);
		if i < k {
			it.next();
		}
	}
	ck_eq!(it.count(), len - k, "{what}: count() after {k} of {len} items");
	let mut it = make();
	ck!(it.nth(k).as_ref() == all.get(k), "{what}: nth({k}) of {len} items");
	ck!(it.next().as_ref() == all.get(k + 1), "{what}: item after nth({k}) of {len}");
	ck!(make().last().as_ref() == all.last(), "{what}: last()");
	let mut folded = Vec::new();
	make().for_each(|x| folded.push(x));
	ck!(folded == all, "{what}: for_each visits {folded:?}, stepping {all:?}");
	Ok(())
}

/// Compares a listing with the expected set: same elements, no repetition.
pub fn same_set<X: Ord + Clone + Debug>(what: &str, got: &[X], want: &BTreeSet<X>) -> Res_ {
	let g: BTreeSet<X> = got.iter().cloned().collect();
	ck!(g == *want, "{what}: got {got:?}, expected {want:?}");
	ck!(g.len() == got.len(), "{what}: repeated element in {got:?}");
	Ok(())
}

/// What a history may observe after each operation.
pub struct Step<'a, S> {
	/// statement concerned by the operation, if any
	pub touched: Option<&'a S>,
	pub op: usize,
}

/// Runs a random history on `c` and the model; calls `after` after each operation.
/// Returned flags of insertions and removals are compared when `flags` is set.
pub fn history<R: Res, C: Cont<R>>(
	cx: &mut Cx,
	rs: &[R],
	c: &mut C,
	m: &mut BTreeSet<C::S>,
	flags: bool,
	mut after: impl FnMut(&mut Cx, &mut C, &mut BTreeSet<C::S>, Step<C::S>) -> Res_,
) -> Res_ {
	let n = steps(cx);
	// insert, reinsert existing, remove existing, remove random, trait insert/remove, extend, rebuild, clone away, drain some, extra
	let profiles: [[u64; 10]; 4] = [
		[10, 1, 3, 1, 2, 1, 0, 0, 0, 0],
		[6, 1, 6, 1, 2, 1, 1, 1, 1, 1],
		[4, 1, 8, 2, 2, 0, 0, 1, 1, 2],
		[8, 0, 2, 0, 1, 3, 1, 1, 0, 0],
	];
	let prof = profiles[cx.us(4)];
	if rs.len() >= 5 && cx.chance(1, 10) {
		// start from a large content
		let k = match cx.below(4) {
			0 => cx.range(300, 1500),
			_ => cx.range(40, 300),
		};
		let v: Vec<C::S> = (0..k).map(|_| C::S::gen(cx, rs)).collect();
		cx.log(|| format!("extend with {v:?}"));
		cx.class("large content");
		c.extend_(&v);
		m.extend(v);
	}
	if cx.chance(1, 80) {
		// a long life: hundreds of insertions and removals of a few statements
		let pool: Vec<C::S> = (0..cx.range(1, 24)).map(|_| C::S::gen(cx, rs)).collect();
		let k = match cx.below(3) {
			0 => cx.range(20, 140),
			1 => cx.range(200, 700),
			_ => cx.range(700, 1400),
		};
		let mut x = cx.below(1 << 32) | 1;
		cx.log(|| format!("{k} insertions and removals among {pool:?}, seed {x}"));
		cx.class("long life");
		for i in 0..k {
			x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
			let s = &pool[(x >> 33) as usize % pool.len()];
			if m.remove(s) {
				let got = c.remove_(s);
				ck!(!flags || got, "change {i}: remove {s:?} returned false");
			} else {
				let got = c.insert_(s);
				ck!(!flags || got, "change {i}: insert {s:?} returned false");
				m.insert(s.clone());
			}
		}
	}
	for i in 0..n {
		let op = cx.weighted(&prof);
		let mut touched: Option<C::S> = None;
		match op {
			0 | 1 => {
				let s = if op == 1 && !m.is_empty() {
					let k = cx.us(m.len());
					m.iter().nth(k).unwrap().clone()
				} else {
					C::S::gen(cx, rs)
				};
				let want = m.insert(s.clone());
				cx.log(|| format!("insert {s:?}"));
				let got = c.insert_(&s);
				ck!(!flags || got == want, "step {i}: insert {s:?} returned {got}, expected {want}");
				touched = Some(s);
			}
			2 | 3 => {
				let s = if op == 2 && !m.is_empty() {
					let k = cx.us(m.len());
					m.iter().nth(k).unwrap().clone()
				} else {
					C::S::gen(cx, rs)
				};
				let want = m.remove(&s);
				cx.log(|| format!("remove {s:?}"));
				cx.class(if want { "op: remove present" } else { "op: remove absent" });
				let got = c.remove_(&s);
				ck!(!flags || got == want, "step {i}: remove {s:?} returned {got}, expected {want}");
				touched = Some(s);
			}
			4 => {
				let s = C::S::gen(cx, rs);
				match cx.below(3) {
					0 => {
						cx.log(|| format!("insert {s:?} through the trait"));
						c.t_insert(&s);
						m.insert(s.clone());
					}
					1 => {
						cx.log(|| format!("insert {s:?} through the fallible trait"));
						c.f_insert(&s);
						m.insert(s.clone());
					}
					_ => {
						cx.log(|| format!("remove {s:?} through the trait"));
						c.t_remove(&s);
						m.remove(&s);
					}
				}
				touched = Some(s);
			}
			5 => {
				let k = cx.below(8);
				let v: Vec<C::S> = (0..k).map(|_| C::S::gen(cx, rs)).collect();
				cx.log(|| format!("extend with {v:?}"));
				c.extend_(&v);
				m.extend(v);
			}
			6 => {
				cx.log(|| "rebuild from owned iteration".into());
				let v = std::mem::take(c).owned(m.len() + 2);
				*c = C::collect_(&v);
			}
			7 => {
				cx.log(|| "replace by a clone".into());
				if cx.bool() {
					let d = c.clone();
					*c = d;
				} else {
					let mut d = C::new_();
					let k = cx.us(4);
					for _ in 0..k {
						d.insert_(&C::S::gen(cx, rs));
					}
					d.clone_from(c);
					*c = d;
				}
			}
			8 => {
				// remove a run of statements
				let mut v: Vec<C::S> = m.iter().cloned().collect();
				if cx.bool() {
					v.reverse();
				}
				let k = cx.us(v.len() + 1);
				v.truncate(k);
				cx.log(|| format!("remove one by one {v:?}"));
				for s in v {
					let got = c.remove_(&s);
					m.remove(&s);
					ck!(!flags || got, "step {i}: remove {s:?} returned false, expected true");
				}
			}
			_ => {
				c.extra(cx, m, rs)?;
			}
		}
		after(cx, c, m, Step { touched: touched.as_ref(), op })?;
	}
	Ok(())
}

/// Full comparison of a container with the model (set semantics).
pub fn check_set<R: Res, C: Cont<R>>(cx: &mut Cx, rs: &[R], c: &C, m: &BTreeSet<C::S>) -> Res_ {
	let cap = m.len() + 2;
	let want: Vec<C::S> = m.iter().cloned().collect();
	ck_eq!(c.len_(), want.len(), "len");
	ck_eq!(c.empty_(), want.is_empty(), "is_empty");
	ck_eq!(c.items(cap), want, "iteration");
	ck_eq!(c.items_ref(cap), want, "iteration of a reference");
	let (it, k) = c.items_trait(cap);
	ck_eq!(it, want, "traversal through the trait");
	ck_eq!(k, want.len(), "traversal count through the trait");
	if cx.chance(1, 8) {
		let k = cx.below(want.len() as u64 + 2) as usize;
		c.laws(want.len(), k)?;
	}
	for s in &want {
		ck!(c.contains_(s), "contains {s:?} is false although it is a member");
	}
	if rs.len() <= 3 {
		for s in C::S::all(rs) {
			ck_eq!(c.contains_(&s), m.contains(&s), "contains {s:?}");
		}
	} else {
		for _ in 0..6 {
			let s = C::S::gen(cx, rs);
			ck_eq!(c.contains_(&s), m.contains(&s), "contains {s:?}");
		}
	}
	Ok(())
}

// ------------------------------------------------------------ patterns (reference semantics)

/// Reference description of a position of a pattern.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Pos<X> {
	Any,
	Given(X),
	/// same as the subject / predicate / object
	Same(usize),
}

/// Reference quad pattern. `g` given `None` is the default graph.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct QPat<X> {
	pub s: Pos<X>,
	pub p: Pos<X>,
	pub o: Pos<X>,
	pub g: Pos<Option<X>>,
}

/// Reference triple pattern.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TPat<X> {
	pub s: Pos<X>,
	pub p: Pos<X>,
	pub o: Pos<X>,
}

impl<X: Clone> QPat<X> {
	/// Picks a shape: every position any, given, or the same as an earlier *non-given* position
	/// (canonical patterns do not refer back to given positions).
	pub fn gen(cx: &mut Cx, rs: &[X]) -> Self {
		let t = TPat::gen(cx, rs);
		let mut opts: Vec<Pos<Option<X>>> = vec![Pos::Any, Pos::Given(None)];
		for (i, p) in [(0, &t.s), (1, &t.p), (2, &t.o)] {
			if matches!(p, Pos::Any) {
				opts.push(Pos::Same(i));
			}
		}
		let g = if cx.chance(1, 3) { Pos::Given(Some(cx.pick(rs).clone())) } else { cx.pick(&opts).clone() };
		QPat { s: t.s, p: t.p, o: t.o, g }
	}
}

impl<X: Clone> TPat<X> {
	pub fn gen(cx: &mut Cx, rs: &[X]) -> Self {
		let s = if cx.chance(2, 5) { Pos::Given(cx.pick(rs).clone()) } else { Pos::Any };
		let p = match cx.weighted(&[2, 2, 1]) {
			0 => Pos::Any,
			1 => Pos::Given(cx.pick(rs).clone()),
			_ if matches!(s, Pos::Any) => Pos::Same(0),
			_ => Pos::Any,
		};
		let o = match cx.weighted(&[2, 2, 1, 1]) {
			0 => Pos::Any,
			1 => Pos::Given(cx.pick(rs).clone()),
			2 if matches!(s, Pos::Any) => Pos::Same(0),
			3 if matches!(p, Pos::Any) => Pos::Same(1),
			_ => Pos::Any,
		};
		TPat { s, p, o }
	}
}

fn pos_ok<X: PartialEq>(p: &Pos<X>, v: &X, prev: &[&X]) -> bool {
	match p {
		Pos::Any => true,
		Pos::Given(x) => x == v,
		Pos::Same(i) => prev[*i] == v,
	}
}

impl<X: PartialEq> TPat<X> {
	pub fn accepts(&self, s: &X, p: &X, o: &X) -> bool {
		pos_ok(&self.s, s, &[]) && pos_ok(&self.p, p, &[s]) && pos_ok(&self.o, o, &[s, p])
	}
}

impl<X: PartialEq> QPat<X> {
	pub fn accepts(&self, s: &X, p: &X, o: &X, g: Option<&X>) -> bool {
		pos_ok(&self.s, s, &[])
			&& pos_ok(&self.p, p, &[s])
			&& pos_ok(&self.o, o, &[s, p])
			&& match &self.g {
				Pos::Any => true,
				Pos::Given(None) => g.is_none(),
				Pos::Given(Some(x)) => g == Some(x),
				Pos::Same(i) => g == Some([s, p, o][*i]),
			}
	}
}

use rdf_types::pattern::quad::canonical as qc;
use rdf_types::pattern::triple::canonical as tc;
use rdf_types::pattern::CanonicalTriplePattern;

impl<X> TPat<X> {
	/// The canonical pattern, built constructor by constructor (no library conversion involved).
	pub fn canonical(&self) -> CanonicalTriplePattern<&X> {
		let obj_ap = |o: &Pos<X>| -> Option<()> { matches!(o, Pos::Any).then_some(()) };
		let _ = obj_ap;
		match &self.s {
			Pos::Given(s) => CanonicalTriplePattern::GivenSubject(
				s,
				match &self.p {
					Pos::Given(p) => tc::GivenSubject::GivenPredicate(
						p,
						match &self.o {
							Pos::Any => tc::GivenSubjectGivenPredicate::AnyObject,
							Pos::Given(o) => tc::GivenSubjectGivenPredicate::GivenObject(o),
							_ => unreachable!(),
						},
					),
					Pos::Any => tc::GivenSubject::AnyPredicate(match &self.o {
						Pos::Any => tc::GivenSubjectAnyPredicate::AnyObject,
						Pos::Same(1) => tc::GivenSubjectAnyPredicate::SameAsPredicate,
						Pos::Given(o) => tc::GivenSubjectAnyPredicate::GivenObject(o),
						_ => unreachable!(),
					}),
					_ => unreachable!(),
				},
			),
			_ => {
				let agp = |o: &'_ Pos<X>| -> u8 {
					match o {
						Pos::Any => 0,
						Pos::Same(0) => 1,
						Pos::Given(_) => 2,
						_ => unreachable!(),
					}
				};
				CanonicalTriplePattern::AnySubject(match &self.p {
					Pos::Any => tc::AnySubject::AnyPredicate(match &self.o {
						Pos::Any => tc::AnySubjectAnyPredicate::AnyObject,
						Pos::Same(0) => tc::AnySubjectAnyPredicate::SameAsSubject,
						Pos::Same(_) => tc::AnySubjectAnyPredicate::SameAsPredicate,
						Pos::Given(o) => tc::AnySubjectAnyPredicate::GivenObject(o),
					}),
					Pos::Same(_) => tc::AnySubject::SameAsSubject(match (agp(&self.o), &self.o) {
						(0, _) => tc::AnySubjectGivenPredicate::AnyObject,
						(1, _) => tc::AnySubjectGivenPredicate::SameAsSubject,
						(_, Pos::Given(o)) => tc::AnySubjectGivenPredicate::GivenObject(o),
						_ => unreachable!(),
					}),
					Pos::Given(p) => tc::AnySubject::GivenPredicate(
						p,
						match (agp(&self.o), &self.o) {
							(0, _) => tc::AnySubjectGivenPredicate::AnyObject,
							(1, _) => tc::AnySubjectGivenPredicate::SameAsSubject,
							(_, Pos::Given(o)) => tc::AnySubjectGivenPredicate::GivenObject(o),
							_ => unreachable!(),
						},
					),
				})
			}
		}
	}
}

include!("qcanon.rs");

pub fn q_matches<R: Res>(m: &BTreeSet<Q<R>>, pat: &QPat<R>) -> Vec<Q<R>> {
	m.iter().filter(|q| pat.accepts(&q.0, &q.1, &q.2, q.3.as_ref())).cloned().collect()
}
pub fn t_matches<R: Res>(m: &BTreeSet<T<R>>, pat: &TPat<R>) -> Vec<T<R>> {
	m.iter().filter(|q| pat.accepts(&q.0, &q.1, &q.2)).cloned().collect()
}

/// Same multiset.
pub fn same_bag<X: Ord + Clone + Debug>(what: &str, mut got: Vec<X>, want: &[X]) -> Res_ {
	got.sort();
	let mut w = want.to_vec();
	w.sort();
	ck!(got == w, "{what}: got {got:?}, expected {w:?}");
	Ok(())
}

/// The whole-set check behind C01 and C02: model comparison after every step, and isolation of clones.
pub fn set_case<R: Res, C: Cont<R>>(cx: &mut Cx, rs: &[R], c: &mut C, m: &mut BTreeSet<C::S>) -> Res_ {
	let mut snaps: Vec<(C, BTreeSet<C::S>)> = Vec::new();
	let mut removed = false;
	let mut peak = 0;
	history(cx, rs, c, m, true, |cx, c, m, st| {
		removed |= st.op == 2 || st.op == 8;
		peak = peak.max(m.len());
		ck_eq!(c.len_(), m.len(), "len");
		ck_eq!(c.empty_(), m.is_empty(), "is_empty");
		if let Some(s) = st.touched {
			ck_eq!(c.contains_(s), m.contains(s), "contains {s:?}");
		}
		if st.touched.is_none() || m.len() <= 8 || cx.chance(1, 8) {
			check_set(cx, rs, c, m)?;
		}
		if cx.chance(1, 24) {
			if snaps.len() > 2 {
				snaps.remove(0);
			}
			cx.class("clone kept aside");
			snaps.push((c.clone(), m.clone()));
			if cx.bool() {
				// continue on the clone: the source is the one put aside
				let last = snaps.last_mut().unwrap();
				std::mem::swap(&mut last.0, c);
			}
		}
		Ok(())
	})?;
	check_set(cx, rs, c, m)?;
	for (k, (sc, sm)) in snaps.iter_mut().enumerate() {
		check_set(cx, rs, sc, sm).map_err(|e| format!("clone {k} put aside earlier: {e}"))?;
		// the clone is still fully functional
		let all: Vec<C::S> = sm.iter().cloned().collect();
		for s in all {
			ck!(sc.remove_(&s), "clone {k}: removing {s:?} returned false");
			sm.remove(&s);
			ck_eq!(sc.len_(), sm.len(), "clone {k}: len after removing {s:?}");
		}
		check_set(cx, rs, sc, sm).map_err(|e| format!("emptied clone {k}: {e}"))?;
	}
	let own = c.clone().owned(m.len() + 2);
	let want: Vec<C::S> = m.iter().cloned().collect();
	ck_eq!(own, want, "owned iteration");
	// a container collected at once is the same set
	if cx.chance(1, 4) {
		let mut v: Vec<C::S> = want.clone();
		if !v.is_empty() {
			for _ in 0..cx.below(4) {
				let k = cx.us(v.len());
				let x = v[k].clone();
				let at = cx.us(v.len() + 1);
				v.insert(at, x);
			}
		}
		let d = C::collect_(&v);
		check_set(cx, rs, &d, m).map_err(|e| format!("collected from {v:?}: {e}"))?;
	}
	if removed && peak >= 2 {
		cx.nontrivial();
	}
	if peak >= 8 {
		cx.class("peak of 8 members or more");
	}
	Ok(())
}

/// A large content, beyond what 16-bit indexes could address: over 66 000 statements and
/// resources, inserted in a scrambled order, part of them removed again and part of those put
/// back, so that freed slots are reused.
pub fn scale<C: Cont<u32>>(make: impl Fn(u32) -> C::S) -> (C, BTreeSet<C::S>) {
	scale_of(66_500, make)
}

/// Same, with `n` statements (no multiple of 3, 23 or 587).
pub fn scale_of<C: Cont<u32>>(n: u32, make: impl Fn(u32) -> C::S) -> (C, BTreeSet<C::S>) {
	let at = |i: u32| ((i as u64 * 40_503 + 17) % n as u64) as u32;
	let mut c = C::new_();
	let mut m = BTreeSet::new();
	for i in 0..n {
		let s = make(at(i));
		c.insert_(&s);
		m.insert(s);
	}
	for i in (0..n).step_by(97) {
		let s = make(i);
		c.remove_(&s);
		m.remove(&s);
	}
	for i in (0..n).step_by(194) {
		let s = make(i + n);
		c.insert_(&s);
		m.insert(s);
	}
	(c, m)
}

/// The resource which most statements of a skewed content share.
pub const HUB: u32 = 9;
/// The sets of components shared by most statements of a skewed content: subject 1, predicate 2,
/// object 4, graph 8, default graph 16.
pub const SKEWS: [u32; 13] = [1, 2, 4, 8, 16, 3, 5, 6, 9, 10, 12, 17, 13];

/// Number of statements of a skewed content.
pub fn skew_n(thorough: bool) -> u32 {
	if thorough {
		20_000
	} else {
		5_000
	}
}

/// Statements seven eighths of which share some components.
pub fn skew_q(mask: u32) -> impl Fn(u32) -> Q<u32> {
	move |i| {
		let part = |k: u32| if mask & (1 << k) != 0 && i % 8 != 0 { HUB } else { (k + 1) * 1_000_000 + i };
		(part(0), part(1), part(2), if mask & 16 != 0 && i % 8 != 0 { None } else { Some(part(3)) })
	}
}

/// Resources of a skewed content: the shared one, those of two of its statements, one unknown.
pub fn skew_rs() -> Vec<u32> {
	let mut v = vec![HUB];
	for k in 1..=4 {
		v.extend([k * 1_000_000 + 4_000, k * 1_000_000 + 4_001]);
	}
	v.push(5);
	v
}

/// Patterns about the shared components: each one given, free or repeated.
pub fn skew_pats(mask: u32, i: u32) -> Vec<QPat<u32>> {
	let q = skew_q(mask)(i);
	let mut v = vec![];
	for k in 0..16 {
		let given = |j: u32, x: u32| if k & (1 << j) != 0 { Pos::Given(x) } else { Pos::Any };
		let (s, p, o) = (given(0, q.0), given(1, q.1), given(2, q.2));
		let g = if k & 8 != 0 { Pos::Given(q.3) } else { Pos::Any };
		v.push(QPat { s, p, o, g });
	}
	v.push(QPat { s: Pos::Any, p: Pos::Any, o: Pos::Same(0), g: Pos::Any });
	v.push(QPat { s: Pos::Any, p: Pos::Any, o: Pos::Any, g: Pos::Same(0) });
	v.push(QPat { s: Pos::Any, p: Pos::Same(0), o: Pos::Any, g: Pos::Any });
	v
}

pub fn scale_t(i: u32) -> T<u32> {
	(i % 300, 100_000 + i % 7, i)
}

pub fn scale_q(i: u32) -> Q<u32> {
	(i % 300, 100_000 + i % 7, i, match i % 5 {
		0 => None,
		1 => Some(i % 300),
		_ => Some(200_000 + i % 11),
	})
}
