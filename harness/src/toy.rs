//! User-side implementations of the graph and dataset traits: a vector of tuples, filtered with the
//! reference pattern semantics. They exercise the provided (default) methods of the traits.
use crate::cont::*;
use rdf_types::dataset::*;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern};
use rdf_types::{Quad, Triple};

pub struct VecGraph<R>(pub Vec<T<R>>);

impl<R> Graph for VecGraph<R> {
	type Resource = R;
}
impl<R> TraversableGraph for VecGraph<R> {
	type Triples<'a>
		= std::vec::IntoIter<Triple<&'a R>>
	where
		Self: 'a;
	fn triples(&self) -> Self::Triples<'_> {
		self.0.iter().map(tr).collect::<Vec<_>>().into_iter()
	}
}
fn distinct<'a, R: PartialEq>(i: impl Iterator<Item = &'a R>) -> std::vec::IntoIter<&'a R> {
	let mut v: Vec<&R> = Vec::new();
	for x in i {
		if !v.contains(&x) {
			v.push(x);
		}
	}
	v.into_iter()
}
macro_rules! listing {
	($ty:ident, $trait:ident, $assoc:ident, $f:ident, $self:ident => $e:expr) => {
		impl<R: PartialEq> $trait for $ty<R> {
			type $assoc<'a>
				= std::vec::IntoIter<&'a R>
			where
				Self: 'a;
			fn $f(&$self) -> Self::$assoc<'_> {
				distinct($e)
			}
		}
	};
}
listing!(VecGraph, ResourceTraversableGraph, GraphResources, graph_resources, self => self.0.iter().flat_map(|t| [&t.0, &t.1, &t.2]));
listing!(VecGraph, SubjectTraversableGraph, GraphSubjects, graph_subjects, self => self.0.iter().map(|t| &t.0));
listing!(VecGraph, PredicateTraversableGraph, GraphPredicates, graph_predicates, self => self.0.iter().map(|t| &t.1));
listing!(VecGraph, ObjectTraversableGraph, GraphObjects, graph_objects, self => self.0.iter().map(|t| &t.2));

impl<R: PartialEq> PatternMatchingGraph for VecGraph<R> {
	type TriplePatternMatching<'a, 'p>
		= std::vec::IntoIter<Triple<&'a R>>
	where
		Self: 'a,
		R: 'p;
	fn triple_pattern_matching<'p>(&self, pattern: CanonicalTriplePattern<&'p R>) -> Self::TriplePatternMatching<'_, 'p> {
		let pat = TPat::read(pattern);
		self.0.iter().filter(|t| pat.accepts(&&t.0, &&t.1, &&t.2)).map(tr).collect::<Vec<_>>().into_iter()
	}
}
impl<R: PartialEq> GraphMut for VecGraph<R> {
	fn insert(&mut self, t: Triple<R>) {
		let t = (t.0, t.1, t.2);
		if !self.0.contains(&t) {
			self.0.push(t);
		}
	}
	fn remove(&mut self, t: Triple<&R>) {
		self.0.retain(|x| tr(x) != t);
	}
}

pub struct VecDataset<R>(pub Vec<Q<R>>);

impl<R> Dataset for VecDataset<R> {
	type Resource = R;
}
impl<R> TraversableDataset for VecDataset<R> {
	type Quads<'a>
		= std::vec::IntoIter<Quad<&'a R>>
	where
		Self: 'a;
	fn quads(&self) -> Self::Quads<'_> {
		self.0.iter().map(qr).collect::<Vec<_>>().into_iter()
	}
}
listing!(VecDataset, ResourceTraversableDataset, Resources, resources, self => self.0.iter().flat_map(|t| [Some(&t.0), Some(&t.1), Some(&t.2), t.3.as_ref()]).flatten());
listing!(VecDataset, SubjectTraversableDataset, Subjects, subjects, self => self.0.iter().map(|t| &t.0));
listing!(VecDataset, PredicateTraversableDataset, Predicates, predicates, self => self.0.iter().map(|t| &t.1));
listing!(VecDataset, ObjectTraversableDataset, Objects, objects, self => self.0.iter().map(|t| &t.2));
listing!(VecDataset, NamedGraphTraversableDataset, NamedGraphs, named_graphs, self => self.0.iter().filter_map(|t| t.3.as_ref()));

impl<R: PartialEq> PatternMatchingDataset for VecDataset<R> {
	type QuadPatternMatching<'a, 'p>
		= std::vec::IntoIter<Quad<&'a R>>
	where
		Self: 'a,
		R: 'p;
	fn quad_pattern_matching<'p>(&self, pattern: CanonicalQuadPattern<&'p R>) -> Self::QuadPatternMatching<'_, 'p> {
		let pat = QPat::read(pattern);
		self.0.iter().filter(|t| pat.accepts(&&t.0, &&t.1, &&t.2, t.3.as_ref().as_ref())).map(qr).collect::<Vec<_>>().into_iter()
	}
}
impl<R: PartialEq> DatasetMut for VecDataset<R> {
	fn insert(&mut self, q: Quad<R>) {
		let q = (q.0, q.1, q.2, q.3);
		if !self.0.contains(&q) {
			self.0.push(q);
		}
	}
	fn remove(&mut self, q: Quad<&R>) {
		self.0.retain(|x| qr(x) != q);
	}
}

/// A source of statements which may fail at any point of a walk: `Err` stands for a failure there.
pub struct Flaky<S>(pub Vec<Result<S, u32>>);

impl<R> fallible::FallibleDataset for Flaky<Q<R>> {
	type Resource = R;
	type Error = u32;
}
impl<R: PartialEq> fallible::FalliblePatternMatchingDataset for Flaky<Q<R>> {
	type TryQuadPatternMatching<'a, 'p>
		= std::vec::IntoIter<Result<Quad<&'a R>, u32>>
	where
		Self: 'a,
		R: 'p;
	fn try_quad_pattern_matching<'p>(&self, pattern: CanonicalQuadPattern<&'p R>) -> Self::TryQuadPatternMatching<'_, 'p> {
		let pat = QPat::read(pattern);
		let keep = |t: &&Result<Q<R>, u32>| t.as_ref().map_or(true, |t| pat.accepts(&&t.0, &&t.1, &&t.2, t.3.as_ref().as_ref()));
		self.0.iter().filter(keep).map(|t| t.as_ref().map(qr).map_err(|e| *e)).collect::<Vec<_>>().into_iter()
	}
}
impl<R> fallible_graph::FallibleGraph for Flaky<T<R>> {
	type Resource = R;
	type Error = u32;
}
impl<R: PartialEq> fallible_graph::FalliblePatternMatchingGraph for Flaky<T<R>> {
	type TryTriplePatternMatching<'a, 'p>
		= std::vec::IntoIter<Result<Triple<&'a R>, u32>>
	where
		Self: 'a,
		R: 'p;
	fn try_triple_pattern_matching<'p>(&self, pattern: CanonicalTriplePattern<&'p R>) -> Self::TryTriplePatternMatching<'_, 'p> {
		let pat = TPat::read(pattern);
		let keep = |t: &&Result<T<R>, u32>| t.as_ref().map_or(true, |t| pat.accepts(&&t.0, &&t.1, &&t.2));
		self.0.iter().filter(keep).map(|t| t.as_ref().map(tr).map_err(|e| *e)).collect::<Vec<_>>().into_iter()
	}
}
