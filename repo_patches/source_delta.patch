From 4ea90c0b98a56149d12014b9d701aedcafc1719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:10 +0000
Subject: [PATCH 01/17] fix: look up each resource after inserting the previous
 one

Inserting a statement using a new resource in several positions looked up all
the positions before creating any, so the same resource was stored twice.
---
 src/dataset/graph/impl/btree_graph.rs         | 15 ++++--------
 src/dataset/graph/impl/indexed_btree_graph.rs | 15 ++++--------
 src/dataset/impl/btree_dataset.rs             | 24 ++++++++-----------
 src/dataset/impl/indexed_btree_dataset.rs     | 24 ++++++++-----------
 4 files changed, 30 insertions(+), 48 deletions(-)

diff --git a/src/dataset/graph/impl/btree_graph.rs b/src/dataset/graph/impl/btree_graph.rs
index d029f20..2ef8345 100644
--- a/src/dataset/graph/impl/btree_graph.rs
+++ b/src/dataset/graph/impl/btree_graph.rs
@@ -142,14 +142,9 @@ impl<R: Ord> BTreeGraph<R> {
 		if self.contains(triple.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&triple.0);
-			let p_i = self.index_of_resource(&triple.1);
-			let o_i = self.index_of_resource(&triple.2);
+			let i = self.triples.vacant_entry().key();
 
-			let e = self.triples.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&triple.0) {
 				Some(s_i) => {
 					self.resources[s_i].occurrences += 1;
 					s_i
@@ -162,7 +157,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&triple.1) {
 				Some(p_i) => {
 					self.resources[p_i].occurrences += 1;
 					p_i
@@ -175,7 +170,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&triple.2) {
 				Some(o_i) => {
 					self.resources[o_i].occurrences += 1;
 					o_i
@@ -188,7 +183,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			e.insert(Triple(s_i, p_i, o_i));
+			self.triples.insert(Triple(s_i, p_i, o_i));
 
 			self.triples_indexes
 				.insert(triple_index_cmp(&self.resources, &self.triples), i);
diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 274bfc4..fbaae9b 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -220,14 +220,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 		if self.contains(triple.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&triple.0);
-			let p_i = self.index_of_resource(&triple.1);
-			let o_i = self.index_of_resource(&triple.2);
+			let i = self.triples.vacant_entry().key();
 
-			let e = self.triples.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&triple.0) {
 				Some(s_i) => {
 					self.resources[s_i].as_subject.insert(i);
 					s_i
@@ -240,7 +235,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&triple.1) {
 				Some(p_i) => {
 					self.resources[p_i].as_predicate.insert(i);
 					p_i
@@ -253,7 +248,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&triple.2) {
 				Some(o_i) => {
 					self.resources[o_i].as_object.insert(i);
 					o_i
@@ -270,7 +265,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 			self.predicates.insert(p_i);
 			self.objects.insert(o_i);
 
-			e.insert(Triple(s_i, p_i, o_i));
+			self.triples.insert(Triple(s_i, p_i, o_i));
 
 			self.triples_indexes
 				.insert(triple_index_cmp(&self.resources, &self.triples), i);
diff --git a/src/dataset/impl/btree_dataset.rs b/src/dataset/impl/btree_dataset.rs
index 29d4e24..b5526d2 100644
--- a/src/dataset/impl/btree_dataset.rs
+++ b/src/dataset/impl/btree_dataset.rs
@@ -140,18 +140,9 @@ impl<R: Ord> BTreeDataset<R> {
 		if self.contains(quad.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&quad.0);
-			let p_i = self.index_of_resource(&quad.1);
-			let o_i = self.index_of_resource(&quad.2);
-			let g_i = quad.3.map(|g| {
-				let g_i = self.index_of_resource(&g);
-				(g, g_i)
-			});
-
-			let e = self.quads.vacant_entry();
-			let i = e.key();
+			let i = self.quads.vacant_entry().key();
 
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&quad.0) {
 				Some(s_i) => {
 					self.resources[s_i].occurrences += 1;
 					s_i
@@ -164,7 +155,7 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&quad.1) {
 				Some(p_i) => {
 					self.resources[p_i].occurrences += 1;
 					p_i
@@ -177,7 +168,7 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&quad.2) {
 				Some(o_i) => {
 					self.resources[o_i].occurrences += 1;
 					o_i
@@ -190,6 +181,11 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
+			let g_i = quad.3.map(|g| {
+				let g_i = self.index_of_resource(&g);
+				(g, g_i)
+			});
+
 			let g_i = match g_i {
 				Some((_, Some(g_i))) => {
 					self.resources[g_i].occurrences += 1;
@@ -204,7 +200,7 @@ impl<R: Ord> BTreeDataset<R> {
 				None => None,
 			};
 
-			e.insert(Quad(s_i, p_i, o_i, g_i));
+			self.quads.insert(Quad(s_i, p_i, o_i, g_i));
 
 			self.quads_indexes
 				.insert(quad_index_cmp(&self.resources, &self.quads), i);
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 1e81ec5..9985ee5 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -249,18 +249,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 		if self.contains(quad.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&quad.0);
-			let p_i = self.index_of_resource(&quad.1);
-			let o_i = self.index_of_resource(&quad.2);
-			let g_i = quad.3.map(|g| {
-				let g_i = self.index_of_resource(&g);
-				(g, g_i)
-			});
-
-			let e = self.quads.vacant_entry();
-			let i = e.key();
+			let i = self.quads.vacant_entry().key();
 
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&quad.0) {
 				Some(s_i) => {
 					self.resources[s_i].as_subject.insert(i);
 					s_i
@@ -273,7 +264,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&quad.1) {
 				Some(p_i) => {
 					self.resources[p_i].as_predicate.insert(i);
 					p_i
@@ -286,7 +277,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&quad.2) {
 				Some(o_i) => {
 					self.resources[o_i].as_object.insert(i);
 					o_i
@@ -299,6 +290,11 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
+			let g_i = quad.3.map(|g| {
+				let g_i = self.index_of_resource(&g);
+				(g, g_i)
+			});
+
 			let g_i = match g_i {
 				Some((_, Some(g_i))) => {
 					self.resources[g_i].as_graph.insert(i);
@@ -323,7 +319,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				self.named_graphs.insert(g_i);
 			}
 
-			e.insert(Quad(s_i, p_i, o_i, g_i));
+			self.quads.insert(Quad(s_i, p_i, o_i, g_i));
 
 			self.quads_indexes
 				.insert(quad_index_cmp(&self.resources, &self.quads), i);
-- 
2.43.0


From 662bb97c3d0f19145ccdf85d590fe006e2a36693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:30 +0000
Subject: [PATCH 02/17] fix: do not share nodes between a graph or dataset and
 its clones

RawBTree::clone does not clone the first child of inner nodes, so cloning a
container of more than a few statements was unsound (double free).
---
 src/dataset/graph/impl/btree_graph.rs         |  6 +++++-
 src/dataset/graph/impl/indexed_btree_graph.rs |  6 +++++-
 src/dataset/impl/btree_dataset.rs             |  6 +++++-
 src/dataset/impl/indexed_btree_dataset.rs     |  6 +++++-
 src/utils.rs                                  | 17 ++++++++++++++++-
 5 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/dataset/graph/impl/btree_graph.rs b/src/dataset/graph/impl/btree_graph.rs
index 2ef8345..39af5a5 100644
--- a/src/dataset/graph/impl/btree_graph.rs
+++ b/src/dataset/graph/impl/btree_graph.rs
@@ -7,6 +7,7 @@ use slab::Slab;
 use super::{super::Graph, IndexedBTreeGraph};
 use crate::{
 	dataset::{GraphMut, ResourceTraversableGraph, TraversableGraph},
+	utils::clone_indexes,
 	LocalTerm, RdfDisplay, Triple,
 };
 
@@ -49,11 +50,14 @@ fn triple_index_cmp<'a, R: Ord>(
 }
 
 /// BTree-based RDF graph.
-#[derive(Clone)]
+#[derive(Educe)]
+#[educe(Clone(bound(R: Clone)))]
 pub struct BTreeGraph<R = LocalTerm> {
 	pub(crate) resources: Slab<Resource<R>>,
 	pub(crate) triples: Slab<Triple<usize>>,
+	#[educe(Clone(method(clone_indexes)))]
 	pub(crate) resources_indexes: RawBTree<usize>,
+	#[educe(Clone(method(clone_indexes)))]
 	pub(crate) triples_indexes: RawBTree<usize>,
 }
 
diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index fbaae9b..1e591f7 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -14,6 +14,7 @@ use crate::{
 		triple::canonical::{PatternObject, PatternPredicate, PatternSubject},
 		CanonicalTriplePattern,
 	},
+	utils::clone_indexes,
 	LocalTerm, RdfDisplay, Triple,
 };
 
@@ -56,11 +57,14 @@ fn triple_index_cmp<'a, R: Ord>(
 }
 
 /// Indexed BTree-based RDF graph, optimized for pattern matching operations.
-#[derive(Clone)]
+#[derive(Educe)]
+#[educe(Clone(bound(R: Clone)))]
 pub struct IndexedBTreeGraph<R = LocalTerm> {
 	resources: Slab<Resource<R>>,
 	triples: Slab<Triple<usize>>,
+	#[educe(Clone(method(clone_indexes)))]
 	resources_indexes: RawBTree<usize>,
+	#[educe(Clone(method(clone_indexes)))]
 	triples_indexes: RawBTree<usize>,
 	subjects: BTreeSet<usize>,
 	predicates: BTreeSet<usize>,
diff --git a/src/dataset/impl/btree_dataset.rs b/src/dataset/impl/btree_dataset.rs
index b5526d2..c485882 100644
--- a/src/dataset/impl/btree_dataset.rs
+++ b/src/dataset/impl/btree_dataset.rs
@@ -7,6 +7,7 @@ use slab::Slab;
 use super::super::Dataset;
 use crate::{
 	dataset::{DatasetMut, IndexedBTreeDataset, ResourceTraversableDataset, TraversableDataset},
+	utils::clone_indexes,
 	LocalTerm, Quad, RdfDisplay,
 };
 
@@ -47,11 +48,14 @@ fn quad_index_cmp<'a, R: Ord>(
 }
 
 /// BTree-based RDF dataset.
-#[derive(Clone)]
+#[derive(Educe)]
+#[educe(Clone(bound(R: Clone)))]
 pub struct BTreeDataset<R = LocalTerm> {
 	pub(crate) resources: Slab<Resource<R>>,
 	pub(crate) quads: Slab<Quad<usize>>,
+	#[educe(Clone(method(clone_indexes)))]
 	pub(crate) resources_indexes: RawBTree<usize>,
+	#[educe(Clone(method(clone_indexes)))]
 	pub(crate) quads_indexes: RawBTree<usize>,
 }
 
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 9985ee5..3351004 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -18,6 +18,7 @@ use crate::{
 		quad::canonical::{PatternGraph, PatternObject, PatternPredicate, PatternSubject},
 		CanonicalQuadPattern,
 	},
+	utils::clone_indexes,
 	LocalTerm, Quad, RdfDisplay,
 };
 
@@ -58,11 +59,14 @@ fn quad_index_cmp<'a, R: Ord>(
 }
 
 /// Indexed BTree-based RDF dataset, optimized for pattern matching operations.
-#[derive(Clone)]
+#[derive(Educe)]
+#[educe(Clone(bound(R: Clone)))]
 pub struct IndexedBTreeDataset<R = LocalTerm> {
 	resources: Slab<Resource<R>>,
 	quads: Slab<Quad<usize>>,
+	#[educe(Clone(method(clone_indexes)))]
 	resources_indexes: RawBTree<usize>,
+	#[educe(Clone(method(clone_indexes)))]
 	quads_indexes: RawBTree<usize>,
 	subjects: BTreeSet<usize>,
 	predicates: BTreeSet<usize>,
diff --git a/src/utils.rs b/src/utils.rs
index 768d1df..7588b7d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,4 +1,6 @@
-use std::marker::PhantomData;
+use std::{cmp::Ordering, marker::PhantomData};
+
+use raw_btree::RawBTree;
 
 use crate::{Quad, Triple};
 
@@ -37,3 +39,16 @@ impl<I: Iterator> Iterator for OptionIterator<I> {
 		self.0.as_mut().and_then(I::next)
 	}
 }
+
+/// Clones the given tree of indexes.
+///
+/// Must be used instead of `RawBTree::clone`, which does not clone the first
+/// child of the inner nodes (it ends up shared by both trees).
+pub(crate) fn clone_indexes(indexes: &RawBTree<usize>) -> RawBTree<usize> {
+	let mut result = RawBTree::new();
+	for &i in indexes {
+		// Indexes are visited in order.
+		result.insert(|_, _| Ordering::Less, i);
+	}
+	result
+}
-- 
2.43.0


From dfc556b27a0494d2cdffec68565356bc1bcadabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:07 +0000
Subject: [PATCH 03/17] fix: keep roles still in use when removing a statement
 from an indexed container

Removing a statement always dropped its components from the subjects,
predicates and objects, even if other statements used them in that role, and
kept a graph name listed as a named graph while used in another role.
---
 src/dataset/graph/impl/indexed_btree_graph.rs | 13 +++++++++----
 src/dataset/impl/indexed_btree_dataset.rs     | 17 ++++++++++++-----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 1e591f7..4eae070 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -290,12 +290,11 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 			Some(i) => {
 				let Triple(s_i, p_i, o_i) = self.triples.remove(i);
 
-				self.subjects.remove(&s_i);
-				self.predicates.remove(&p_i);
-				self.objects.remove(&o_i);
-
 				let s = &mut self.resources[s_i];
 				s.as_subject.remove(&i);
+				if s.as_subject.is_empty() {
+					self.subjects.remove(&s_i);
+				}
 				if s.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.0);
@@ -304,6 +303,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 
 				let p = &mut self.resources[p_i];
 				p.as_predicate.remove(&i);
+				if p.as_predicate.is_empty() {
+					self.predicates.remove(&p_i);
+				}
 				if p.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.1);
@@ -312,6 +314,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 
 				let o = &mut self.resources[o_i];
 				o.as_object.remove(&i);
+				if o.as_object.is_empty() {
+					self.objects.remove(&o_i);
+				}
 				if o.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.2);
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 3351004..2d1f9a4 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -384,12 +384,11 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let Quad(s_i, p_i, o_i, g_i) = self.quads.remove(i);
 
-		self.subjects.remove(&s_i);
-		self.predicates.remove(&p_i);
-		self.objects.remove(&o_i);
-
 		let s = &mut self.resources[s_i];
 		s.as_subject.remove(&i);
+		if s.as_subject.is_empty() {
+			self.subjects.remove(&s_i);
+		}
 		if s.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &s_i);
@@ -398,6 +397,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let p = &mut self.resources[p_i];
 		p.as_predicate.remove(&i);
+		if p.as_predicate.is_empty() {
+			self.predicates.remove(&p_i);
+		}
 		if p.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &p_i);
@@ -406,6 +408,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let o = &mut self.resources[o_i];
 		o.as_object.remove(&i);
+		if o.as_object.is_empty() {
+			self.objects.remove(&o_i);
+		}
 		if o.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &o_i);
@@ -416,11 +421,13 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 			Some(g_i) => {
 				let g = &mut self.resources[g_i];
 				g.as_graph.remove(&i);
+				if g.as_graph.is_empty() {
+					self.named_graphs.remove(&g_i);
+				}
 				if g.is_empty() {
 					self.resources_indexes
 						.remove(resource_index_cmp(&self.resources), &g_i);
 					self.resources.remove(g_i);
-					self.named_graphs.remove(&g_i);
 				}
 			}
 			None => {
-- 
2.43.0


From 1f98be381112dedb710ec57a1f4bc09be1eaa298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:02 +0000
Subject: [PATCH 04/17] fix: skip the vacant indexes left by removed statements
 when matching patterns

The pattern matching iterators stopped at the first vacant index.
---
 src/dataset/graph/impl/indexed_btree_graph.rs |  6 +++++-
 src/dataset/impl/indexed_btree_dataset.rs     | 18 +++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 4eae070..ffbea6c 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -624,7 +624,11 @@ impl<'a, R> Iterator for PatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.triples.capacity() {
 			let i = self.subject.next(self.i)?;
-			let triple = *self.triples.get(i)?;
+			let Some(&triple) = self.triples.get(i) else {
+				// Vacant index, left by a removed triple.
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, triple) {
 				Ok(()) => match self.object.next(i, triple) {
 					Ok(()) => {
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 2d1f9a4..8873d43 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -824,7 +824,11 @@ impl<'a, R> Iterator for PatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.quads.get(i)?;
+			let Some(&quad) = self.quads.get(i) else {
+				// Vacant index, left by a removed quad.
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
@@ -861,7 +865,11 @@ impl<'a, R> Iterator for MultiPatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.quads.get(i)?;
+			let Some(&quad) = self.quads.get(i) else {
+				// Vacant index, left by a removed quad.
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
@@ -897,7 +905,11 @@ impl<R: Clone + Ord> Iterator for ExtractPatternMatching<'_, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.dataset.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.dataset.quads.get(i)?;
+			let Some(&quad) = self.dataset.quads.get(i) else {
+				// Vacant index, left by a removed quad.
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
-- 
2.43.0


From c7c0f8a9bc9a61b2b9de999347ad331ec07f9fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 05/17] fix: print blank node identifiers bare instead of as
 string literals in RDF syntax

---
 src/display.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/display.rs b/src/display.rs
index d787ff8..63d3954 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -1,5 +1,6 @@
 use std::fmt;
 
+use crate::{BlankId, BlankIdBuf};
 use langtag::{LangTag, LangTagBuf};
 
 /// Display method for RDF syntax elements.
@@ -99,6 +100,20 @@ impl<C: ?Sized> RdfDisplayWithContext<C> for iref::IriRefBuf {
 	}
 }
 
+impl RdfDisplay for BlankId {
+	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		use fmt::Display;
+		self.as_str().fmt(f)
+	}
+}
+
+impl RdfDisplay for BlankIdBuf {
+	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		use fmt::Display;
+		self.as_str().fmt(f)
+	}
+}
+
 impl RdfDisplay for LangTag {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
 		use fmt::Display;
-- 
2.43.0


From 8be09a53bdcb4752797b20b63239976d92b34075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:56 +0000
Subject: [PATCH 06/17] fix: accept dots inside blank node labels, as the
 documented grammar does

---
 src/blankid.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/blankid.rs b/src/blankid.rs
index eddde0e..4cc87ee 100644
--- a/src/blankid.rs
+++ b/src/blankid.rs
@@ -304,13 +304,17 @@ fn check<C: Iterator<Item = char>>(mut chars: C) -> bool {
 		Some('_') => match chars.next() {
 			Some(':') => match chars.next() {
 				Some(c) if c.is_ascii_digit() || is_pn_char_u(c) => {
+					let mut last = c;
+
 					for c in chars {
-						if !is_pn_char(c) {
+						if c != '.' && !is_pn_char(c) {
 							return false;
 						}
+
+						last = c;
 					}
 
-					true
+					last != '.'
 				}
 				_ => false,
 			},
-- 
2.43.0


From 3e6a328da07442f67a4874ab3a2c5635eeb98d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:45 +0000
Subject: [PATCH 07/17] fix: compare the quads without blank nodes when testing
 isomorphism

---
 src/dataset/isomorphism.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 405b586..d70fa05 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -68,6 +68,16 @@ where
 		return None;
 	}
 
+	// Blank-free quads must be the same on both sides.
+	let a_ground = collect_ground_quads(interpretation, a);
+	let b_ground = collect_ground_quads(interpretation, b);
+	let a_rest = BlankSignature(a_ground.difference(&b_ground).copied().collect());
+	let b_rest = BlankSignature(b_ground.difference(&a_ground).copied().collect());
+
+	if !a_rest.matches(interpretation, &b_rest) {
+		return None;
+	}
+
 	// Step 1: collect signatures.
 	let mut a_blanks_map = BTreeMap::new();
 	let mut b_blanks_map = BTreeMap::new();
@@ -187,6 +197,17 @@ where
 	r
 }
 
+fn collect_ground_quads<'d, I, D>(interpretation: &I, ds: &'d D) -> BTreeSet<Quad<&'d I::Resource>>
+where
+	I: ReverseInterpretation,
+	I::Resource: Ord,
+	D: TraversableDataset<Resource = I::Resource>,
+{
+	ds.quads()
+		.filter(|q| blank_count(interpretation, *q) == 0)
+		.collect()
+}
+
 fn collect_signatures<'d, I, D>(
 	interpretation: &I,
 	map: &mut BTreeMap<&'d I::Resource, BlankSignature<'d, I::Resource>>,
-- 
2.43.0


From 5a1476dda87de9bf9f7411a5ee775af1e2d0e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:48 +0000
Subject: [PATCH 08/17] fix: do not match distinct named resources when
 verifying a blank node bijection

---
 src/dataset/isomorphism.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index d70fa05..89a28e8 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -314,7 +314,7 @@ impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> {
 			Some(&c) => c == b,
 			None => match self.backward.get(b) {
 				Some(&c) => a == c,
-				None => true,
+				None => interpretation.is_anonymous(a) && interpretation.is_anonymous(b),
 			},
 		}
 	}
-- 
2.43.0


From e280dda8b5ddb22acef20bd1b1ff31b8a9efe0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:41 +0000
Subject: [PATCH 09/17] fix: keep the object/subject equality when binding the
 predicate or object of a triple pattern

---
 src/pattern/triple/canonical.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pattern/triple/canonical.rs b/src/pattern/triple/canonical.rs
index 9a2e2b6..b2ee224 100644
--- a/src/pattern/triple/canonical.rs
+++ b/src/pattern/triple/canonical.rs
@@ -338,6 +338,16 @@ impl<T> CanonicalTriplePattern<T> {
 					),
 				),
 			),
+			Self::AnySubject(AnySubject::GivenPredicate(
+				p,
+				AnySubjectGivenPredicate::SameAsSubject,
+			)) => (
+				PatternObject::SameAsSubject,
+				Self::GivenSubject(
+					o.clone(),
+					GivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::GivenObject(o)),
+				),
+			),
 			Self::AnySubject(mut current_p) => {
 				let old_p = current_p.set_object(o);
 				(old_p, Self::AnySubject(current_p))
@@ -568,7 +578,7 @@ impl<T> AnySubject<T> {
 			),
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsSubject) => (
 				PatternPredicate::Any,
-				Self::GivenPredicate(p, AnySubjectGivenPredicate::AnyObject),
+				Self::GivenPredicate(p, AnySubjectGivenPredicate::SameAsSubject),
 			),
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (
 				PatternPredicate::Any,
-- 
2.43.0


From ed6d8e174a779cc5543c24373d7704ff7848390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:28 +0000
Subject: [PATCH 10/17] fix: return the previous object when it was the same as
 the predicate

---
 src/pattern/triple/canonical.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pattern/triple/canonical.rs b/src/pattern/triple/canonical.rs
index b2ee224..d422030 100644
--- a/src/pattern/triple/canonical.rs
+++ b/src/pattern/triple/canonical.rs
@@ -613,7 +613,7 @@ impl<T> AnySubject<T> {
 	{
 		replace_with_or_abort_and_return(self, |this| match this {
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (
-				PatternObject::Any,
+				PatternObject::SameAsPredicate,
 				Self::GivenPredicate(o.clone(), AnySubjectGivenPredicate::GivenObject(o)),
 			),
 			Self::AnyPredicate(mut current_o) => {
@@ -866,7 +866,7 @@ impl<T> GivenSubject<T> {
 	{
 		replace_with_or_abort_and_return(self, |this| match this {
 			Self::AnyPredicate(GivenSubjectAnyPredicate::SameAsPredicate) => (
-				PatternObject::Any,
+				PatternObject::SameAsPredicate,
 				Self::GivenPredicate(o.clone(), GivenSubjectGivenPredicate::GivenObject(o)),
 			),
 			Self::AnyPredicate(mut current_o) => {
-- 
2.43.0


From d994817550965b82c9dca0ac41b28d9de31e7fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:54 +0000
Subject: [PATCH 11/17] fix: merge the entries of both maps in the unions of
 triple pattern sub-maps

---
 src/pattern/triple/map.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/pattern/triple/map.rs b/src/pattern/triple/map.rs
index de78054..7aad099 100644
--- a/src/pattern/triple/map.rs
+++ b/src/pattern/triple/map.rs
@@ -81,7 +81,10 @@ impl<V, T: Eq + Hash> GivenSubjectMap<V, T> {
 impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.union_with(other.any);
-		self.given.extend(other.given);
+
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().union_with(values);
+		}
 	}
 }
 
@@ -153,7 +156,10 @@ impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectAnyPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
 		self.same_as_predicate.extend(other.same_as_predicate);
-		self.given.extend(other.given)
+
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values);
+		}
 	}
 }
 
@@ -211,7 +217,10 @@ impl<V, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
 impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
-		self.given.extend(other.given)
+
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values);
+		}
 	}
 }
 
@@ -276,7 +285,10 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.union_with(other.any);
 		self.same_as_subject.union_with(other.same_as_subject);
-		self.given.extend(other.given)
+
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().union_with(values);
+		}
 	}
 }
 
@@ -352,7 +364,10 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectAnyPredicateMap<V, T> {
 		self.any.extend(other.any);
 		self.same_as_subject.extend(other.same_as_subject);
 		self.same_as_predicate.extend(other.same_as_predicate);
-		self.given.extend(other.given)
+
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values);
+		}
 	}
 }
 
@@ -421,7 +436,10 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectGivenPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
 		self.same_as_subject.extend(other.same_as_subject);
-		self.given.extend(other.given)
+
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values);
+		}
 	}
 }
 
-- 
2.43.0


From a53c17d6e4365662bf99df949dd7815b88b69b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:28 +0000
Subject: [PATCH 12/17] fix: panic instead of wrapping around when blank node
 numbers run out

---
 src/term/generator/blank.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/term/generator/blank.rs b/src/term/generator/blank.rs
index 46ec52a..e33093c 100644
--- a/src/term/generator/blank.rs
+++ b/src/term/generator/blank.rs
@@ -59,8 +59,12 @@ impl Blank {
 	}
 
 	pub fn next_blank_id(&mut self) -> BlankIdBuf {
+		let next_count = self
+			.count
+			.checked_add(1)
+			.expect("no more blank node identifiers");
 		let id = unsafe { BlankIdBuf::new_unchecked(format!("_:{}{}", self.prefix, self.count)) };
-		self.count += 1;
+		self.count = next_count;
 		id
 	}
 }
-- 
2.43.0


From 7b52eda3ec8cdfd3b40a9039fc9c50707e91546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:20 +0000
Subject: [PATCH 13/17] fix: make the quad pattern macro usable with IRIs,
 blank nodes and literals

---
 src/macro.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/macro.rs b/src/macro.rs
index 3769ab2..01c8a75 100644
--- a/src/macro.rs
+++ b/src/macro.rs
@@ -199,7 +199,7 @@ macro_rules! grdf_quad {
 
 /// Creates a gRDF quad pattern.
 ///
-/// The type of the returned value is `Quad<ResourceOrVar<Term, _>>`.
+/// The type of the returned value is `Quad<ResourceOrVar<LocalTerm, _>>`.
 ///
 /// This is similar to [`grdf_quad`], but with the addition of variables, which
 /// can be introduced using the syntax `?ident`. The variable `ident` must be
@@ -215,12 +215,12 @@ macro_rules! grdf_quad_pattern {
 	{
 		@from ($($acc:tt)*) $id:ident $($rest:tt)*
 	} => {
-		$crate::grdf_quad_pattern!(@from ($($acc)* $crate::pattern::ResourceOrVar::Resource($id),) $($rest)*)
+		$crate::grdf_quad_pattern!(@from ($($acc)* $crate::pattern::ResourceOrVar::Resource($crate::LocalTerm::from($id)),) $($rest)*)
 	};
 	{
 		@from ($($acc:tt)*) < $iri:literal > $($rest:tt)*
 	} => {
-		$crate::grdf_quad_pattern!(@from ($($acc)* $crate::pattern::ResourceOrVar::Resource($crate::LocalTerm::iri($crate::static_iref::iri!($iri).to_owned())),) $($rest)*)
+		$crate::grdf_quad_pattern!(@from ($($acc)* $crate::pattern::ResourceOrVar::Resource($crate::LocalTerm::iri($crate::iri!($iri).to_owned())),) $($rest)*)
 	};
 	{
 		@from ($($acc:tt)*) _ : $id:literal $($rest:tt)*
@@ -233,7 +233,7 @@ macro_rules! grdf_quad_pattern {
 		$crate::grdf_quad_pattern!(@from ($($acc)* $crate::pattern::ResourceOrVar::Resource($crate::LocalTerm::literal($crate::Literal::new(
 			$value.to_owned(),
 			$crate::LiteralType::Any(
-				$crate::static_iref::iri!($ty).to_owned()
+				$crate::iri!($ty).to_owned()
 			)
 		))),) $($rest)*)
 	};
@@ -250,12 +250,12 @@ macro_rules! grdf_quad_pattern {
 	{
 		@from ($s:expr, $p:expr, $o:expr,)
 	} => {
-		<$crate::Quad<$crate::pattern::ResourceOrVar<$crate::Term, _>>>::new($s, $p, $o, None)
+		<$crate::Quad<$crate::pattern::ResourceOrVar<$crate::LocalTerm, _>>>::new($s, $p, $o, None)
 	};
 	{
 		@from ($s:expr, $p:expr, $o:expr, $g:expr,)
 	} => {
-		<$crate::Quad<$crate::pattern::ResourceOrVar<$crate::Term, _>>>::new($s, $p, $o, Some($g))
+		<$crate::Quad<$crate::pattern::ResourceOrVar<$crate::LocalTerm, _>>>::new($s, $p, $o, Some($g))
 	};
 	{
 		@from ($($acc:tt)*) $t:tt $($rest:tt)*
-- 
2.43.0


From 0a6fae684fa4e5bbb5455cc2ebea6cc67a379747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:30 +0000
Subject: [PATCH 14/17] fix: make the UUID generators compile

The implementation predated Generator::next_term, so enabling any of the
uuid-generator features broke the build.
---
 src/term/generator/uuid.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/term/generator/uuid.rs b/src/term/generator/uuid.rs
index 7975d9e..4e80a58 100644
--- a/src/term/generator/uuid.rs
+++ b/src/term/generator/uuid.rs
@@ -78,13 +78,11 @@ impl Uuid {
 	feature = "uuid-generator-v4",
 	feature = "uuid-generator-v5"
 ))]
-impl Generator for Uuid {
-	fn next(&mut self) -> Term {
-		let mut buffer: Vec<u8> = vec![0; uuid::adapter::Urn::LENGTH];
-		let uuid = self.next_uuid();
-		let len = uuid.to_urn().encode_lower(buffer.as_mut()).len();
-		buffer.truncate(len);
-		Term::Iri(IriBuf::new_unchecked(String::from_utf8_unchecked(buffer)).unwrap())
+impl super::Generator for Uuid {
+	fn next_term(&mut self) -> crate::Term {
+		let mut buffer = [0; uuid::adapter::Urn::LENGTH];
+		let urn = self.next_uuid().to_urn().encode_lower(&mut buffer);
+		crate::Term::Iri(iref::IriBuf::new(urn.to_owned()).unwrap())
 	}
 }
 
-- 
2.43.0


From 4dc0445da8404c2aa32b786d741858b37a31fed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 15/17] fix: generators with a malformed prefix yield invalid
 blank node identifiers

---
 src/term/generator/blank.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/term/generator/blank.rs b/src/term/generator/blank.rs
index e33093c..f0dc779 100644
--- a/src/term/generator/blank.rs
+++ b/src/term/generator/blank.rs
@@ -32,6 +32,11 @@ impl Blank {
 	}
 
 	/// Creates a new numbered generator with the given prefix.
+	///
+	/// # Panics
+	///
+	/// Panics if `prefix` followed by a number is not a valid blank node
+	/// identifier suffix.
 	pub fn new_with_prefix(prefix: String) -> Self {
 		Self::new_full(prefix, 0)
 	}
@@ -41,7 +46,17 @@ impl Blank {
 	///
 	/// The returned generator can create `usize::MAX - offset` unique blank node identifiers
 	/// before panicking.
+	///
+	/// # Panics
+	///
+	/// Panics if `prefix` followed by a number is not a valid blank node
+	/// identifier suffix.
 	pub fn new_full(prefix: String, offset: usize) -> Self {
+		assert!(
+			BlankIdBuf::from_suffix(&format!("{prefix}0")).is_ok(),
+			"invalid blank node identifier prefix"
+		);
+
 		Self {
 			prefix,
 			count: offset,
@@ -63,6 +78,7 @@ impl Blank {
 			.count
 			.checked_add(1)
 			.expect("no more blank node identifiers");
+		// The prefix has been checked on creation.
 		let id = unsafe { BlankIdBuf::new_unchecked(format!("_:{}{}", self.prefix, self.count)) };
 		self.count = next_count;
 		id
-- 
2.43.0


From 5faa8b0d379f7c28c92f5da8e0ff9dd94fecdbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 16/17] fix: format width and precision altered the content of
 displayed literals and IRIs

---
 src/display.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index 63d3954..4dd6cc0 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -17,7 +17,7 @@ pub trait RdfDisplay {
 
 impl RdfDisplay for str {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		use fmt::Display;
+		use fmt::Write;
 		write!(f, "\"")?;
 
 		for c in self.chars() {
@@ -26,7 +26,7 @@ impl RdfDisplay for str {
 				'\\' => write!(f, "\\\\"),
 				'\n' => write!(f, "\\n"),
 				'\r' => write!(f, "\\r"),
-				c => c.fmt(f),
+				c => f.write_char(c),
 			}?
 		}
 
@@ -50,7 +50,7 @@ impl RdfDisplay for iref::IriRef {
 					let bytes: u32 = c.into();
 					write!(f, "\\u{bytes:#04x}")
 				}
-				_ => fmt::Display::fmt(&c, f),
+				_ => fmt::Write::write_char(f, c),
 			}?;
 		}
 
@@ -116,8 +116,7 @@ impl RdfDisplay for BlankIdBuf {
 
 impl RdfDisplay for LangTag {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		use fmt::Display;
-		self.as_str().fmt(f)
+		f.write_str(self.as_str())
 	}
 }
 
@@ -130,8 +129,7 @@ impl<C: ?Sized> RdfDisplayWithContext<C> for LangTag {
 
 impl RdfDisplay for LangTagBuf {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		use fmt::Display;
-		self.as_str().fmt(f)
+		f.write_str(self.as_str())
 	}
 }
 
-- 
2.43.0


From 5882637835d868ed9a3f7081966ad80d27ebb12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:17 +0000
Subject: [PATCH 17/17] fix: search for a blank node bijection without
 recursing for each blank node

---
 src/dataset/isomorphism.rs | 57 ++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 89a28e8..37b4963 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -365,48 +365,69 @@ impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> {
 		}
 	}
 
+	fn remove(&mut self, a: &'a R) {
+		if let Some(b) = self.forward.remove(a) {
+			self.backward.remove(b);
+		}
+	}
+
 	fn find_from_candidates<I>(
-		self,
+		mut self,
 		interpretation: &I,
-		mut candidates: std::collections::btree_map::Iter<&'a R, BTreeSet<&'b R>>,
+		candidates: std::collections::btree_map::Iter<&'a R, BTreeSet<&'b R>>,
 		a: &BTreeMap<&'a R, BlankSignature<'a, R>>,
 		b: &BTreeMap<&'b R, BlankSignature<'b, R>>,
 	) -> Option<Self>
 	where
 		I: ReverseInterpretation<Resource = R>,
 	{
-		match candidates.next() {
-			Some((a_blank_id, b_candidates)) => {
+		let candidates: Vec<_> = candidates.collect();
+
+		// Candidates left to try for each blank id matched so far.
+		// This is not done recursively since there may be many blank ids.
+		let mut stack = Vec::with_capacity(candidates.len());
+
+		while let Some((&a_blank_id, b_candidates)) = candidates.get(stack.len()) {
+			stack.push((a_blank_id, b_candidates.iter()));
+
+			while let Some((a_blank_id, b_candidates)) = stack.last_mut() {
+				let a_blank_id = *a_blank_id;
+				self.remove(a_blank_id);
+
+				let mut found = false;
 				for b_candidate in b_candidates {
 					if !self.backward.contains_key(b_candidate) {
 						// eprintln!("analyzing candidate {} for {}", b_candidate, a_blank_id);
 
-						let mut new_sigma = self.clone();
-						new_sigma.insert(a_blank_id, b_candidate);
-						if new_sigma.signature_matches_with(
+						self.insert(a_blank_id, b_candidate);
+						if self.signature_matches_with(
 							interpretation,
 							a.get(a_blank_id).unwrap(),
 							b.get(b_candidate).unwrap(),
 						) {
 							// eprintln!("this is a valid candidate. continuing.");
-							if let Some(final_sigma) = new_sigma.find_from_candidates(
-								interpretation,
-								candidates.clone(),
-								a,
-								b,
-							) {
-								return Some(final_sigma);
-							}
-							// eprintln!("it didn't work out in the end. next candidate for {}.", a_blank_id);
+							found = true;
+							break;
 						}
+
+						self.remove(a_blank_id);
 					}
 				}
 
+				if found {
+					break;
+				}
+
 				// eprintln!("no valid candidate for {}", a_blank_id);
-				None
+				stack.pop();
+			}
+
+			if stack.is_empty() {
+				return None;
 			}
-			None => Some(self),
 		}
+
+		Some(self)
 	}
 }
 
-- 
2.43.0

