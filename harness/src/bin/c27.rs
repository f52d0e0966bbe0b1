//! C27: resources are dropped exactly once and never used afterwards, and no memory is leaked,
//! touched after being freed or overrun. Histories are executed over a resource type that keeps
//! a ledger of its values, under an allocator that guards every block.
use rdf_types::dataset::*;
use rdf_types::pattern::triple::TriplePatternMap;
use rdf_types::pattern::{CanonicalTriplePattern, ResourceOrVar};
use rdf_types::{Quad, Triple};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vharness::cont::*;
use vharness::gen::*;
use vharness::*;

// ------------------------------------------------------------ guarding allocator

/// Blocks are preceded by a header and followed by a canary; freed blocks are filled with a
/// pattern and kept for a while, so that a second free or a late write is noticed, and a late
/// read yields garbage.
struct Guard;

const LIVE: u64 = 0x4c49_5645_4c49_5645;
const FREED: u64 = 0x4652_4545_4652_4545;
const TAIL: usize = 16;
const KEEP: usize = 512;

thread_local! {
	static ON: Cell<bool> = const { Cell::new(false) };
	static BLOCKS: Cell<i64> = const { Cell::new(0) };
	static FAULT: Cell<Option<&'static str>> = const { Cell::new(None) };
	static RING: RefCell<([(usize, usize, usize); KEEP], usize)> = const { RefCell::new(([(0, 0, 0); KEEP], 0)) };
}

fn front(l: &Layout) -> usize {
	l.align().max(32)
}

fn outer(l: &Layout) -> Layout {
	unsafe { Layout::from_size_align_unchecked(front(l) + l.size() + TAIL, l.align().max(16)) }
}

fn fault(m: &'static str) {
	let _ = FAULT.try_with(|f| {
		if f.get().is_none() {
			f.set(Some(m))
		}
	});
}

unsafe fn release(p: *mut u8, size: usize, align: usize) {
	let l = Layout::from_size_align_unchecked(size, align);
	let h = p.sub(32) as *const u64;
	if *h != FREED {
		fault("the header of a freed block was written");
	}
	let mut i = 0;
	while i + 8 <= size {
		if (p.add(i) as *const u64).read_unaligned() != 0xdddd_dddd_dddd_dddd {
			fault("a freed block was written");
			break;
		}
		i += 8;
	}
	System.dealloc(p.sub(front(&l)), outer(&l));
}

unsafe impl GlobalAlloc for Guard {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		let q = System.alloc(outer(&l));
		if q.is_null() {
			return q;
		}
		let p = q.add(front(&l));
		let h = p.sub(32) as *mut u64;
		*h = LIVE;
		*h.add(1) = l.size() as u64;
		*h.add(2) = l.align() as u64;
		// was it made while observed?
		let on = ON.try_with(|o| o.get()).unwrap_or(false);
		*h.add(3) = on as u64;
		p.add(l.size()).write_bytes(0xca, TAIL);
		if on {
			p.write_bytes(0xa5, l.size());
			let _ = BLOCKS.try_with(|b| b.set(b.get() + 1));
		}
		p
	}

	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		let h = p.sub(32) as *mut u64;
		match *h {
			LIVE => (),
			FREED => return fault("a block was freed twice"),
			_ => return fault("a block which was never allocated was freed"),
		}
		if *h.add(1) != l.size() as u64 || *h.add(2) != l.align() as u64 {
			return fault("a block was freed with another layout");
		}
		for i in 0..TAIL {
			if *p.add(l.size() + i) != 0xca {
				fault("a block was overrun");
				break;
			}
		}
		if *h.add(3) != 1 {
			*h = 0;
			return System.dealloc(p.sub(front(&l)), outer(&l));
		}
		let _ = BLOCKS.try_with(|b| b.set(b.get() - 1));
		*h = FREED;
		p.write_bytes(0xdd, l.size());
		let mut old = (p as usize, l.size(), l.align());
		let _ = RING.try_with(|r| {
			if let Ok(mut r) = r.try_borrow_mut() {
				let i = r.1;
				std::mem::swap(&mut r.0[i], &mut old);
				r.1 = (i + 1) % KEEP;
			}
		});
		if old.0 != 0 {
			release(old.0 as *mut u8, old.1, old.2);
		}
	}
}

#[global_allocator]
static GUARD: Guard = Guard;

fn flush() {
	let all = RING.with(|r| std::mem::replace(&mut *r.borrow_mut(), ([(0, 0, 0); KEEP], 0)).0);
	for (p, s, a) in all {
		if p != 0 {
			unsafe { release(p as *mut u8, s, a) }
		}
	}
}

// ------------------------------------------------------------ resources with a ledger

const MAX: usize = 1 << 20;

struct Ledger {
	/// state of each value made so far: live or not
	live: Vec<bool>,
	count: usize,
	fault: Option<&'static str>,
	/// number of user operations before one panics
	fuse: u64,
	collide: bool,
}

thread_local! {
	static LEDGER: RefCell<Ledger> = RefCell::new(Ledger { live: Vec::with_capacity(MAX), count: 0, fault: None, fuse: 0, collide: false });
}

struct Tracked {
	key: u32,
	token: u32,
	/// owns memory of its own
	text: Box<u32>,
}

fn enlist(key: u32) -> Tracked {
	let token = LEDGER.with(|l| {
		let mut l = l.borrow_mut();
		if l.live.len() < MAX {
			l.live.push(true);
		} else {
			l.fault = Some("harness: too many values");
		}
		l.count += 1;
		l.live.len() as u32 - 1
	});
	Tracked { key, token, text: Box::new(key) }
}

impl Tracked {
	/// A use of the value by the library.
	fn used(&self) {
		let burnt = LEDGER.with(|l| {
			let mut l = l.borrow_mut();
			if l.live.get(self.token as usize) != Some(&true) || *self.text != self.key {
				l.fault = l.fault.or(Some("a resource is used after being dropped"));
			}
			if l.fuse > 0 {
				l.fuse -= 1;
				l.fuse == 0
			} else {
				false
			}
		});
		if burnt {
			panic!("planned");
		}
	}
	fn rank(&self) -> u32 {
		self.key.wrapping_mul(0x9E3779B1).rotate_left(7)
	}
}
impl Clone for Tracked {
	fn clone(&self) -> Self {
		self.used();
		enlist(self.key)
	}
}
impl Drop for Tracked {
	fn drop(&mut self) {
		LEDGER.with(|l| {
			let mut l = l.borrow_mut();
			match l.live.get_mut(self.token as usize) {
				Some(x) if *x => {
					*x = false;
					l.count -= 1;
				}
				_ => l.fault = l.fault.or(Some("a resource is dropped twice")),
			}
		})
	}
}
impl PartialEq for Tracked {
	fn eq(&self, o: &Self) -> bool {
		self.used();
		o.used();
		self.key == o.key
	}
}
impl Eq for Tracked {}
impl PartialOrd for Tracked {
	fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for Tracked {
	fn cmp(&self, o: &Self) -> std::cmp::Ordering {
		self.used();
		o.used();
		self.rank().cmp(&o.rank())
	}
}
impl Hash for Tracked {
	fn hash<H: Hasher>(&self, h: &mut H) {
		self.used();
		if LEDGER.with(|l| l.borrow().collide) {
			(self.key % 2).hash(h)
		} else {
			self.key.hash(h)
		}
	}
}
impl std::fmt::Debug for Tracked {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		self.used();
		write!(f, "#{}", self.key)
	}
}
impl Res for Tracked {
	fn make(i: u32) -> Self {
		enlist(i)
	}
}

// ------------------------------------------------------------ histories

type K = (u32, u32, u32, Option<u32>);
type P = QPat<u32>;

/// Operations drawn beforehand, so that nothing else allocates while they are executed.
#[derive(Debug, Clone)]
enum Op {
	Insert(K),
	Remove(K),
	TraitInsert(K),
	Extend(Vec<K>),
	/// keep a clone aside, going on with one or the other
	Clone(bool),
	CloneFrom(usize),
	Drop(usize),
	/// take so many by value, then abandon the rest, or rebuild from them
	Owned(usize, bool),
	Borrowed(usize),
	Match(P, usize),
	Extract(P, usize),
	RemoveGraph(Option<u32>),
	/// go through the plain container with so many detours
	Reindex,
	Compare(usize),
	Resources(usize),
	RemoveFirst(usize),
}

fn key(cx: &mut Cx, n: u32) -> K {
	let (s, p, o) = triple_i(cx, n);
	(s, p, o, if cx.bool() { None } else { Some(res_i(cx, n)) })
}

fn ops(cx: &mut Cx, n: u32) -> Vec<Op> {
	let rs: Vec<u32> = (0..n).collect();
	let steps = match cx.below(4) {
		0 => cx.range(1, 6),
		1 => cx.range(6, 20),
		_ => cx.range(20, 60),
	};
	let prof: [u64; 16] = *cx.pick(&[[12, 8, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], [20, 6, 2, 1, 0, 0, 0, 0, 1, 1, 2, 1, 1, 0, 0, 2], [10, 1, 0, 4, 3, 2, 2, 2, 0, 1, 1, 0, 1, 1, 1, 3]]);
	let size = if cx.chance(1, 8) { 400 } else { 12 };
	(0..steps)
		.map(|_| match cx.weighted(&prof) {
			0 => Op::Insert(key(cx, n)),
			1 => Op::Remove(key(cx, n)),
			2 => Op::TraitInsert(key(cx, n)),
			3 => {
				let k = cx.us(size);
				Op::Extend((0..k).map(|_| key(cx, n)).collect())
			}
			4 => Op::Clone(cx.bool()),
			5 => Op::CloneFrom(cx.us(3)),
			6 => Op::Drop(cx.us(3)),
			7 => Op::Owned(cx.us(size), cx.bool()),
			8 => Op::Borrowed(cx.us(size)),
			9 => Op::Match(P::gen(cx, &rs), cx.us(8)),
			10 => Op::Extract(P::gen(cx, &rs), cx.us(8)),
			11 => Op::RemoveGraph(if cx.bool() { None } else { Some(res_i(cx, n)) }),
			12 => Op::Reindex,
			13 => Op::Compare(cx.us(3)),
			14 => Op::Resources(cx.us(8)),
			_ => Op::RemoveFirst(cx.us(size)),
		})
		.collect()
}

fn made<X>(p: &Pos<X>, f: impl FnOnce(&X) -> Pos<Tracked>) -> Pos<Tracked> {
	match p {
		Pos::Any => Pos::Any,
		Pos::Same(i) => Pos::Same(*i),
		Pos::Given(x) => f(x),
	}
}
fn pattern(p: &P) -> QPat<Tracked> {
	let one = |x: &Pos<u32>| made(x, |k| Pos::Given(enlist(*k)));
	QPat {
		s: one(&p.s),
		p: one(&p.p),
		o: one(&p.o),
		g: match &p.g {
			Pos::Any => Pos::Any,
			Pos::Same(i) => Pos::Same(*i),
			Pos::Given(x) => Pos::Given(x.map(enlist)),
		},
	}
}

/// What differs between the containers.
trait Own: Cont<Tracked> {
	const NAME_: &'static str;
	fn stmt(k: &K) -> Self::S;
	fn matching(&self, _: &QPat<Tracked>, _: usize) {}
	fn extract(&mut self, _: &QPat<Tracked>, _: usize) {}
	fn drop_graph(&mut self, _: Option<&Tracked>) {}
	fn reindex(&mut self) {}
	/// by value: as they come, and abandoned
	fn taken(self, n: usize) -> Vec<Self::S>;
	fn back(v: Vec<Self::S>) -> Self;
}

fn triple(k: &K) -> T<Tracked> {
	(enlist(k.0), enlist(k.1), enlist(k.2))
}
fn quad(k: &K) -> Q<Tracked> {
	(enlist(k.0), enlist(k.1), enlist(k.2), k.3.map(enlist))
}

macro_rules! triples {
	() => {
		fn stmt(k: &K) -> Self::S {
			triple(k)
		}
		fn taken(self, n: usize) -> Vec<Self::S> {
			self.into_iter().take(n).map(|Triple(s, p, o)| (s, p, o)).collect()
		}
		fn back(v: Vec<Self::S>) -> Self {
			v.into_iter().map(|(s, p, o)| Triple(s, p, o)).collect()
		}
	};
}
macro_rules! quads {
	() => {
		fn stmt(k: &K) -> Self::S {
			quad(k)
		}
		fn taken(self, n: usize) -> Vec<Self::S> {
			self.into_iter().take(n).map(|Quad(s, p, o, g)| (s, p, o, g)).collect()
		}
		fn back(v: Vec<Self::S>) -> Self {
			v.into_iter().map(|(s, p, o, g)| Quad(s, p, o, g)).collect()
		}
	};
}

impl Own for BTreeGraph<Tracked> {
	const NAME_: &'static str = "BTreeGraph";
	triples!();
}
impl Own for BTreeDataset<Tracked> {
	const NAME_: &'static str = "BTreeDataset";
	quads!();
}
impl Own for IndexedBTreeGraph<Tracked> {
	const NAME_: &'static str = "IndexedBTreeGraph";
	triples!();
	fn matching(&self, p: &QPat<Tracked>, n: usize) {
		let t = TPat { s: p.s.clone(), p: p.p.clone(), o: p.o.clone() };
		let found: Vec<_> = self.pattern_matching(t.canonical()).take(n).collect();
		std::hint::black_box(found.iter().map(|t| t.0.clone()).count());
	}
	fn reindex(&mut self) {
		let plain: BTreeGraph<Tracked> = std::mem::take(self).into_iter().collect();
		*self = plain.into_indexed();
	}
}
impl Own for IndexedBTreeDataset<Tracked> {
	const NAME_: &'static str = "IndexedBTreeDataset";
	quads!();
	fn matching(&self, p: &QPat<Tracked>, n: usize) {
		let found: Vec<_> = self.pattern_matching(p.canonical()).take(n).collect();
		std::hint::black_box(found.iter().map(|t| t.0.clone()).count());
	}
	fn extract(&mut self, p: &QPat<Tracked>, n: usize) {
		let found: Vec<Quad<Tracked>> = self.extract_pattern_matching(p.canonical()).take(n).collect();
		std::hint::black_box(&found);
	}
	fn drop_graph(&mut self, g: Option<&Tracked>) {
		self.remove_graph(g);
	}
	fn reindex(&mut self) {
		let plain: BTreeDataset<Tracked> = std::mem::take(self).into_iter().collect();
		*self = plain.into_indexed();
	}
}

fn step<C: Own>(c: &mut C, kept: &mut Vec<C>, op: &Op) {
	match op {
		Op::Insert(k) => {
			c.insert_(&C::stmt(k));
		}
		Op::Remove(k) => {
			c.remove_(&C::stmt(k));
		}
		Op::TraitInsert(k) => c.t_insert(&C::stmt(k)),
		Op::Extend(v) => c.extend_(&v.iter().map(C::stmt).collect::<Vec<_>>()),
		Op::Clone(swap) => {
			let mut d = c.clone();
			if *swap {
				std::mem::swap(&mut d, c);
			}
			if kept.len() < 3 {
				kept.push(d);
			}
		}
		Op::CloneFrom(i) => {
			if let Some(d) = kept.get_mut(*i) {
				d.clone_from(c)
			}
		}
		Op::Drop(i) => {
			if *i < kept.len() {
				kept.remove(*i);
			}
		}
		Op::Owned(n, rebuild) => {
			let v = if *rebuild { std::mem::take(c).taken(*n) } else { c.clone().taken(*n) };
			if *rebuild {
				*c = C::back(v);
			}
		}
		Op::Borrowed(n) => {
			c.items_ref(*n);
		}
		Op::Match(p, n) => c.matching(&pattern(p), *n),
		Op::Extract(p, n) => c.extract(&pattern(p), *n),
		Op::RemoveGraph(g) => {
			let g = g.map(enlist);
			c.drop_graph(g.as_ref())
		}
		Op::Reindex => c.reindex(),
		Op::Compare(i) => {
			if let Some(d) = kept.get(*i) {
				let mut h = DefaultHasher::new();
				c.hash(&mut h);
				std::hint::black_box((*c == *d, Ord::cmp(&*c, d), h.finish()));
			}
		}
		Op::Resources(n) => {
			c.res(*n);
		}
		Op::RemoveFirst(n) => {
			for s in c.items(*n) {
				c.remove_(&s);
			}
		}
	}
}

/// Faults noticed so far.
fn faults(when: &str) -> R {
	if let Some(m) = LEDGER.with(|l| l.borrow_mut().fault.take()) {
		return Err(format!("{m}, {when}"));
	}
	if let Some(m) = FAULT.with(|f| f.take()) {
		return Err(format!("{m}, {when}"));
	}
	Ok(())
}

fn observed(on: bool) {
	ON.with(|o| o.set(on))
}

/// Blocks and resources that remain when `f` is done.
fn remains(f: impl FnOnce() -> R) -> Result<(i64, usize), String> {
	LEDGER.with(|l| {
		let mut l = l.borrow_mut();
		l.live.clear();
		l.count = 0;
		l.fault = None;
		l.fuse = 0;
	});
	FAULT.with(|f| f.set(None));
	let before = BLOCKS.with(|b| b.get());
	observed(true);
	let r = no_panic(f);
	observed(false);
	flush();
	r.and_then(|r| r)?;
	Ok((BLOCKS.with(|b| b.get()) - before, LEDGER.with(|l| l.borrow().count)))
}

fn history<C: Own>(ops: &[Op]) -> R {
	let mut kept: Vec<C> = Vec::new();
	let mut c = C::new_();
	for (i, op) in ops.iter().enumerate() {
		step(&mut c, &mut kept, op);
		if LEDGER.with(|l| l.borrow().fault.is_some()) || FAULT.with(|f| f.get().is_some()) {
			return faults(&format!("in step {i}, {op:?}"));
		}
	}
	drop(kept);
	faults("when dropping the clones")?;
	for s in c.items(usize::MAX) {
		c.remove_(&s);
	}
	let n = LEDGER.with(|l| l.borrow().count);
	ck!(n == 0 || !c.empty_(), "{n} resources are still held by the emptied container");
	drop(c);
	faults("when dropping the container")
}

fn container<C: Own>(cx: &mut Cx, ops: &[Op]) -> R {
	cx.log(|| format!("{}: {ops:?}", C::NAME_));
	cx.class(C::NAME_);
	let r = remains(|| history::<C>(ops))?;
	faults("at the end")?;
	if r != (0, 0) {
		// once more: what is allocated once and for all does not count
		let r = remains(|| history::<C>(ops))?;
		ck!(r == (0, 0), "{} blocks of memory and {} resources remain when everything is dropped", r.0, r.1);
	}
	Ok(())
}

/// The same, when an operation of the resources panics on the way: no value may be dropped twice
/// or used afterwards.
fn interrupted<C: Own>(cx: &mut Cx, ops: &[Op]) -> R {
	let at = cx.us(ops.len());
	let fuse = cx.range(1, 40);
	cx.log(|| format!("{}: {ops:?}, with a panic at use {fuse} from step {at} on", C::NAME_));
	cx.class("panic of a resource's operation");
	remains(|| {
		let mut kept: Vec<C> = Vec::new();
		let mut c = C::new_();
		for (i, op) in ops.iter().enumerate() {
			if i == at {
				LEDGER.with(|l| l.borrow_mut().fuse = fuse);
			}
			// what a container holds after a panic is not specified
			let _ = no_panic(|| step(&mut c, &mut kept, op));
			faults(&format!("in step {i}, {op:?}"))?;
		}
		LEDGER.with(|l| l.borrow_mut().fuse = 0);
		let _ = no_panic(|| drop(kept));
		let _ = no_panic(|| drop(c));
		faults("when dropping the containers")
	})?;
	faults("at the end")
}

/// Pattern maps, and patterns bound in place.
fn patterns(cx: &mut Cx, n: u32) -> R {
	let rs: Vec<u32> = (0..n).collect();
	let mut todo: Vec<(TPat<u32>, K, u64)> = Vec::new();
	for _ in 0..cx.range(1, 30) {
		todo.push((TPat::gen(cx, &rs), key(cx, n), cx.below(6)));
	}
	cx.log(|| format!("pattern maps: {todo:?}"));
	cx.class("pattern maps");
	let run = || {
		let mut map: TriplePatternMap<Tracked, Tracked> = Default::default();
		for (i, (p, k, what)) in todo.iter().enumerate() {
			let one = |i: usize, x: &Pos<u32>| match x {
				Pos::Any => ResourceOrVar::Var(i),
				Pos::Same(j) => ResourceOrVar::Var(*j),
				Pos::Given(k) => ResourceOrVar::Resource(enlist(*k)),
			};
			let mut c: CanonicalTriplePattern<Tracked> = CanonicalTriplePattern::from_pattern(Triple(one(0, &p.s), one(1, &p.p), one(2, &p.o)));
			match what {
				0 | 1 => {
					map.insert(c, enlist(k.0));
				}
				2 => {
					c.set_subject(enlist(k.0));
				}
				3 => {
					c.set_predicate(enlist(k.1));
				}
				4 => {
					c.set_object(enlist(k.2));
				}
				_ => {
					let t = triple(k);
					let v: Vec<&Tracked> = map.get(tr(&t)).take(3).collect();
					std::hint::black_box(v.iter().map(|x| (*x).clone()).count());
				}
			}
			faults(&format!("in step {i}"))?;
		}
		drop(map);
		faults("when dropping the map")
	};
	let mut r = remains(run)?;
	if r != (0, 0) {
		r = remains(run)?;
	}
	ck!(r == (0, 0), "{} blocks of memory and {} resources remain when everything is dropped", r.0, r.1);
	faults("at the end")
}

fn run(cx: &mut Cx) -> R {
	let n = universe(cx).min(60);
	let collide = cx.chance(1, 4);
	LEDGER.with(|l| l.borrow_mut().collide = collide);
	if cx.chance(1, 10) {
		return patterns(cx, n);
	}
	let ops = ops(cx, n);
	if ops.iter().any(|o| matches!(o, Op::Insert(_) | Op::Extend(_))) && ops.len() > 3 {
		cx.nontrivial();
	}
	match cx.below(6) {
		0 => container::<BTreeGraph<Tracked>>(cx, &ops),
		1 => container::<BTreeDataset<Tracked>>(cx, &ops),
		2 => container::<IndexedBTreeGraph<Tracked>>(cx, &ops),
		3 => container::<IndexedBTreeDataset<Tracked>>(cx, &ops),
		_ => match cx.below(4) {
			0 => interrupted::<BTreeGraph<Tracked>>(cx, &ops),
			1 => interrupted::<BTreeDataset<Tracked>>(cx, &ops),
			2 => interrupted::<IndexedBTreeGraph<Tracked>>(cx, &ops),
			_ => interrupted::<IndexedBTreeDataset<Tracked>>(cx, &ops),
		},
	}
}

fn main() {
	main_with(Prop {
		id: "C27",
		rule: "a case is a random history (insertions, removals, bulk extensions, clones kept and changed, owned and borrowed iterators, extractions and matches abandoned part way, graph removals, indexing, comparisons) over a container of resources which record their creation, clones, uses and drops, sometimes with colliding hashes or a panic raised by one of the resources' operations; or a sequence of operations on pattern maps and patterns. Oracle: the ledger of the resources, and an allocator which notices second frees, wrong layouts, overruns, writes after free and leaks; non-trivial: more than 3 operations with at least one addition",
		quick: 100_000,
		thorough: 2_000_000,
		assumptions: &["leaks are not looked for after a panic of a resource's operation"],
		run,
		exhaustive: None,
	})
}
