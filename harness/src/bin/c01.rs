//! C01: a graph is a set of triples.
use rdf_types::dataset::*;
use std::collections::BTreeSet;
use vharness::cont::*;
use vharness::gen::*;
use vharness::*;

fn case<R: Res, C: Cont<R>>(cx: &mut Cx) -> R_ {
	let rs: Vec<R> = resources(cx);
	cx.log(|| format!("{} over {} resources", C::NAME, rs.len()));
	let mut c = C::new_();
	let mut m = BTreeSet::new();
	set_case(cx, &rs, &mut c, &mut m)
}
type R_ = vharness::R;

fn run(cx: &mut Cx) -> R_ {
	match cx.below(6) {
		0 => case::<u32, BTreeGraph<u32>>(cx),
		1 => case::<u32, IndexedBTreeGraph<u32>>(cx),
		2 => case::<Scrambled, BTreeGraph<Scrambled>>(cx),
		3 => case::<Scrambled, IndexedBTreeGraph<Scrambled>>(cx),
		4 => case::<rdf_types::LocalTerm, BTreeGraph<rdf_types::LocalTerm>>(cx),
		_ => case::<rdf_types::LocalTerm, IndexedBTreeGraph<rdf_types::LocalTerm>>(cx),
	}
}

fn large(_: bool) -> Result<u64, String> {
	fn one<C: Cont<u32, S = T<u32>>>() -> R_ {
		let (mut c, mut m) = scale::<C>(scale_t);
		let mut cx = Cx::random("scale", 1, 0, false);
		check_set(&mut cx, &[0, 1, 2, 3], &c, &m)?;
		for i in (0..66_500).step_by(41) {
			ck_eq!(c.contains_(&scale_t(i)), m.contains(&scale_t(i)), "{}: contains {:?}", C::NAME, scale_t(i));
			ck_eq!(c.insert_(&scale_t(i)), m.insert(scale_t(i)), "{}: insert {:?}", C::NAME, scale_t(i));
			ck_eq!(c.remove_(&scale_t(i + 1)), m.remove(&scale_t(i + 1)), "{}: remove {:?}", C::NAME, scale_t(i + 1));
		}
		check_set(&mut cx, &[0, 1, 2, 3], &c, &m)
	}
	one::<BTreeGraph<u32>>()?;
	one::<IndexedBTreeGraph<u32>>()?;
	Ok(2)
}

fn main() {
	main_with(Prop {
		id: "C01",
		rule: "a case is a random history (inserts, re-inserts, removals, bulk extensions, rebuilds, clones, trait-level mutations) on a plain or indexed graph; one large content (over 66 000 statements and resources, partly removed and refilled) is checked first; non-trivial: the history removes at least one present triple and ends or passes through at least 2 members",
		quick: 100_000,
		thorough: 3_000_000,
		assumptions: &["resource types with lawful Ord/Eq/Hash (u32, an order-scrambling type, LocalTerm)"],
		run,
		exhaustive: Some(large),
	})
}
