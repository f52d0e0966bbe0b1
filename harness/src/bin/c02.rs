//! C02: a dataset is a set of quads.
use rdf_types::dataset::*;
use std::collections::BTreeSet;
use vharness::cont::*;
use vharness::gen::*;
use vharness::*;

fn case<R: Res, C: Cont<R>>(cx: &mut Cx) -> vharness::R {
	let rs: Vec<R> = resources(cx);
	cx.log(|| format!("{} over {} resources", C::NAME, rs.len()));
	let mut c = C::new_();
	let mut m = BTreeSet::new();
	set_case(cx, &rs, &mut c, &mut m)
}

fn run(cx: &mut Cx) -> vharness::R {
	match cx.below(6) {
		0 => case::<u32, BTreeDataset<u32>>(cx),
		1 => case::<u32, IndexedBTreeDataset<u32>>(cx),
		2 => case::<Scrambled, BTreeDataset<Scrambled>>(cx),
		3 => case::<Scrambled, IndexedBTreeDataset<Scrambled>>(cx),
		4 => case::<rdf_types::LocalTerm, BTreeDataset<rdf_types::LocalTerm>>(cx),
		_ => case::<rdf_types::LocalTerm, IndexedBTreeDataset<rdf_types::LocalTerm>>(cx),
	}
}

fn large(_: bool) -> Result<u64, String> {
	fn one<C: Cont<u32, S = Q<u32>>>() -> vharness::R {
		let (mut c, mut m) = scale::<C>(scale_q);
		let mut cx = Cx::random("scale", 1, 0, false);
		check_set(&mut cx, &[0, 1, 2, 3], &c, &m)?;
		for i in (0..66_500).step_by(41) {
			ck_eq!(c.contains_(&scale_q(i)), m.contains(&scale_q(i)), "{}: contains {:?}", C::NAME, scale_q(i));
			ck_eq!(c.insert_(&scale_q(i)), m.insert(scale_q(i)), "{}: insert {:?}", C::NAME, scale_q(i));
			ck_eq!(c.remove_(&scale_q(i + 1)), m.remove(&scale_q(i + 1)), "{}: remove {:?}", C::NAME, scale_q(i + 1));
		}
		check_set(&mut cx, &[0, 1, 2, 3], &c, &m)
	}
	one::<BTreeDataset<u32>>()?;
	one::<IndexedBTreeDataset<u32>>()?;
	Ok(2)
}

fn main() {
	main_with(Prop {
		id: "C02",
		rule: "a case is a random history (inserts, re-inserts, removals, bulk extensions, rebuilds, clones, trait-level mutations, graph removals, extractions) on a plain or indexed dataset; one large content (over 66 000 statements and resources, partly removed and refilled) is checked first; non-trivial: the history removes at least one present quad and passes through at least 2 members",
		quick: 80_000,
		thorough: 3_000_000,
		assumptions: &["resource types with lawful Ord/Eq/Hash (u32, an order-scrambling type, LocalTerm)"],
		run,
		exhaustive: Some(large),
	})
}
