//! C03: listings of resources and roles are exact.
use rdf_types::dataset::*;
use rdf_types::LocalTerm;
use std::collections::BTreeSet;
use vharness::cont::*;
use vharness::gen::*;
use vharness::*;

fn check<R: Res, C: Cont<R>>(rs: &[R], c: &C, m: &BTreeSet<C::S>) -> vharness::R {
	let mut used: BTreeSet<R> = BTreeSet::new();
	let mut role: [BTreeSet<R>; 4] = Default::default();
	for s in m {
		for (i, p) in s.parts().into_iter().enumerate() {
			if let Some(p) = p {
				used.insert(p.clone());
				role[i].insert(p.clone());
			}
		}
	}
	let cap = rs.len() + 2;
	same_set("resources()", &c.res(cap), &used)?;
	let (l, k) = c.res_trait(cap);
	same_set("resources through the trait", &l, &used)?;
	ck_eq!(k, used.len(), "resource count");
	for r in rs {
		ck_eq!(c.has_res(r), used.contains(r), "contains_resource({r:?})");
	}
	if let Some(roles) = c.roles(cap) {
		for (i, name) in ["subjects", "predicates", "objects"].into_iter().enumerate() {
			same_set(&format!("{name}()"), &roles[i].0, &role[i])?;
			same_set(&format!("{name} through the trait"), &roles[i].1, &role[i])?;
			ck_eq!(roles[i].2, role[i].len(), "{name} count");
		}
	}
	if let Some((a, b, k)) = c.graphs(cap) {
		same_set("named_graphs()", &a, &role[3])?;
		same_set("named graphs through the trait", &b, &role[3])?;
		ck_eq!(k, role[3].len(), "named graph count");
	}
	Ok(())
}

fn case<R: Res, C: Cont<R>>(cx: &mut Cx) -> vharness::R {
	let rs: Vec<R> = resources(cx);
	cx.log(|| format!("{} over {} resources", C::NAME, rs.len()));
	let mut c = C::new_();
	let mut m = BTreeSet::new();
	let mut shared_removed = false;
	let mut gone = false;
	let mut before: BTreeSet<C::S> = BTreeSet::new();
	history(cx, &rs, &mut c, &mut m, false, |cx, c, m, st| {
		// non-triviality: a removal that leaves, and one that drops, a resource
		if st.op == 2 || st.op == 3 {
			if let Some(s) = st.touched {
				if before.contains(s) {
					for p in s.parts().into_iter().flatten() {
						if m.iter().any(|x| x.parts().into_iter().flatten().any(|y| y == p)) {
							shared_removed = true;
						} else {
							gone = true;
						}
					}
				}
			}
		}
		if st.touched.is_none() || m.len() < 12 || cx.chance(1, 6) {
			check(&rs, c, m)?;
		}
		before = m.clone();
		Ok(())
	})?;
	check(&rs, &c, &m)?;
	c.role_laws(cx.us(rs.len() + 2))?;
	if shared_removed && gone {
		cx.nontrivial();
	}
	Ok(())
}

fn run(cx: &mut Cx) -> vharness::R {
	match cx.below(10) {
		0 => case::<u32, BTreeGraph<u32>>(cx),
		1 | 2 => case::<u32, IndexedBTreeGraph<u32>>(cx),
		3 => case::<u32, BTreeDataset<u32>>(cx),
		4 | 5 => case::<u32, IndexedBTreeDataset<u32>>(cx),
		6 => case::<Scrambled, IndexedBTreeGraph<Scrambled>>(cx),
		7 => case::<Scrambled, IndexedBTreeDataset<Scrambled>>(cx),
		8 => case::<LocalTerm, IndexedBTreeGraph<LocalTerm>>(cx),
		_ => case::<LocalTerm, IndexedBTreeDataset<LocalTerm>>(cx),
	}
}

fn large(_: bool) -> Result<u64, String> {
	fn one<C: Cont<u32>>(make: impl Fn(u32) -> C::S) -> vharness::R {
		let (c, m) = scale::<C>(make);
		let used: BTreeSet<u32> = m.iter().flat_map(|s| s.parts().into_iter().flatten().cloned().collect::<Vec<_>>()).collect();
		let rs: Vec<u32> = used.into_iter().chain([400_000]).collect();
		check(&rs, &c, &m)
	}
	one::<BTreeGraph<u32>>(scale_t)?;
	one::<IndexedBTreeGraph<u32>>(scale_t)?;
	one::<BTreeDataset<u32>>(scale_q)?;
	one::<IndexedBTreeDataset<u32>>(scale_q)?;
	Ok(4)
}

fn main() {
	main_with(Prop {
		id: "C03",
		rule: "a case is a random history on a graph or dataset, all listings compared with those computed from the modelled statements after the steps; one large content (over 66 000 statements and resources, partly removed and refilled) is checked first; non-trivial: some removal left a resource of the removed statement in use and some removal made one disappear",
		quick: 120_000,
		thorough: 3_000_000,
		assumptions: &["resource types with lawful Ord/Eq/Hash (u32, an order-scrambling type, LocalTerm)"],
		run,
		exhaustive: Some(large),
	})
}
