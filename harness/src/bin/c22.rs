//! C22: generated identifiers are fresh, valid and never repeat.
use rdf_types::generator::{Blank, LocalGeneratorInterpretation};
use rdf_types::interpretation::fallible::FallibleGenerativeInterpretation;
use rdf_types::interpretation::{ConstGenerativeInterpretation, GenerativeInterpretation, Interpretation, InterpretationMut, LocalInterpretationMut, WithLocalGenerator};
use rdf_types::{BlankId, BlankIdBuf, CowLiteral, Generator, Iri, LiteralRef, LocalGenerator, LocalTerm, Term};
use std::borrow::Cow;
use std::collections::HashSet;
use vharness::gen::*;
use vharness::*;

/// Interpretation where resources are their own terms.
#[derive(Default)]
struct Plain;
impl Interpretation for Plain {
	type Resource = LocalTerm;
	fn iri(&self, i: &Iri) -> Option<LocalTerm> {
		Some(LocalTerm::Named(Term::Iri(i.to_owned())))
	}
	fn literal<'a>(&self, l: impl Into<LiteralRef<'a>>) -> Option<LocalTerm> {
		Some(LocalTerm::Named(Term::Literal(l.into().to_owned())))
	}
}
impl InterpretationMut for Plain {
	fn insert_iri<'a>(&mut self, i: impl Into<Cow<'a, Iri>>) -> LocalTerm {
		LocalTerm::Named(Term::Iri(i.into().into_owned()))
	}
	fn insert_literal<'a>(&mut self, l: impl Into<CowLiteral<'a>>) -> LocalTerm {
		LocalTerm::Named(Term::Literal(l.into().into_owned()))
	}
}
impl LocalInterpretationMut for Plain {
	fn insert_blank_id<'a>(&mut self, b: impl Into<Cow<'a, BlankId>>) -> LocalTerm {
		LocalTerm::Anonymous(b.into().into_owned())
	}
}

fn blank_of(t: LocalTerm) -> Result<BlankIdBuf, String> {
	match t {
		LocalTerm::Anonymous(b) => Ok(b),
		t => Err(format!("generated {t:?} is not a blank node identifier")),
	}
}

fn make(cx: &mut Cx, prefix: &str, offset: usize) -> Blank {
	match cx.below(4) {
		0 if prefix.is_empty() && offset == 0 => Blank::new(),
		1 if prefix.is_empty() && offset == 0 => Blank::default(),
		2 if prefix.is_empty() => Blank::new_with_offset(offset),
		2 | 3 if offset == 0 => Blank::new_with_prefix(prefix.to_string()),
		_ => Blank::new_full(prefix.to_string(), offset),
	}
}

/// Whatever the prefix, no malformed identifier comes out: a prefix that cannot
/// start a label is refused.
fn any_prefix(how: u64, prefix: &str, offset: usize) -> R {
	let valid = blank_label(&format!("_:{prefix}0"));
	let made = no_panic(|| match how % 3 {
		0 => Blank::new_with_prefix(prefix.to_string()),
		1 => Blank::new_full(prefix.to_string(), offset),
		_ => WithLocalGenerator::new(Plain, Blank::new_full(prefix.to_string(), offset)).into_generator(),
	});
	let mut g = match made {
		Ok(g) => g,
		Err(m) => {
			ck!(!valid, "label-safe prefix {prefix:?} refused: {m}");
			return Ok(());
		}
	};
	for _ in 0..3 {
		match no_panic(|| g.next_blank_id()) {
			Ok(b) => ck!(blank_label(b.as_str()), "malformed identifier {:?} generated with prefix {prefix:?}", b.as_str()),
			Err(m) => ck!(!valid, "panic with label-safe prefix {prefix:?}: {m}"),
		}
	}
	Ok(())
}

fn run(cx: &mut Cx) -> R {
	if cx.chance(1, 6) {
		let mut t: Vec<char> = any_blank_text(cx)[2..].chars().collect();
		for _ in 0..cx.range(1, 2) {
			let c = any_char(cx);
			let at = cx.below(t.len() as u64 + 1) as usize;
			if cx.bool() || t.is_empty() {
				t.insert(at, c);
			} else {
				let at = at.min(t.len() - 1);
				t[at] = c;
			}
		}
		let prefix: String = t.into_iter().collect();
		let offset = cx.below(2000) as usize;
		cx.log(|| format!("arbitrary prefix {prefix:?} offset {offset}"));
		let valid = blank_label(&format!("_:{prefix}0"));
		cx.class(if valid { "arbitrary prefix, label-safe" } else { "arbitrary prefix, malformed" });
		if !valid {
			cx.nontrivial();
		}
		return any_prefix(cx.below(3), &prefix, offset);
	}
	let prefix = match cx.weighted(&[3, 3, 4]) {
		0 => String::new(),
		1 => cx.pick(&["b", "0", "9", "_", ":", "a.", "a-", "x_", "B0", "a..", "1.2.", "é", "a\u{B7}", "_:"]).to_string(),
		_ => {
			let mut t = any_blank_text(cx)[2..].to_string();
			if cx.chance(1, 4) {
				t.push_str(cx.pick::<&str>(&[".", "-", "0", "9", "_"]));
			}
			t
		}
	};
	ck!(blank_label(&format!("_:{prefix}0")), "harness: prefix {prefix:?}");
	let near_max = cx.chance(1, 4);
	let offset = if near_max {
		usize::MAX - cx.below(40) as usize
	} else {
		match cx.weighted(&[3, 3, 2, 1]) {
			0 => 0,
			1 => cx.below(1000) as usize,
			2 => *cx.pick(&[9usize, 99, 255, 65535, 999, u32::MAX as usize - 2, u32::MAX as usize, i64::MAX as usize - 1, i64::MAX as usize]),
			_ => cx.any() as usize >> cx.below(64),
		}
	};
	let n = if near_max { 60 } else { cx.range(1, 40) as usize };
	cx.log(|| format!("prefix {prefix:?} offset {offset} ({n} identifiers)"));
	if !prefix.is_empty() && n > 2 {
		cx.nontrivial();
	}
	cx.class(if near_max { "numbers run out" } else { "numbers left" });

	// which way identifiers are obtained
	let via = cx.below(8);
	let g = make(cx, &prefix, offset);
	ck_eq!(g.prefix(), prefix, "prefix");
	ck_eq!(g.count(), offset, "count before any identifier");
	let mut plain = g;
	let mut interp = LocalGeneratorInterpretation::new(make(cx, &prefix, offset));
	let mut with = WithLocalGenerator::new(Plain, make(cx, &prefix, offset));
	let mut out: Vec<BlankIdBuf> = vec![];
	let mut failed = 0;
	for k in 0..n {
		let r: Result<LocalTerm, String> = no_panic(|| match via {
			0 => LocalTerm::Anonymous(plain.next_blank_id()),
			1 => plain.next_local_term(),
			2 => {
				let mut r = &mut plain;
				LocalGenerator::next_local_term(&mut r)
			}
			3 => ConstGenerativeInterpretation::new_resource(&interp),
			4 => GenerativeInterpretation::new_resource(&mut interp),
			5 => FallibleGenerativeInterpretation::try_new_resource(&mut interp).unwrap(),
			6 => with.new_resource(),
			_ => FallibleGenerativeInterpretation::try_new_resource(&mut with).unwrap(),
		});
		match r {
			Ok(t) => {
				ck!(failed == 0, "identifier {t:?} after the numbers ran out (prefix {prefix:?} offset {offset})");
				let b = blank_of(t)?;
				let want = (offset as u128) + k as u128;
				ck!(want <= usize::MAX as u128, "identifier {b} although the numbers from {offset} ran out");
				ck_eq!(b.as_str(), format!("_:{prefix}{want}"), "identifier {k} of prefix {prefix:?} offset {offset}");
				ck!(blank_label(b.as_str()), "invalid identifier {b:?}");
				out.push(b);
			}
			Err(m) => {
				ck!(offset as u128 + k as u128 >= usize::MAX as u128, "panic on identifier {k} of prefix {prefix:?} offset {offset}: {m}");
				failed += 1;
			}
		}
		if failed == 0 {
			let c = match via {
				0..=2 => plain.count(),
				6 | 7 => with.generator().count(),
				_ => continue,
			};
			if offset.checked_add(k + 1).is_some() {
				ck_eq!(c, offset + k + 1, "count after {} identifiers", k + 1);
			}
		}
	}
	let distinct: HashSet<&BlankIdBuf> = out.iter().collect();
	ck_eq!(distinct.len(), out.len(), "repeated identifiers with prefix {prefix:?} offset {offset}");
	if near_max {
		let left = usize::MAX - offset;
		ck!(out.len() == left || out.len() == left + 1, "{} identifiers from offset {offset}, {left} numbers left", out.len());
		ck!(failed > 0, "no panic although the numbers from {offset} ran out");
	} else {
		ck_eq!(out.len(), n.min(usize::MAX - offset), "number of identifiers");
		// the generator continues where it was through any other way
		let mut g = match via {
			0..=2 => plain,
			3..=5 => interp.into_generator(),
			6 => with.into_generator(),
			_ => with.into_parts().1,
		};
		ck_eq!(g.prefix(), prefix, "prefix afterwards");
		if offset.checked_add(n + 1).is_some() {
			ck_eq!(g.count(), offset + n, "count afterwards");
			ck_eq!(g.next_blank_id().to_string(), format!("_:{prefix}{}", offset + n), "identifier after the sequence");
		}
	}
	Ok(())
}

/// Generators of named terms keep their sequence through references.
struct Counter(u64);
impl Generator for Counter {
	fn next_term(&mut self) -> Term {
		self.0 += 1;
		Term::Iri(iri(&format!("urn:n:{}", self.0)))
	}
}

fn exhaustive(thorough: bool) -> Result<u64, String> {
	let mut prefixes = 0;
	for c in (0..if thorough { 0x110000 } else { 0x3100u32 }).filter_map(char::from_u32) {
		for (k, p) in [c.to_string(), format!("a{c}"), format!("{c}a")].iter().enumerate() {
			any_prefix(k as u64, p, 0)?;
			prefixes += 1;
		}
	}
	let mut c = Counter(0);
	for k in 1..200u64 {
		let t = if k % 2 == 0 {
			let mut r = &mut c;
			Generator::next_term(&mut r)
		} else {
			c.next_term()
		};
		ck_eq!(t, Term::Iri(iri(&format!("urn:n:{k}"))), "term {k} of a generator used through references");
	}
	// a long run never repeats
	let mut g = Blank::new();
	let mut seen = HashSet::new();
	for k in 0..200_000usize {
		let b = g.next_blank_id();
		ck_eq!(b.suffix(), k.to_string(), "identifier {k}");
		ck!(seen.insert(b), "identifier {k} repeats");
	}
	Ok(200_200 + prefixes)
}

fn main() {
	main_with(Prop {
		id: "C22",
		rule: "random label-safe prefixes (and, a sixth of the cases and every code point, arbitrary prefixes, which are refused or yield well-formed identifiers), offsets (including the last 40 numbers), lengths and ways of drawing identifiers; oracle: prefix and consecutive numbers, label grammar, and a panic (then only panics) when the numbers run out; non-trivial: non-empty prefix and more than two identifiers",
		quick: 600_000,
		thorough: 4_000_000,
		assumptions: &["arithmetic checked as in a release build (overflow checks off)", "whether the very last number usize::MAX is used or not is left open"],
		run,
		exhaustive: Some(exhaustive),
	})
}
