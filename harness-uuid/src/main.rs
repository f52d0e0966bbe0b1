//! C25: UUID generators yield the UUIDs of their version as valid IRIs.
//!
//! In a crate of its own: the feature pulls dependencies the other checks do without.
use iref::Iri;
use rdf_types::generator::Uuid;
use rdf_types::interpretation::{GenerativeInterpretation, Interpretation, InterpretationMut, WithGenerator};
use rdf_types::{CowLiteral, Generator, LiteralRef, Term};
use std::borrow::Cow;
use std::collections::HashSet;
use vharness::gen::*;
use vharness::*;

/// Interpretation where resources are their own terms.
struct Plain;
impl Interpretation for Plain {
	type Resource = Term;
	fn iri(&self, i: &Iri) -> Option<Term> {
		Some(Term::Iri(i.to_owned()))
	}
	fn literal<'a>(&self, l: impl Into<LiteralRef<'a>>) -> Option<Term> {
		Some(Term::Literal(l.into().to_owned()))
	}
}
impl InterpretationMut for Plain {
	fn insert_iri<'a>(&mut self, i: impl Into<Cow<'a, Iri>>) -> Term {
		Term::Iri(i.into().into_owned())
	}
	fn insert_literal<'a>(&mut self, l: impl Into<CowLiteral<'a>>) -> Term {
		Term::Literal(l.into().into_owned())
	}
}

/// Text of a UUID (RFC 4122, section 3) with a version number and the RFC variant set.
fn urn(mut b: [u8; 16], version: u8) -> String {
	b[6] = b[6] & 0x0f | version << 4;
	b[8] = b[8] & 0x3f | 0x80;
	let mut s = String::from("urn:uuid:");
	for (i, x) in b.iter().enumerate() {
		if matches!(i, 4 | 6 | 8 | 10) {
			s.push('-');
		}
		s.push_str(&format!("{x:02x}"));
	}
	s
}

fn name_based(version: u8, ns: &[u8; 16], name: &str) -> String {
	let mut data = ns.to_vec();
	data.extend_from_slice(name.as_bytes());
	let mut b = [0; 16];
	if version == 3 {
		b.copy_from_slice(&md5::compute(&data).0);
	} else {
		b.copy_from_slice(&sha1::Sha1::from(&data).digest().bytes()[..16]);
	}
	urn(b, version)
}

/// The UUID bytes of an IRI, which must have the exact shape of a UUID URN.
fn parse(text: &str) -> Option<[u8; 16]> {
	let hex = text.strip_prefix("urn:uuid:")?;
	if hex.len() != 36 || !hex.is_ascii() {
		return None;
	}
	let mut b = [0; 16];
	let mut k = 0;
	for (i, c) in hex.bytes().enumerate() {
		if matches!(i, 8 | 13 | 18 | 23) {
			if c != b'-' {
				return None;
			}
			continue;
		}
		if c.is_ascii_uppercase() {
			return None;
		}
		b[k / 2] = b[k / 2] << 4 | (c as char).to_digit(16)? as u8;
		k += 1;
	}
	Some(b)
}

fn run(cx: &mut Cx) -> R {
	let version = *cx.pick(&[4u8, 3, 5]);
	let mut ns = [0u8; 16];
	match cx.below(3) {
		0 => (),
		1 => ns = *uuid::Uuid::NAMESPACE_URL.as_bytes(),
		_ => ns.iter_mut().for_each(|b| *b = cx.any() as u8),
	}
	let name = match cx.below(4) {
		0 => String::new(),
		1 => any_blank_text(cx),
		2 => cx.pick(&["test", "é", "\u{0}", "http://example.org/", "\u{10FFFF}a"]).to_string(),
		_ => (0..cx.range(1, 200)).map(|_| any_char(cx)).collect(),
	};
	let n = cx.range(1, 30) as usize;
	let via = cx.below(6);
	cx.log(|| format!("version {version}, namespace {ns:?}, name {name:?}, {n} terms, via {via}"));
	cx.class(match version {
		3 => "v3",
		4 => "v4",
		_ => "v5",
	});
	if n > 1 || version != 4 {
		cx.nontrivial();
	}
	let make = || match version {
		3 => Uuid::V3(uuid::Uuid::from_bytes(ns), name.clone()),
		4 => Uuid::V4,
		_ => Uuid::V5(uuid::Uuid::from_bytes(ns), name.clone()),
	};
	let mut g = make();
	let mut with = WithGenerator::new(Plain, make());
	let mut seen = HashSet::new();
	for k in 0..n {
		let t = no_panic(|| match via {
			0 | 1 => g.next_term(),
			2 => {
				let mut r = &mut g;
				Generator::next_term(&mut r)
			}
			3 => Term::Iri(iri(&format!("urn:uuid:{}", g.next_uuid().to_hyphenated()))),
			4 => with.new_resource(),
			_ => with.new_resource(),
		})
		.map_err(|m| format!("panic on term {k}: {m}"))?;
		let Term::Iri(i) = t else { return Err(format!("term {k} is {t:?}, not an IRI")) };
		let text = i.as_str();
		ck!(Iri::new(text).is_ok(), "{text:?} is not an IRI");
		let Some(b) = parse(text) else { return Err(format!("{text:?} is not a UUID URN")) };
		ck_eq!(text, urn(b, version), "version and variant of a version {version} UUID");
		if version == 4 {
			ck!(seen.insert(text.to_string()), "random UUID {text} repeats");
		} else {
			ck_eq!(text, name_based(version, &ns, &name), "version {version} UUID of {name:?} in {ns:?}");
		}
	}
	Ok(())
}

fn main() {
	main_with(Prop {
		id: "C25",
		rule: "random versions, namespaces, names and ways of drawing terms; oracle: RFC 4122 (hash of namespace and name, version, variant, text form) for name-based UUIDs, shape and distinctness for random ones; non-trivial: several terms, or a name-based version",
		quick: 300_000,
		thorough: 3_000_000,
		assumptions: &["the md5 and sha1 crates", "a repetition among 30 random UUIDs is a defect"],
		run,
		exhaustive: None,
	})
}
