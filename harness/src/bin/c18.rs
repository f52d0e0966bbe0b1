//! C18: the RDF textual form is N-Triples/N-Quads and loses nothing.
use contextual::WithContext;
use iref::{IriBuf, IriRefBuf};
use rdf_types::dataset::{BTreeDataset, BTreeGraph, IndexedBTreeDataset, IndexedBTreeGraph};
use rdf_types::{Literal, LiteralRef, LiteralType, LocalTerm, Quad, RdfDisplay, Term, Triple};
use vharness::gen::*;
use vharness::nq::*;
use vharness::*;

fn show<T: RdfDisplay + ?Sized>(x: &T) -> String {
	format!("{}", x.rdf_display())
}

/// Printed in a column: blanks may be added around tokens, but nothing inside of them.
fn padded<T: std::fmt::Display>(x: T) -> [String; 5] {
	let trimmed = |s: String| s.trim_matches(' ').to_string();
	[trimmed(format!("{x:>30}")), trimmed(format!("{x:3}")), trimmed(format!("{x:^60}")), trimmed(format!("{x:#}")), trimmed(format!("{x:+05}"))]
}

/// Writer which refuses what would go beyond its capacity.
struct Full(String, usize, bool);
impl std::fmt::Write for Full {
	fn write_str(&mut self, s: &str) -> std::fmt::Result {
		if self.0.len() + s.len() > self.1 {
			// what comes next may fit
			self.1 = usize::MAX;
			self.2 = true;
			return Err(std::fmt::Error);
		}
		self.0.push_str(s);
		Ok(())
	}
}

/// A failure of the writer is reported, and nothing is written after it.
fn interrupted<T: std::fmt::Display>(x: T, text: &str) -> R {
	use std::fmt::Write;
	let n = text.len();
	let any = fnv(text.as_bytes()) as usize % (n + 1);
	for cut in [0, any, n.saturating_sub(1), n] {
		let mut w = Full(String::new(), cut, false);
		let r = write!(w, "{x}");
		ck!(r.is_err() == w.2, "writer failing after {cut} bytes of {text:?}: {r:?} is returned");
		ck!(w.2 == (cut < n), "writer of capacity {cut} for {text:?}: failed is {}", w.2);
		ck!(text.starts_with(&w.0), "writer failing after {cut} bytes of {text:?} got {:?}", w.0);
	}
	Ok(())
}

fn check_iri(i: &IriBuf) -> R {
	let t = show(i);
	for p in padded(i.rdf_display()) {
		ck_eq!(p, t, "padded form of the IRI {i}");
	}
	let back = Reader::new(&t).iri_text().map_err(|e| format!("{t:?} (IRI {i}): {e}"))?;
	ck_eq!(back, i.as_str(), "IRI read back from {t:?}");
	ck_eq!(show(i.as_iri()), t, "borrowed form of the IRI {i}");
	ck_eq!(show(&i.as_iri()), t, "reference to the borrowed form of the IRI {i}");
	ck_eq!(show(i.as_iri_ref()), t, "reference form of the IRI {i}");
	ck_eq!(show(&i.as_iri_ref().to_owned()), t, "owned reference form of the IRI {i}");
	let mut ctx = 5u8;
	ck_eq!(show(&i.with(&ctx)), t, "contextual form of the IRI {i}");
	ck_eq!(show(&i.as_iri().with(&ctx)), t, "contextual borrowed form of the IRI {i}");
	ck_eq!(show(&i.as_iri_ref().to_owned().with(&ctx)), t, "contextual reference form of the IRI {i}");
	ck_eq!(show(&i.with(&mut ctx)), t, "mutable contextual form of the IRI {i}");
	ck_eq!(show(&(&i).with(&ctx)), t, "contextual form of a reference to the IRI {i}");
	Ok(())
}

fn check_iri_ref(r: &IriRefBuf) -> R {
	let t = show(r);
	let mut rd = Reader::new(&t);
	let back = rd.iri_text().map_err(|e| format!("{t:?} (IRI reference {r}): {e}"))?;
	rd.end()?;
	ck_eq!(back, r.as_str(), "IRI reference read back from {t:?}");
	ck_eq!(show(r.as_iri_ref()), t, "borrowed form of the IRI reference {r}");
	ck_eq!(show(&r.with(&())), t, "contextual form of the IRI reference {r}");
	Ok(())
}

fn check_string(s: &str) -> R {
	let t = show(s);
	let mut rd = Reader::new(&t);
	let back = rd.string().map_err(|e| format!("{t:?} (string {s:?}): {e}"))?;
	rd.end().map_err(|e| format!("{t:?} (string {s:?}): {e}"))?;
	ck_eq!(back, s, "string read back from {t:?}");
	for p in padded(s.rdf_display()) {
		ck_eq!(p, t, "padded form of the string {s:?}");
	}
	ck_eq!(show(&s.to_string()), t, "owned form of the string {s:?}");
	ck_eq!(show(&s), t, "reference to the string {s:?}");
	Ok(())
}

fn check_type(ty: &LiteralType) -> R {
	let t = show(ty);
	ck!(!t.is_empty(), "empty suffix for {ty:?}");
	let mut rd = Reader::new(&t);
	let back = rd.suffix().map_err(|e| format!("{t:?} (type {ty:?}): {e}"))?;
	rd.end().map_err(|e| format!("{t:?} (type {ty:?}): {e}"))?;
	ck!(same_type(&back, ty) && back == *ty, "type {ty:?} read back from {t:?} as {back:?}");
	ck_eq!(show(&ty.as_ref()), t, "borrowed form of the type {ty:?}");
	if let LiteralType::LangString(tag) = ty {
		ck_eq!(show(tag), tag.as_str(), "owned language tag");
		ck_eq!(show(tag.as_lang_tag()), tag.as_str(), "borrowed language tag");
		ck_eq!(show(&tag.with(&())), tag.as_str(), "contextual language tag");
		ck_eq!(show(&tag.as_lang_tag().with(&())), tag.as_str(), "contextual borrowed language tag");
	}
	Ok(())
}

fn reads_as(text: &str, want: &LocalTerm) -> R {
	let back = read_term(text).map_err(|e| format!("text {text:?} of {want:?}: {e}"))?;
	ck!(back == *want && same_text(&back, want), "{want:?} read back from {text:?} as {back:?}");
	Ok(())
}

fn check_literal(l: &Literal) -> R {
	let as_term = LocalTerm::Named(Term::Literal(l.clone()));
	let t = show(l);
	reads_as(&t, &as_term)?;
	for p in padded(l.rdf_display()).into_iter().chain(padded(l)).chain(padded(l.as_ref())) {
		reads_as(&p, &as_term).map_err(|m| format!("padded: {m}"))?;
	}
	ck_eq!(show(&l.as_ref()), t, "borrowed form of {l:?}");
	ck_eq!(show(&LiteralRef::new(&l.value, l.type_.as_ref())), t, "borrowed form of {l:?}");
	ck_eq!(show(&l.as_cow().as_ref()), t, "borrowed copy-on-write form of {l:?}");
	ck_eq!(l.to_string(), t, "Display of {l:?}");
	ck_eq!(l.as_ref().to_string(), t, "Display of the borrowed form of {l:?}");
	ck_eq!(show(&Term::Literal(l.clone())), t, "term form of {l:?}");
	check_string(&l.value)?;
	check_type(&l.type_)
}

fn check_term(x: &LocalTerm) -> R {
	let t = show(x);
	reads_as(&t, x)?;
	for p in padded(x.rdf_display()) {
		reads_as(&p, x).map_err(|m| format!("padded: {m}"))?;
	}
	interrupted(x.rdf_display(), &t)?;
	interrupted(x, &x.to_string())?;
	ck_eq!(show(&x), t, "reference to {x:?}");
	match x {
		LocalTerm::Anonymous(b) => {
			ck_eq!(show(b), t, "blank node identifier of {x:?}");
			ck_eq!(show(b.as_blank_id_ref()), t, "borrowed blank node identifier of {x:?}");
			ck_eq!(t, b.as_str(), "text of {x:?}");
			ck_eq!(x.to_string(), b.as_str(), "Display of {x:?}");
			ck_eq!(b.to_string(), b.as_str(), "Display of the identifier {x:?}");
			ck_eq!(b.as_blank_id_ref().to_string(), b.as_str(), "Display of the borrowed identifier {x:?}");
		}
		LocalTerm::Named(n) => {
			ck_eq!(show(n), t, "term form of {x:?}");
			ck_eq!(n.to_string(), x.to_string(), "Display of the term {x:?}");
			match n {
				Term::Iri(i) => {
					ck_eq!(x.to_string(), i.as_str(), "Display of {x:?}");
					ck_eq!(show(i), t, "IRI of {x:?}");
					check_iri(i)?
				}
				Term::Literal(l) => {
					ck_eq!(x.to_string(), t, "Display of {x:?}");
					ck_eq!(show(l), t, "literal of {x:?}");
					check_literal(l)?
				}
			}
		}
	}
	Ok(())
}

type Q = Quad<LocalTerm>;
fn terms_of(q: &Q) -> Vec<LocalTerm> {
	let mut v = vec![q.0.clone(), q.1.clone(), q.2.clone()];
	v.extend(q.3.clone());
	v
}
fn same_stmt(a: &[LocalTerm], b: &[LocalTerm]) -> bool {
	a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y && same_text(x, y))
}
fn stmt_reads_as(text: &str, want: &[LocalTerm]) -> R {
	ck!(!text.contains(['\n', '\r']), "line break in the statement {text:?}");
	let back = read_statement(text).map_err(|e| format!("text {text:?} of {want:?}: {e}"))?;
	ck!(same_stmt(&back, want), "{want:?} read back from {text:?} as {back:?}");
	Ok(())
}

fn check_quad(q: &Q) -> R {
	let want = terms_of(q);
	let t = show(q);
	stmt_reads_as(&t, &want)?;
	for p in padded(q.rdf_display()).into_iter().chain(padded(q)) {
		stmt_reads_as(&p, &want).map_err(|m| format!("padded: {m}"))?;
	}
	interrupted(q.rdf_display(), &t)?;
	interrupted(q, &t)?;
	ck_eq!(q.to_string(), t, "Display of {q:?}");
	ck_eq!(show(&q.as_ref()), t, "borrowed form of {q:?}");
	let tr = Triple(q.0.clone(), q.1.clone(), q.2.clone());
	let tt = show(&tr);
	stmt_reads_as(&tt, &want[..3])?;
	interrupted(tr.rdf_display(), &tt)?;
	interrupted(&tr, &tt)?;
	ck_eq!(tr.to_string(), tt, "Display of {tr:?}");
	ck_eq!(show(&tr.as_ref()), tt, "borrowed form of {tr:?}");
	// default-graph quads print as triples
	ck_eq!(show(&q.clone().with_graph(None)), tt, "default-graph quad of {q:?}");
	// components of different types
	if let (Some(p), Some(b)) = (q.1.as_iri(), q.0.as_anonymous()) {
		stmt_reads_as(&show(&Triple(b, p, &q.2)), &want[..3])?;
		stmt_reads_as(&show(&Quad(b.to_owned(), p.to_owned(), q.2.clone(), q.3.clone())), &want)?;
	}
	if let (Some(l), Some(p)) = (q.2.as_literal(), q.1.as_iri()) {
		stmt_reads_as(&show(&Triple(&q.0, p, l)), &want[..3])?;
	}
	Ok(())
}

fn doc_reads_as(what: &str, text: &str, mut want: Vec<Vec<LocalTerm>>) -> R {
	let mut back = Reader::new(text).document().map_err(|e| format!("{what} {text:?}: {e}"))?;
	back.sort();
	want.sort();
	ck!(back.len() == want.len() && back.iter().zip(&want).all(|(a, b)| same_stmt(a, b)), "{what} holding {want:?} printed as {text:?}");
	Ok(())
}

fn run(cx: &mut Cx) -> R {
	match cx.below(4) {
		0 => {
			let x = any_local_term(cx);
			cx.log(|| format!("term {x:?}"));
			cx.class(match &x {
				LocalTerm::Anonymous(_) => "blank node",
				LocalTerm::Named(Term::Iri(_)) => "IRI",
				LocalTerm::Named(Term::Literal(l)) if l.is_lang_string() => "language string",
				_ => "typed literal",
			});
			cx.nontrivial();
			check_term(&x)
		}
		1 => {
			let s = any_string(cx);
			check_string(&s)?;
			let i = any_iri(cx);
			check_iri(&i)?;
			// references: suffixes of IRIs that are IRI references
			let cut = cx.us(i.as_str().len() + 1);
			if i.as_str().is_char_boundary(cut) {
				if let Ok(r) = IriRefBuf::new(i.as_str()[cut..].to_string()) {
					cx.class("IRI reference");
					cx.log(|| format!("reference {r}"));
					check_iri_ref(&r)?;
				}
			}
			Ok(())
		}
		2 => {
			let q = gen_quad(cx);
			cx.log(|| format!("{q:?}"));
			cx.nontrivial();
			cx.class(if q.3.is_some() { "quad with graph" } else { "default-graph quad" });
			check_quad(&q)
		}
		_ => {
			let n = if cx.chance(1, 60) { cx.range(12, 160) } else { cx.range(0, 12) } as usize;
			// distinct terms: a container keeps one text for equal ones (language tags of different cases)
			let mut pool: Vec<LocalTerm> = vec![];
			for _ in 0..cx.range(1, if n > 12 { 12 } else { 6 }) {
				let t = any_local_term(cx);
				if !pool.contains(&t) {
					pool.push(t);
				}
			}
			let mut d = BTreeDataset::new();
			let mut di = IndexedBTreeDataset::new();
			let mut g = BTreeGraph::new();
			let mut gi = IndexedBTreeGraph::new();
			let mut model: Vec<Q> = vec![];
			for _ in 0..n {
				let q: Q = Quad(cx.pick(&pool).clone(), cx.pick(&pool).clone(), cx.pick(&pool).clone(), cx.bool().then(|| cx.pick(&pool).clone()));
				cx.log(|| format!("insert {q:?}"));
				if !model.contains(&q) {
					model.push(q.clone());
					let t = Triple(q.0.clone(), q.1.clone(), q.2.clone());
					d.insert(q.clone());
					di.insert(q.clone());
					if !g.contains(t.as_ref()) {
						g.insert(t.clone());
						gi.insert(t);
					}
				}
				if cx.chance(1, 6) {
					let k = cx.us(model.len());
					let q = model.remove(k);
					cx.log(|| format!("remove {q:?}"));
					d.remove(q.as_ref());
					di.remove(q.as_ref());
				}
			}
			if model.len() >= 2 {
				cx.nontrivial();
			}
			cx.class("container");
			let want: Vec<Vec<LocalTerm>> = model.iter().map(terms_of).collect();
			interrupted(d.rdf_display(), &show(&d))?;
			interrupted(di.rdf_display(), &show(&di))?;
			interrupted(g.rdf_display(), &show(&g))?;
			interrupted(gi.rdf_display(), &show(&gi))?;
			doc_reads_as("dataset", &show(&d), want.clone())?;
			doc_reads_as("indexed dataset", &show(&di), want)?;
			let want: Vec<Vec<LocalTerm>> = g.iter().map(|t| vec![t.0.clone(), t.1.clone(), t.2.clone()]).collect();
			doc_reads_as("graph", &show(&g), want.clone())?;
			doc_reads_as("indexed graph", &show(&gi), want)
		}
	}
}

fn gen_quad(cx: &mut Cx) -> Q {
	let s = any_local_term(cx);
	let p = if cx.bool() { LocalTerm::Named(Term::Iri(any_iri(cx))) } else { any_local_term(cx) };
	let o = any_local_term(cx);
	let g = cx.bool().then(|| any_local_term(cx));
	Quad(s, p, o, g)
}

fn exhaustive(_: bool) -> Result<u64, String> {
	let mut n = 0;
	// every code point in a literal
	let lang_t = LiteralType::LangString(lang("en"));
	for c in (0..0x110000).filter_map(char::from_u32) {
		let s = c.to_string();
		let t = show(s.as_str());
		let mut rd = Reader::new(&t);
		let back = rd.string().map_err(|e| format!("{t:?} (code point {:#x}): {e}", c as u32))?;
		rd.end()?;
		ck_eq!(back, s, "string of the code point {:#x}", c as u32);
		n += 1;
		if (c as u32) < 0x800 {
			for s in [format!("{c}"), format!("a{c}"), format!("{c}n"), format!("{c}{c}"), format!("\\{c}"), format!("{c}\\"), format!("{c}\"")] {
				check_literal(&Literal::new(s.clone(), LiteralType::Any(rdf_types::XSD_STRING.to_owned())))?;
				check_literal(&Literal::new(s.clone(), lang_t.clone()))?;
				n += 2;
			}
			// every character an IRI may hold, anywhere in it
			for s in [format!("http://example.org/{c}"), format!("http://example.org/a?{c}"), format!("urn:{c}"), format!("http://example.org/#{c}"), format!("http://{c}/")] {
				if let Ok(i) = IriBuf::new(s) {
					check_iri(&i)?;
					check_type(&LiteralType::Any(i))?;
					n += 1;
				}
			}
		}
	}
	for c in interesting_chars() {
		for s in [format!("_:{c}"), format!("_:a{c}"), format!("_:a{c}b")] {
			if blank_label(&s) {
				check_term(&LocalTerm::Anonymous(blank(&s)))?;
				n += 1;
			}
		}
	}
	let string_t = LiteralType::Any(rdf_types::XSD_STRING.to_owned());
	for s in long_texts() {
		check_literal(&Literal::new(s, string_t.clone()))?;
		n += 1;
	}
	for s in long_blanks() {
		check_term(&LocalTerm::Anonymous(blank(&s)))?;
		n += 1;
	}
	for s in long_iris() {
		check_iri(&iri(&s))?;
		check_type(&LiteralType::Any(iri(&s)))?;
		n += 2;
	}
	for s in long_langs() {
		check_literal(&Literal::new("v", LiteralType::LangString(lang(&s))))?;
		n += 1;
	}
	Ok(n)
}

fn main() {
	main_with(Prop {
		id: "C18",
		rule: "enumeration of every code point as a literal value and of all characters below U+0800 in literals, IRIs and labels; random terms, IRI references, quads (literals and blank nodes in every position) and containers; oracle: an N-Quads reader written from the W3C grammar, comparing text and value, plus equality of the owned, borrowed and contextual texts; non-trivial: a term, a quad, or a container of at least two statements",
		quick: 600_000,
		thorough: 4_000_000,
		assumptions: &["generalised statements: literals and blank nodes may stand in any position", "the suffix of a datatype equal to xsd:string may be omitted"],
		run,
		exhaustive: Some(exhaustive),
	})
}
