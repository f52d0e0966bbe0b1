//! A reader of N-Triples / N-Quads statements, written from the W3C grammars.
//! (Generalised: any term is read in any position.)
use crate::gen::{blank_label, pn};
use iref::IriBuf;
use langtag::LangTagBuf;
use rdf_types::{BlankIdBuf, Literal, LiteralType, LocalTerm, Term};

pub struct Reader<'a> {
	rest: &'a str,
}

type P<T> = Result<T, String>;

impl<'a> Reader<'a> {
	pub fn new(s: &'a str) -> Self {
		Reader { rest: s }
	}
	fn peek(&self) -> Option<char> {
		self.rest.chars().next()
	}
	fn next(&mut self) -> Option<char> {
		let c = self.peek()?;
		self.rest = &self.rest[c.len_utf8()..];
		Some(c)
	}
	fn ws(&mut self) {
		while matches!(self.peek(), Some(' ' | '\t')) {
			self.next();
		}
	}
	fn err<T>(&self, what: &str) -> P<T> {
		Err(format!("{what} at {:?}", self.rest.chars().take(30).collect::<String>()))
	}
	fn uchar(&mut self, n: usize) -> P<char> {
		let mut v = 0u32;
		for _ in 0..n {
			let Some(d) = self.next().and_then(|c| c.to_digit(16)) else { return self.err("bad \\u escape") };
			v = v * 16 + d;
		}
		char::from_u32(v).ok_or_else(|| "bad code point".to_string())
	}
	pub fn iri_text(&mut self) -> P<String> {
		if self.next() != Some('<') {
			return self.err("expected <");
		}
		let mut s = String::new();
		loop {
			match self.next() {
				None => return self.err("unterminated IRI"),
				Some('>') => return Ok(s),
				Some('\\') => match self.next() {
					Some('u') => s.push(self.uchar(4)?),
					Some('U') => s.push(self.uchar(8)?),
					_ => return self.err("bad escape in an IRI"),
				},
				Some('\0'..=' ' | '<' | '"' | '{' | '}' | '|' | '^' | '`') => return self.err("forbidden character in an IRI"),
				Some(c) => s.push(c),
			}
		}
	}
	pub fn string(&mut self) -> P<String> {
		if self.next() != Some('"') {
			return self.err("expected a quote");
		}
		let mut s = String::new();
		loop {
			match self.next() {
				None => return self.err("unterminated string"),
				Some('"') => return Ok(s),
				Some('\n' | '\r') => return self.err("line break in a string"),
				Some('\\') => s.push(match self.next() {
					Some('t') => '\t',
					Some('b') => '\u{8}',
					Some('n') => '\n',
					Some('r') => '\r',
					Some('f') => '\u{c}',
					Some('"') => '"',
					Some('\'') => '\'',
					Some('\\') => '\\',
					Some('u') => self.uchar(4)?,
					Some('U') => self.uchar(8)?,
					_ => return self.err("bad escape in a string"),
				}),
				Some(c) => s.push(c),
			}
		}
	}
	fn iri(&mut self) -> P<IriBuf> {
		let t = self.iri_text()?;
		IriBuf::new(t).map_err(|e| format!("not an IRI: {:?}", e.0))
	}
	/// What follows the quoted string of a literal.
	pub fn suffix(&mut self) -> P<LiteralType> {
		match self.peek() {
			Some('@') => {
				self.next();
				let end = self.rest.find(|c: char| !(c.is_ascii_alphanumeric() || c == '-')).unwrap_or(self.rest.len());
				let t = &self.rest[..end];
				let mut parts = t.split('-');
				let ok = parts.next().is_some_and(|p| !p.is_empty() && p.bytes().all(|b| b.is_ascii_alphabetic())) && parts.all(|p| !p.is_empty());
				if !ok {
					return self.err("bad language tag");
				}
				self.rest = &self.rest[end..];
				LangTagBuf::new(t.to_string()).map(LiteralType::LangString).map_err(|_| format!("not a language tag: {t:?}"))
			}
			Some('^') => {
				self.next();
				if self.next() != Some('^') {
					return self.err("expected ^^");
				}
				Ok(LiteralType::Any(self.iri()?))
			}
			_ => Ok(LiteralType::Any(IriBuf::new("http://www.w3.org/2001/XMLSchema#string".into()).unwrap())),
		}
	}
	pub fn term(&mut self) -> P<LocalTerm> {
		match self.peek() {
			Some('<') => Ok(LocalTerm::Named(Term::Iri(self.iri()?))),
			Some('"') => {
				let value = self.string()?;
				let type_ = self.suffix()?;
				Ok(LocalTerm::Named(Term::Literal(Literal { value, type_ })))
			}
			Some('_') => {
				// longest match of the label grammar
				let mut end = self.rest.char_indices().skip(2).find(|(_, c)| !(pn(*c) || *c == '.')).map_or(self.rest.len(), |x| x.0);
				while self.rest[..end].ends_with('.') {
					end -= 1;
				}
				let t = &self.rest[..end];
				if !blank_label(t) {
					return self.err("bad blank node label");
				}
				self.rest = &self.rest[end..];
				BlankIdBuf::new(t.to_string()).map(LocalTerm::Anonymous).map_err(|_| format!("label {t:?} rejected"))
			}
			_ => self.err("expected a term"),
		}
	}
	pub fn at_end(&self) -> bool {
		self.rest.is_empty()
	}
	pub fn end(&self) -> P<()> {
		if self.rest.is_empty() {
			Ok(())
		} else {
			self.err("trailing text")
		}
	}
	/// Terms up to a dot, an end of line or the end. Returns whether there was a dot.
	pub fn statement(&mut self) -> P<(Vec<LocalTerm>, bool)> {
		let mut v = vec![];
		loop {
			self.ws();
			match self.peek() {
				None | Some('\n' | '\r') => return Ok((v, false)),
				Some('.') => {
					self.next();
					self.ws();
					return Ok((v, true));
				}
				_ => v.push(self.term()?),
			}
			if v.len() > 4 {
				return self.err("more than four terms");
			}
		}
	}
	/// A whole document: each statement ended by a dot and on its own line.
	pub fn document(mut self) -> P<Vec<Vec<LocalTerm>>> {
		let mut out = vec![];
		loop {
			while matches!(self.peek(), Some('\n' | '\r' | ' ' | '\t')) {
				self.next();
			}
			if self.at_end() {
				return Ok(out);
			}
			let (v, dot) = self.statement()?;
			if !dot {
				return self.err("statement without a final dot");
			}
			if !(self.at_end() || matches!(self.peek(), Some('\n' | '\r'))) {
				return self.err("statement not followed by an end of line");
			}
			out.push(v);
		}
	}
}

pub fn read_term(s: &str) -> P<LocalTerm> {
	let mut r = Reader::new(s);
	let t = r.term()?;
	r.end()?;
	Ok(t)
}

/// One statement alone, with or without the final dot.
pub fn read_statement(s: &str) -> P<Vec<LocalTerm>> {
	let mut r = Reader::new(s);
	let (v, _) = r.statement()?;
	r.end()?;
	Ok(v)
}

/// Textual identity of terms (stricter than `==`: no IRI or language tag normalisation).
pub fn same_text(a: &LocalTerm, b: &LocalTerm) -> bool {
	match (a, b) {
		(LocalTerm::Anonymous(a), LocalTerm::Anonymous(b)) => a.as_str() == b.as_str(),
		(LocalTerm::Named(Term::Iri(a)), LocalTerm::Named(Term::Iri(b))) => a.as_str() == b.as_str(),
		(LocalTerm::Named(Term::Literal(a)), LocalTerm::Named(Term::Literal(b))) => a.value == b.value && same_type(&a.type_, &b.type_),
		_ => false,
	}
}

pub fn same_type(a: &LiteralType, b: &LiteralType) -> bool {
	match (a, b) {
		// an IRI equal to xsd:string may be left out
		(LiteralType::Any(a), LiteralType::Any(b)) => a.as_str() == b.as_str() || (a == b && (b == rdf_types::XSD_STRING)),
		(LiteralType::LangString(a), LiteralType::LangString(b)) => a.as_str() == b.as_str(),
		_ => false,
	}
}
