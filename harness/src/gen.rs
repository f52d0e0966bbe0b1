//! Shared generators.
use crate::Cx;
use iref::IriBuf;
use langtag::LangTagBuf;
use rdf_types::{BlankIdBuf, Literal, LiteralType, LocalTerm, Term};
use std::fmt::Debug;
use std::hash::Hash;

/// Resource types the containers are exercised with. `make` is injective.
pub trait Res: Clone + Ord + Hash + Debug + 'static {
	fn make(i: u32) -> Self;
}

impl Res for u32 {
	fn make(i: u32) -> Self {
		i
	}
}

/// Resource whose order is unrelated to creation order.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Scrambled(u32, u32);
impl Debug for Scrambled {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "#{}", self.1)
	}
}
impl Res for Scrambled {
	fn make(i: u32) -> Self {
		Scrambled(i.wrapping_mul(0x9E3779B1).rotate_left(7), i)
	}
}

pub fn iri(s: &str) -> IriBuf {
	IriBuf::new(s.to_string()).unwrap_or_else(|_| panic!("harness: bad iri {s:?}"))
}
pub fn blank(s: &str) -> BlankIdBuf {
	BlankIdBuf::new(s.to_string()).unwrap_or_else(|_| panic!("valid blank id {s:?} rejected"))
}
pub fn lang(s: &str) -> LangTagBuf {
	LangTagBuf::new(s.to_string()).unwrap_or_else(|_| panic!("harness: bad lang {s:?}"))
}

impl Res for LocalTerm {
	fn make(i: u32) -> Self {
		let k = i / 5;
		match i % 5 {
			0 => LocalTerm::Anonymous(blank(&format!("_:b{k}"))),
			1 => LocalTerm::Named(Term::Iri(iri(&format!("http://example.org/{k}")))),
			2 => LocalTerm::Named(Term::Literal(Literal::new(format!("_:b{k}"), LiteralType::Any(rdf_types::XSD_STRING.to_owned())))),
			3 => LocalTerm::Named(Term::Literal(Literal::new(format!("{k}"), LiteralType::LangString(lang("en"))))),
			_ => LocalTerm::Named(Term::Literal(Literal::new(format!("{k}"), LiteralType::Any(iri("http://example.org/type"))))),
		}
	}
}

/// Number of distinct resources of a case.
pub fn universe(cx: &mut Cx) -> u32 {
	match cx.weighted(&[64, 64, 24, 8, 1]) {
		0 => cx.range(1, 3) as u32,
		1 => cx.range(3, 6) as u32,
		2 => cx.range(6, 15) as u32,
		3 => cx.range(15, 60) as u32,
		_ => cx.range(60, 400) as u32,
	}
}

pub fn res_i(cx: &mut Cx, n: u32) -> u32 {
	cx.below(n as u64) as u32
}

/// Triple over `0..n`, repeating resources more often than chance.
pub fn triple_i(cx: &mut Cx, n: u32) -> (u32, u32, u32) {
	let s = res_i(cx, n);
	let p = if cx.chance(1, 6) { s } else { res_i(cx, n) };
	let o = match cx.weighted(&[6, 1, 1]) {
		0 => res_i(cx, n),
		1 => s,
		_ => p,
	};
	(s, p, o)
}

pub fn quad_i(cx: &mut Cx, n: u32) -> (u32, u32, u32, Option<u32>) {
	let (s, p, o) = triple_i(cx, n);
	let g = match cx.weighted(&[4, 5, 1, 1, 1]) {
		0 => None,
		1 => Some(res_i(cx, n)),
		2 => Some(s),
		3 => Some(p),
		_ => Some(o),
	};
	(s, p, o, g)
}

/// History length.
pub fn steps(cx: &mut Cx) -> usize {
	match cx.weighted(&[10, 10, 4, 1]) {
		0 => cx.range(0, 12) as usize,
		1 => cx.range(8, 40) as usize,
		2 => cx.range(40, 150) as usize,
		_ => cx.range(150, 500) as usize,
	}
}

// ---------------------------------------------------------------- text

const PN_RANGES: &[(u32, u32)] = &[
	(0x41, 0x5A), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF), (0x200C, 0x200D),
	(0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF),
];
/// Reference grammar, written from the documented EBNF (independent of the library).
pub fn pn_base(c: char) -> bool {
	PN_RANGES.iter().any(|(a, b)| (*a..=*b).contains(&(c as u32)))
}
pub fn pn_u(c: char) -> bool {
	pn_base(c) || c == '_' || c == ':'
}
pub fn pn(c: char) -> bool {
	pn_u(c) || c == '-' || c.is_ascii_digit() || c == '\u{B7}' || ('\u{300}'..='\u{36F}').contains(&c) || ('\u{203F}'..='\u{2040}').contains(&c)
}
pub fn blank_label(s: &str) -> bool {
	let Some(rest) = s.strip_prefix("_:") else { return false };
	let cs: Vec<char> = rest.chars().collect();
	match cs.as_slice() {
		[] => false,
		[a, tail @ ..] => {
			(pn_u(*a) || a.is_ascii_digit()) && tail.iter().all(|c| pn(*c) || *c == '.') && tail.last().map_or(true, |c| pn(*c))
		}
	}
}

/// Boundary code points of the grammar ranges, and neighbours.
pub fn interesting_chars() -> Vec<char> {
	let mut v = Vec::new();
	let mut push = |x: u32| {
		if let Some(c) = char::from_u32(x) {
			v.push(c)
		}
	};
	for (a, b) in PN_RANGES {
		for x in [a.saturating_sub(1), *a, a + 1, b.saturating_sub(1), *b, b + 1] {
			push(x)
		}
	}
	for x in 0..0x180u32 {
		push(x)
	}
	for x in [0xB6, 0xB7, 0xB8, 0x2FF, 0x300, 0x36F, 0x370, 0x37E, 0x203E, 0x203F, 0x2040, 0x2041, 0x2028, 0x2029, 0xFEFF, 0x10FFFF, 0xFFFE, 0xFFFF, 0xE000, 0x1F600] {
		push(x)
	}
	v.sort();
	v.dedup();
	v
}

pub fn any_char(cx: &mut Cx) -> char {
	match cx.weighted(&[8, 6, 3, 2, 1]) {
		0 => char::from(b'a' + cx.below(26) as u8),
		1 => *cx.pick(&['"', '\\', '\n', '\r', '\t', ' ', '<', '>', '@', '^', '_', ':', '.', '0', '{', '|', '`', '\'', '\u{8}', '\u{c}', '\u{0}', '\u{7f}', '\u{85}', '\u{2028}', '#', 'u', 'n', 't', '/', '%']),
		2 => char::from(cx.below(128) as u8),
		3 => char::from_u32(cx.below(0x3000) as u32).unwrap_or('x'),
		_ => char::from_u32(cx.below(0x110000) as u32).unwrap_or('\u{10FFFF}'),
	}
}

/// Strings that look like something else.
const LOOKALIKES: &[&str] = &[
	"_:a", "_:", "http://example.org/a", "<http://example.org/a>", "\"a\"", "a@en", "@en", "\"a\"@en", "\"a\"^^<http://example.org/t>", "^^", "en", "true", "false", "1", "01", "-0", "1.0", "1e3", "NaN", "null", "[]", "{}",
	"\\n", "\\\\", "\\u0041", "\\\"", "\r\n", "a .\n", " ", "?x", "http://www.w3.org/2001/XMLSchema#string",
];

pub fn any_string(cx: &mut Cx) -> String {
	let n = match cx.weighted(&[24, 64, 16, 8, 1]) {
		0 => cx.range(0, 1),
		1 => cx.range(1, 6),
		2 => cx.range(6, 40),
		3 => return cx.pick(LOOKALIKES).to_string(),
		_ => cx.range(40, 300),
	};
	(0..n).map(|_| any_char(cx)).collect()
}

/// Any string matching the label grammar, with the leading marker.
pub fn any_blank_text(cx: &mut Cx) -> String {
	fn base(cx: &mut Cx) -> char {
		match cx.weighted(&[6, 2]) {
			0 => char::from(b'a' + cx.below(26) as u8),
			_ => {
				let (a, b) = *cx.pick(PN_RANGES);
				char::from_u32(cx.range(a as u64, b as u64) as u32).unwrap_or('z')
			}
		}
	}
	let mut s = String::from("_:");
	s.push(match cx.weighted(&[6, 2, 1, 1]) {
		0 => base(cx),
		1 => char::from(b'0' + cx.below(10) as u8),
		2 => '_',
		_ => ':',
	});
	let n = if cx.chance(1, 200) { cx.range(6, 300) as usize } else { cx.weighted(&[4, 3, 2, 1, 1, 1]) };
	for k in 0..n {
		let c = match cx.weighted(&[6, 3, 1, 1, 1, 1]) {
			0 => base(cx),
			1 => char::from(b'0' + cx.below(10) as u8),
			2 => *cx.pick(&['_', ':']),
			3 => '-',
			4 => *cx.pick(&['\u{B7}', '\u{300}', '\u{36F}', '\u{203F}', '\u{2040}']),
			_ => '.',
		};
		s.push(if k + 1 == n && c == '.' { 'q' } else { c });
	}
	s
}

pub fn any_blank(cx: &mut Cx) -> BlankIdBuf {
	let t = any_blank_text(cx);
	blank(&t)
}

pub fn any_iri(cx: &mut Cx) -> IriBuf {
	if cx.chance(1, 10) {
		return rdf_types::XSD_STRING.to_owned();
	}
	if cx.chance(1, 12) {
		return iri(cx.pick::<&str>(&[
			"urn:_:a", "x:_:a", "a:_:0", "http://example.org/_:a", "http://example.org/#_:a", "urn:en", "x:", "x:a", "x:?a", "x:#a", "a:b:c", "http://www.w3.org/2001/XMLSchema#", "http://www.w3.org/2001/XMLSchema#String",
			"http://www.w3.org/2001/XMLSchema#strin", "http://www.w3.org/2001/XMLSchema#string?", "http://www.w3.org/2001/XMLSchema", "http://www.w3.org/2001/XMLSchema#integer", "http://www.w3.org/2001/XMLSchema#boolean",
			"http://www.w3.org/1999/02/22-rdf-syntax-ns#langString", "http://www.w3.org/1999/02/22-rdf-syntax-ns#HTML", "http://www.w3.org/1999/02/22-rdf-syntax-ns#XMLLiteral", "https://www.w3.org/2001/XMLSchema#string",
			"http://example.org/a/../b", "http://example.org/./b", "HTTP://EXAMPLE.org/a",
		]));
	}
	const UNRESERVED: &[&str] = &["a", "b", "Z", "0", "-", "_", "~", "x1", "é", "日", "\u{10300}", "%20", "%C3%A9", "!", "$", "&", "'", "(", ")", "*", "+", ",", ";", "=", ":", "@"];
	let mut s = String::new();
	s.push_str(cx.pick::<&str>(&["http", "https", "urn", "a", "tag", "x-y.z+1", "mailto"]));
	s.push(':');
	let auth = cx.chance(2, 3);
	if auth {
		s.push_str("//");
		s.push_str(cx.pick::<&str>(&["example.org", "a", "localhost:80", "u@h", "[::1]", "127.0.0.1", "例え.jp"]));
	}
	let segs = cx.below(3);
	for k in 0..segs {
		if auth || k > 0 {
			s.push('/');
		}
		let n = if k == 0 && !auth { cx.range(1, 3) } else { cx.below(4) };
		for _ in 0..n {
			s.push_str(cx.pick::<&str>(UNRESERVED));
		}
	}
	if cx.chance(1, 100) {
		for _ in 0..cx.range(1, 200) {
			s.push_str(cx.pick::<&str>(UNRESERVED));
		}
	}
	if cx.chance(1, 5) {
		s.push('?');
		for _ in 0..cx.below(3) {
			s.push_str(cx.pick::<&str>(UNRESERVED));
		}
	}
	if cx.chance(1, 5) {
		s.push('#');
		for _ in 0..cx.below(3) {
			s.push_str(cx.pick::<&str>(UNRESERVED));
		}
	}
	IriBuf::new(s).unwrap_or_else(|e| iri(&format!("http://example.org/fallback{}", e.0.len())))
}

pub fn any_lang(cx: &mut Cx) -> LangTagBuf {
	if cx.chance(1, 60) {
		let n = cx.range(1, 30) as usize;
		return lang(&format!("{}{}", cx.pick::<&str>(&["x", "en-x", "fr-a"]), cx.pick::<&str>(&["-abc", "-ABC", "-a2-q12", "-abcdefgh"]).repeat(n)));
	}
	let s: &str = cx.pick::<&str>(&[
		"en", "EN", "En", "fr", "fr-FR", "fr-fr", "en-US", "zh-Hant-TW", "de-DE-1996", "x-private", "i-klingon", "sl-rozaj-biske", "es-419", "ast", "de-CH-1901", "en-a-bbb-x-a-ccc",
	]);
	lang(s)
}

/// Texts around the sizes where buffers and counters end, with characters of all widths there.
pub fn long_texts() -> Vec<String> {
	let mut v = Vec::new();
	for n in [15usize, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 65535, 65536, 131072] {
		for c in ['b', '"', '\n', 'é', '日', '\u{1F600}'] {
			for d in 0..=4.min(n) {
				let mut s = "a".repeat(n - d);
				s.push(c);
				v.push(s.clone());
				s.push_str("z\\");
				v.push(s);
			}
		}
		v.push("é".repeat(n));
		v.push("\\".repeat(n));
		v.push("\r\n".repeat(n));
	}
	v
}

/// Blank node labels (with marker), IRIs and language tags of the same sizes.
pub fn long_blanks() -> Vec<String> {
	let mut v = Vec::new();
	for n in [15usize, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4096, 65535, 65536] {
		for d in 0..4 {
			for c in ["b", "é", "日", "\u{10300}", ".b", "-", "\u{B7}"] {
				v.push(format!("_:{}{c}", "a".repeat(n - d)));
				v.push(format!("_:{}{c}z", "1".repeat(n - d)));
			}
		}
	}
	v
}
pub fn long_iris() -> Vec<String> {
	let mut v = Vec::new();
	for n in [255usize, 256, 1024, 4096, 65535, 65536] {
		v.push(format!("http://example.org/{}", "a".repeat(n)));
		v.push(format!("http://example.org/{}é?日#z", "a".repeat(n - 20)));
		v.push(format!("urn:{}", "a:".repeat(n)));
		v.push(format!("http://{}/", "a".repeat(n)));
		v.push(format!("http://example.org/{}", "a/".repeat(n)));
		v.push(format!("http://example.org/?{}#{}", "q".repeat(n), "f".repeat(n)));
	}
	v
}
pub fn long_langs() -> Vec<String> {
	let mut v = Vec::new();
	for n in [1usize, 3, 7, 31, 100, 1000] {
		v.push(format!("en{}", "-x-abc".repeat(1) + &"-abcdefgh".repeat(n)));
		v.push(format!("x{}", "-a1".repeat(n)));
		v.push(format!("de-DE-a{}", "-bcd".repeat(n)));
	}
	v
}

pub fn any_literal_type(cx: &mut Cx) -> LiteralType {
	match cx.weighted(&[3, 3, 3]) {
		0 => LiteralType::Any(rdf_types::XSD_STRING.to_owned()),
		1 => LiteralType::Any(any_iri(cx)),
		_ => LiteralType::LangString(any_lang(cx)),
	}
}

pub fn any_literal(cx: &mut Cx) -> Literal {
	let t = any_literal_type(cx);
	Literal::new(any_string(cx), t)
}

pub fn any_term(cx: &mut Cx) -> Term {
	if cx.bool() {
		Term::Literal(any_literal(cx))
	} else {
		Term::Iri(any_iri(cx))
	}
}

pub fn any_local_term(cx: &mut Cx) -> LocalTerm {
	if cx.chance(1, 3) {
		LocalTerm::Anonymous(any_blank(cx))
	} else {
		LocalTerm::Named(any_term(cx))
	}
}
