//! C19: serialised values deserialise to the same value.
use iref::IriBuf;
use langtag::LangTagBuf;
use rdf_types::dataset::{BTreeDataset, BTreeGraph, IndexedBTreeDataset, IndexedBTreeGraph};
use rdf_types::pattern::ResourceOrVar;
use rdf_types::{BlankIdBuf, CowLiteral, Literal, LiteralType, LocalTerm, Quad, Term, Triple};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;
use std::fmt::Debug;
use vharness::gen::*;
use vharness::nq::same_text;
use vharness::*;

/// Round trip through text, bytes, a reader, a pretty printer and a value tree.
fn round<T: Serialize + DeserializeOwned + PartialEq + Debug>(x: &T) -> Result<Vec<T>, String> {
	let text = serde_json::to_string(x).map_err(|e| format!("serialising {x:?}: {e}"))?;
	let tree = serde_json::to_value(x).map_err(|e| format!("serialising {x:?} to a tree: {e}"))?;
	ck_eq2(&serde_json::from_str::<Value>(&text).unwrap(), &tree, "text and tree")?;
	let pretty = serde_json::to_string_pretty(x).unwrap();
	let back: Vec<(&str, Result<T, serde_json::Error>)> = vec![
		("text", serde_json::from_str(&text)),
		("bytes", serde_json::from_slice(text.as_bytes())),
		("reader", serde_json::from_reader(text.as_bytes())),
		("pretty", serde_json::from_str(&pretty)),
		("tree", serde_json::from_value(tree)),
	];
	let mut out = vec![];
	for (how, b) in back {
		let b = b.map_err(|e| format!("deserialising {text} ({how}): {e}"))?;
		if b != *x {
			return Err(format!("{x:?} serialised as {text} read back ({how}) as {b:?}"));
		}
		out.push(b);
	}
	let mut bin = vec![];
	ciborium::into_writer(x, &mut bin).map_err(|e| format!("serialising {x:?} in CBOR: {e}"))?;
	interrupted(x, &text, &bin)?;
	// The default scratch buffer of ciborium (4096 bytes) bounds the length of a
	// string read through `deserialize_str`: give it room for the whole text.
	let mut scratch = vec![0; bin.len().max(4096)];
	let b: T = ciborium::de::from_reader_with_buffer(&bin[..], &mut scratch).map_err(|e| format!("deserialising {x:?} from CBOR: {e}"))?;
	if b != *x {
		return Err(format!("{x:?} read back from CBOR as {b:?}"));
	}
	out.push(b);
	Ok(out)
}

/// A writer that takes `n` bytes and no more: the failure must be reported, and
/// what was written before is the beginning of the document.
fn interrupted<T: Serialize>(x: &T, text: &str, whole: &[u8]) -> R {
	let n = text.len();
	let mut cuts: Vec<usize> = if n <= 16 { (0..n).collect() } else { (0..6).map(|k| k * n / 6).collect() };
	cuts.extend([n - 1, n]);
	for cut in cuts {
		let mut buf = vec![0u8; cut];
		let mut rest = &mut buf[..];
		let ok = serde_json::to_writer(&mut rest, x).is_ok();
		let left = rest.len();
		ck_eq!(ok, cut == n, "serialising {text} into a writer of {cut} bytes");
		ck!(text.as_bytes().starts_with(&buf[..cut - left]), "{text} into a writer of {cut} bytes: wrote something else");
		let mut buf = vec![0u8; cut];
		let mut rest = &mut buf[..];
		let ok = ciborium::into_writer(x, &mut rest).is_ok();
		let left = rest.len();
		if !ok {
			ck!(whole.len() > cut, "CBOR document of {} bytes refused by a writer of {cut}", whole.len());
			ck!(whole.starts_with(&buf[..cut - left]), "CBOR into a writer of {cut} bytes: wrote something else");
		} else {
			ck!(&buf[..cut - left] == whole, "CBOR document cut short at {cut} bytes, reported complete");
		}
	}
	Ok(())
}

fn ck_eq2(a: &Value, b: &Value, what: &str) -> R {
	ck_eq!(a, b, "{what}");
	Ok(())
}

fn check_term(x: &LocalTerm) -> R {
	for b in round(x)? {
		ck!(same_text(x, &b), "{x:?} read back as {b:?}");
	}
	let v = serde_json::to_value(x).unwrap();
	match x {
		LocalTerm::Anonymous(b) => {
			for r in round(b)? {
				ck_eq!(r.as_str(), b.as_str(), "blank node identifier {b}");
			}
			ck_eq!(serde_json::to_value(b).unwrap(), v, "identifier alone and as a term");
		}
		LocalTerm::Named(t) => {
			for r in round(t)? {
				ck!(same_text(x, &LocalTerm::Named(r.clone())), "{x:?} read back as {r:?}");
			}
			ck_eq!(serde_json::to_value(t).unwrap(), v, "term alone and as a local term");
			if let Term::Literal(l) = t {
				check_literal(l)?;
				ck_eq!(serde_json::to_value(l).unwrap(), v, "literal alone and as a term");
			}
		}
	}
	Ok(())
}

fn check_literal(l: &Literal) -> R {
	for r in round(l)? {
		ck_eq!(r.value, l.value, "value of {l:?}");
	}
	round(&l.type_)?;
	let v = serde_json::to_string(l).unwrap();
	ck_eq!(serde_json::to_string(&l.as_ref()).unwrap(), v, "borrowed form of {l:?}");
	ck_eq!(serde_json::to_string(&l.as_cow()).unwrap(), v, "copy-on-write form of {l:?}");
	ck_eq!(serde_json::to_string(&l.clone().into_cow()).unwrap(), v, "owned copy-on-write form of {l:?}");
	ck_eq!(serde_json::to_string(&l.as_ref().into_cow()).unwrap(), v, "copy-on-write form of the borrowed form of {l:?}");
	ck_eq!(serde_json::to_string(&CowLiteral::from(l)).unwrap(), v, "copy-on-write form of a reference to {l:?}");
	let t = serde_json::to_string(&l.type_).unwrap();
	ck_eq!(serde_json::to_string(&l.type_.as_ref()).unwrap(), t, "borrowed form of {:?}", l.type_);
	ck_eq!(serde_json::to_string(&l.type_.as_cow()).unwrap(), t, "copy-on-write form of {:?}", l.type_);
	ck_eq!(serde_json::to_string(&l.type_.clone().into_cow()).unwrap(), t, "owned copy-on-write form of {:?}", l.type_);
	Ok(())
}

type Q = Quad<LocalTerm>;

fn check_quad(q: &Q) -> R {
	for b in round(q)? {
		ck!(same_quad(q, &b), "{q:?} read back as {b:?}");
	}
	let t = Triple(q.0.clone(), q.1.clone(), q.2.clone());
	round(&t)?;
	ck_eq!(serde_json::to_string(&q.as_ref()).unwrap(), serde_json::to_string(q).unwrap(), "borrowed form of {q:?}");
	ck_eq!(serde_json::to_string(&t.as_ref()).unwrap(), serde_json::to_string(&t).unwrap(), "borrowed form of {t:?}");
	// other component types
	let h = Quad(1u8, "x".to_string(), q.2.clone(), q.3.clone());
	round(&h)?;
	round(&Triple(q.0.clone(), 7i64, false))?;
	// patterns with variables
	let p: Quad<ResourceOrVar<LocalTerm, String>> = Quad(ResourceOrVar::Resource(q.0.clone()), ResourceOrVar::Var("_:b".into()), ResourceOrVar::Resource(q.2.clone()), q.3.clone().map(|g| if g.is_anonymous() { ResourceOrVar::Var(g.to_string()) } else { ResourceOrVar::Resource(g) }));
	round(&p)?;
	Ok(())
}
fn same_quad(a: &Q, b: &Q) -> bool {
	same_text(&a.0, &b.0)
		&& same_text(&a.1, &b.1)
		&& same_text(&a.2, &b.2)
		&& match (&a.3, &b.3) {
			(Some(x), Some(y)) => same_text(x, y),
			(None, None) => true,
			_ => false,
		}
}

/// Reference reading of the encoding of a term.
fn read(v: &Value) -> Option<LocalTerm> {
	match v {
		Value::String(s) if blank_label(s) => BlankIdBuf::new(s.clone()).ok().map(LocalTerm::Anonymous),
		Value::String(s) => IriBuf::new(s.clone()).ok().map(|i| LocalTerm::Named(Term::Iri(i))),
		Value::Object(m) => {
			let value = m.get("value")?.as_str()?.to_string();
			let t = m.get("type_")?.as_object()?;
			if t.len() != 1 {
				return None;
			}
			let type_ = match t.iter().next().unwrap() {
				(k, Value::String(s)) if k == "Any" => LiteralType::Any(IriBuf::new(s.clone()).ok()?),
				(k, Value::String(s)) if k == "LangString" => LiteralType::LangString(LangTagBuf::new(s.clone()).ok()?),
				_ => return None,
			};
			Some(LocalTerm::Named(Term::Literal(Literal { value, type_ })))
		}
		_ => None,
	}
}

/// Changes one place of a tree.
fn mutate(cx: &mut Cx, v: &mut Value, depth: u32) {
	let descend = depth < 4 && cx.chance(2, 3);
	match v {
		Value::Array(a) if !a.is_empty() && descend => {
			let i = cx.us(a.len());
			mutate(cx, &mut a[i], depth + 1)
		}
		Value::Object(m) if !m.is_empty() && descend => {
			let k: Vec<String> = m.keys().cloned().collect();
			let k = cx.pick(&k).clone();
			if cx.chance(1, 4) {
				let x = m.remove(&k).unwrap();
				if cx.bool() {
					m.insert(if k == "Any" { "LangString".into() } else { "Any".into() }, x);
				}
			} else {
				mutate(cx, m.get_mut(&k).unwrap(), depth + 1)
			}
		}
		Value::Array(a) => {
			match cx.below(3) {
				0 => {
					a.pop();
				}
				1 => a.push(Value::Null),
				_ => {
					if !a.is_empty() {
						let i = cx.us(a.len());
						let x = a[i].clone();
						a.push(x)
					}
				}
			};
		}
		Value::String(s) => match cx.below(6) {
			0 => *s = any_string(cx),
			1 => *s = format!("_:{}", any_string(cx)),
			2 => s.push(any_char(cx)),
			3 => {
				s.pop();
			}
			4 => {
				if !s.is_empty() {
					s.remove(0);
				}
			}
			_ => *v = cx.pick(&[Value::Null, Value::Bool(true), Value::from(3), Value::from("")]).clone(),
		},
		_ => *v = cx.pick(&[Value::Null, Value::Bool(false), Value::from(1.5), Value::from(-1), Value::from("_:"), Value::from("_:a "), Value::Array(vec![])]).clone(),
	}
}

fn bool_of<T>(r: Result<T, serde_json::Error>) -> bool {
	r.is_ok()
}

/// Encodings with an unambiguous verdict.
fn decided(v: &Value) -> bool {
	match v {
		Value::Array(_) => false, // alternative encodings of structures as sequences
		Value::Object(m) => m.get("value").is_some() && m.get("type_").is_some_and(|t| t.as_object().is_some_and(|t| t.len() == 1)),
		_ => true,
	}
}

fn malformed(cx: &mut Cx) -> R {
	let q = gen_quad(cx);
	let mut v = serde_json::to_value(&q).unwrap();
	for _ in 0..cx.range(1, 2) {
		mutate(cx, &mut v, 0);
	}
	cx.log(|| format!("tree {v}"));
	let text = v.to_string();
	let a = serde_json::from_str::<Q>(&text);
	let b = serde_json::from_value::<Q>(v.clone());
	if let Ok(q) = &a {
		// whatever was accepted is a valid value
		for t in [&q.0, &q.1, &q.2].into_iter().chain(q.3.as_ref()) {
			if let LocalTerm::Anonymous(b) = t {
				ck!(blank_label(b.as_str()), "invalid identifier {b:?} read from {text}");
			}
		}
		let back = serde_json::to_string(q).unwrap();
		ck_eq!(serde_json::from_str::<Q>(&back).ok(), Some(q.clone()), "round trip of the value read from {text}");
	}
	let Some(items) = v.as_array() else {
		ck!(a.is_err() && b.is_err(), "quad read from {text}");
		return Ok(());
	};
	if items.len() != 4 {
		cx.class("wrong length");
		ck!(a.is_err() && b.is_err(), "quad read from {} items: {text}", items.len());
		if items.len() != 3 {
			ck!(serde_json::from_str::<Triple<LocalTerm>>(&text).is_err(), "triple read from {} items: {text}", items.len());
		}
		for (what, ok) in [
			("dataset", bool_of(serde_json::from_str::<BTreeDataset>(&format!("[{text}]")))),
			("indexed dataset", bool_of(serde_json::from_str::<IndexedBTreeDataset>(&format!("[{text}]")))),
		] {
			ck!(!ok, "{what} read from a quad of {} items: {text}", items.len());
		}
		return Ok(());
	}
	if !items[..3].iter().chain(items[3..].iter().filter(|g| !g.is_null())).all(decided) {
		cx.class("undecided shape");
		return Ok(());
	}
	let g = if items[3].is_null() { Some(None) } else { read(&items[3]).map(Some) };
	let want = match (read(&items[0]), read(&items[1]), read(&items[2]), g) {
		(Some(s), Some(p), Some(o), Some(g)) => Some(Quad(s, p, o, g)),
		_ => None,
	};
	cx.class(if want.is_some() { "still well-formed" } else { "malformed" });
	cx.nontrivial();
	for (how, r) in [("text", a), ("tree", b)] {
		match (r, &want) {
			(Ok(r), Some(w)) => ck!(same_quad(&r, w), "{text} read ({how}) as {r:?}, expected {w:?}"),
			(Err(_), None) => (),
			(Ok(r), None) => return Err(format!("malformed {text} read ({how}) as {r:?}")),
			(Err(e), Some(w)) => return Err(format!("{text} not read ({how}) as {w:?}: {e}")),
		}
	}
	// in containers too
	let list = format!("[{text}]");
	for (what, ok) in [
		("dataset", bool_of(serde_json::from_str::<BTreeDataset>(&list))),
		("indexed dataset", bool_of(serde_json::from_str::<IndexedBTreeDataset>(&list))),
	] {
		ck_eq!(ok, want.is_some(), "{what} read from {list}");
	}
	let tw = want.is_some() || (items[..3].iter().all(|x| read(x).is_some()));
	let list = Value::Array(vec![Value::Array(items[..3].to_vec())]).to_string();
	for (what, ok) in [
		("graph", bool_of(serde_json::from_str::<BTreeGraph>(&list))),
		("indexed graph", bool_of(serde_json::from_str::<IndexedBTreeGraph>(&list))),
	] {
		ck_eq!(ok, tw, "{what} read from {list}");
	}
	Ok(())
}

/// A list with one item that is no statement, and documents cut short, are refused
/// as a whole, wherever the fault is and whatever the format.
fn broken_lists<C: DeserializeOwned>(cx: &mut Cx, list: &Value, what: &str) -> R {
	let mut items = list.as_array().cloned().unwrap_or_default();
	let at = cx.us(items.len() + 1);
	let bad = match cx.below(5) {
		0 => serde_json::json!(["_:a", "_:b"]),
		1 => serde_json::json!(["_:a", "_:b c", "_:c", null]),
		2 => serde_json::json!(["_:a", "_:b", "not an iri", null]),
		3 => serde_json::json!(["_:a", "_:b", {"value": "x", "type_": {"Other": "y"}}, null]),
		_ => Value::Null,
	};
	let mut whole = vec![];
	ciborium::into_writer(&items, &mut whole).unwrap();
	let text = Value::Array(items.clone()).to_string();
	items.insert(at, bad);
	let list = Value::Array(items);
	let mut bin = vec![];
	ciborium::into_writer(&list, &mut bin).unwrap();
	let mut scratch = vec![0; bin.len().max(4096)];
	let cut = cx.us(text.len());
	let bcut = cx.us(whole.len());
	for (how, ok) in [
		("a bad item, text", serde_json::from_str::<C>(&list.to_string()).is_ok()),
		("a bad item, reader", serde_json::from_reader::<_, C>(list.to_string().as_bytes()).is_ok()),
		("a bad item, CBOR", ciborium::de::from_reader_with_buffer::<C, _>(&bin[..], &mut scratch[..]).is_ok()),
		("a text cut short", serde_json::from_slice::<C>(&text.as_bytes()[..cut]).is_ok()),
		("a CBOR document cut short", ciborium::de::from_reader_with_buffer::<C, _>(&whole[..bcut], &mut scratch[..]).is_ok()),
		("a bad item, tree", serde_json::from_value::<C>(list.clone()).is_ok()),
	] {
		ck!(!ok, "{what} read from a list with {how}: {list}, at {at}, cut at {cut} or {bcut}");
	}
	Ok(())
}

/// A resource which may refuse to be serialised.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
struct Shy(u8);
impl Serialize for Shy {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		if self.0 == 7 {
			Err(serde::ser::Error::custom("refused"))
		} else {
			s.serialize_u8(self.0)
		}
	}
}

/// A statement which cannot be serialised is not left out: the whole fails.
fn refused(cx: &mut Cx) -> R {
	let mut d = BTreeDataset::new();
	let mut di = IndexedBTreeDataset::new();
	let mut g = BTreeGraph::new();
	let mut gi = IndexedBTreeGraph::new();
	let mut pick = |n| Shy(cx.below(n) as u8);
	let mut statements = vec![];
	let n = pick(5).0;
	for _ in 0..n {
		let q = Quad(pick(9), pick(9), pick(9), Some(pick(10)).filter(|g| g.0 < 9));
		statements.push(q);
	}
	for q in &statements {
		d.insert(*q);
		di.insert(*q);
		g.insert(Triple(q.0, q.1, q.2));
		gi.insert(Triple(q.0, q.1, q.2));
		let one = serde_json::to_string(q).is_ok();
		ck_eq!(one, ![q.0, q.1, q.2].contains(&Shy(7)) && q.3 != Some(Shy(7)), "serialising {q:?}");
		ck_eq!(serde_json::to_string(&q.as_ref()).is_ok(), one, "serialising {q:?} borrowed");
	}
	let triples = statements.iter().all(|q| ![q.0, q.1, q.2].contains(&Shy(7)));
	let quads = triples && statements.iter().all(|q| q.3 != Some(Shy(7)));
	for (what, ok, want) in [
		("dataset", serde_json::to_string(&d).is_ok(), quads),
		("indexed dataset", serde_json::to_string(&di).is_ok(), quads),
		("graph", serde_json::to_string(&g).is_ok(), triples),
		("indexed graph", serde_json::to_string(&gi).is_ok(), triples),
		("dataset (tree)", serde_json::to_value(&d).is_ok(), quads),
		("indexed dataset (tree)", serde_json::to_value(&di).is_ok(), quads),
		("graph (tree)", serde_json::to_value(&g).is_ok(), triples),
		("indexed graph (tree)", serde_json::to_value(&gi).is_ok(), triples),
	] {
		ck_eq!(ok, want, "serialising the {what} of {statements:?}");
	}
	Ok(())
}

fn containers(cx: &mut Cx) -> R {
	// distinct terms: a container keeps one text for equal ones (language tags of different cases)
	let n = if cx.chance(1, 60) { cx.range(14, 160) } else { cx.range(0, 14) };
	let mut pool: Vec<LocalTerm> = vec![];
	for _ in 0..cx.range(1, if n > 14 { 12 } else { 6 }) {
		let t = any_local_term(cx);
		if !pool.contains(&t) {
			pool.push(t);
		}
	}
	let mut d = BTreeDataset::new();
	let mut di = IndexedBTreeDataset::new();
	let mut g = BTreeGraph::new();
	let mut gi = IndexedBTreeGraph::new();
	let mut model: Vec<Q> = vec![];
	for _ in 0..n {
		let q: Q = Quad(cx.pick(&pool).clone(), cx.pick(&pool).clone(), cx.pick(&pool).clone(), cx.bool().then(|| cx.pick(&pool).clone()));
		cx.log(|| format!("insert {q:?}"));
		let t = Triple(q.0.clone(), q.1.clone(), q.2.clone());
		d.insert(q.clone());
		di.insert(q.clone());
		g.insert(t.clone());
		gi.insert(t);
		if !model.contains(&q) {
			model.push(q);
		}
		if cx.chance(1, 5) && !model.is_empty() {
			let k = cx.us(model.len());
			let q = model.remove(k);
			cx.log(|| format!("remove {q:?}"));
			d.remove(q.as_ref());
			di.remove(q.as_ref());
		}
	}
	if model.len() >= 2 {
		cx.nontrivial();
	}
	cx.class("container");
	for (what, back) in [("dataset", round(&d)?.into_iter().map(|x| x.into_iter().collect::<Vec<_>>()).collect::<Vec<_>>()), ("indexed dataset", round(&di)?.into_iter().map(|x| x.into_iter().collect()).collect())] {
		for b in back {
			ck_eq!(b.len(), model.len(), "length of the {what} read back");
			ck!(model.iter().all(|q| b.iter().any(|x| x == q && same_quad(x, q))), "{what} {model:?} read back as {b:?}");
		}
	}
	let ts: Vec<Triple<LocalTerm>> = g.iter().map(|t| t.cloned()).collect();
	for (what, back) in [("graph", round(&g)?.into_iter().map(|x| x.into_iter().collect::<Vec<_>>()).collect::<Vec<_>>()), ("indexed graph", round(&gi)?.into_iter().map(|x| x.into_iter().collect()).collect())] {
		for b in back {
			ck_eq!(b, ts, "{what} read back");
		}
	}
	// the containers are interchangeable on the wire; listing a statement twice changes nothing
	let text = serde_json::to_string(&d).unwrap();
	ck_eq!(serde_json::from_str::<IndexedBTreeDataset>(&text).map_err(|e| e.to_string())?, di, "dataset read as an indexed dataset");
	let mut list = serde_json::to_value(&di).unwrap();
	if let Some(a) = list.as_array_mut() {
		ck_eq!(a.len(), model.len(), "items in the serialised dataset");
		let twice = a.clone();
		a.extend(twice);
		a.reverse();
	}
	broken_lists::<BTreeDataset>(cx, &list, "dataset")?;
	broken_lists::<IndexedBTreeDataset>(cx, &list, "indexed dataset")?;
	let tlist = serde_json::to_value(&g).unwrap();
	broken_lists::<BTreeGraph>(cx, &tlist, "graph")?;
	broken_lists::<IndexedBTreeGraph>(cx, &tlist, "indexed graph")?;
	refused(cx)?;
	ck_eq!(serde_json::from_value::<BTreeDataset>(list.clone()).map_err(|e| e.to_string())?, d, "dataset read from repeated quads");
	ck_eq!(serde_json::from_value::<IndexedBTreeDataset>(list).map_err(|e| e.to_string())?, di, "indexed dataset read from repeated quads");
	for j in ["{}", "null", "3", "\"x\"", "[1]", "[[]]", "[null]"] {
		ck!(serde_json::from_str::<BTreeDataset>(j).is_err(), "dataset read from {j}");
		ck!(serde_json::from_str::<IndexedBTreeDataset>(j).is_err(), "indexed dataset read from {j}");
		ck!(serde_json::from_str::<BTreeGraph>(j).is_err(), "graph read from {j}");
		ck!(serde_json::from_str::<IndexedBTreeGraph>(j).is_err(), "indexed graph read from {j}");
	}
	Ok(())
}

fn gen_quad(cx: &mut Cx) -> Q {
	Quad(any_local_term(cx), any_local_term(cx), any_local_term(cx), cx.bool().then(|| any_local_term(cx)))
}

fn run(cx: &mut Cx) -> R {
	match cx.below(4) {
		0 => {
			let x = any_local_term(cx);
			cx.log(|| format!("{x:?}"));
			cx.nontrivial();
			cx.class("term");
			check_term(&x)
		}
		1 => {
			let q = gen_quad(cx);
			cx.log(|| format!("{q:?}"));
			cx.nontrivial();
			cx.class("quad");
			check_quad(&q)
		}
		2 => malformed(cx),
		_ => containers(cx),
	}
}

fn exhaustive(_: bool) -> Result<u64, String> {
	let mut n = 0;
	let tests = interesting_chars();
	for c in tests {
		for s in [format!("{c}"), format!("_:{c}"), format!("_:a{c}"), format!("a:{c}"), format!("http://example.org/{c}")] {
			// as a literal value, whatever it looks like
			check_term(&LocalTerm::Named(Term::Literal(Literal::new(s.clone(), LiteralType::Any(rdf_types::XSD_STRING.to_owned())))))?;
			check_term(&LocalTerm::Named(Term::Literal(Literal::new(s.clone(), LiteralType::LangString(lang("fr-CA"))))))?;
			n += 2;
			if blank_label(&s) {
				check_term(&LocalTerm::Anonymous(blank(&s)))?;
				n += 1;
			}
			if let Ok(i) = IriBuf::new(s.clone()) {
				check_term(&LocalTerm::Named(Term::Iri(i.clone())))?;
				check_term(&LocalTerm::Named(Term::Literal(Literal::new("v", LiteralType::Any(i)))))?;
				n += 2;
			}
			// bare strings
			let v = Value::String(s.clone());
			let got = serde_json::from_value::<LocalTerm>(v.clone()).ok();
			ck!(got == read(&v), "{v} read as {got:?}");
		}
	}
	for s in long_texts() {
		check_term(&LocalTerm::Named(Term::Literal(Literal::new(s, LiteralType::Any(rdf_types::XSD_STRING.to_owned())))))?;
		n += 1;
	}
	for s in long_blanks() {
		check_term(&LocalTerm::Anonymous(blank(&s)))?;
		n += 1;
	}
	for s in long_iris() {
		check_term(&LocalTerm::Named(Term::Iri(iri(&s))))?;
		check_term(&LocalTerm::Named(Term::Literal(Literal::new("v", LiteralType::Any(iri(&s))))))?;
		n += 2;
	}
	for s in long_langs() {
		check_term(&LocalTerm::Named(Term::Literal(Literal::new("v", LiteralType::LangString(lang(&s))))))?;
		n += 1;
	}
	Ok(n)
}

fn main() {
	main_with(Prop {
		id: "C19",
		rule: "random terms, quads, containers with histories (round trip through text, bytes, reader, pretty text and value tree, comparing value and text; owned, borrowed and copy-on-write encodings compared), and mutated encodings judged by a reference decoder; enumeration over boundary characters; non-trivial: a term, a quad, a container of at least two statements, or a mutated encoding with a decided verdict",
		quick: 200_000,
		thorough: 3_000_000,
		assumptions: &["serde_json (all cases) and CBOR (ciborium) are the data formats; formats that are not self-describing cannot carry the untagged enums and are out of scope", "structures encoded as sequences, and unknown or missing fields beside the documented ones, are left undecided"],
		run,
		exhaustive: Some(exhaustive),
	})
}
