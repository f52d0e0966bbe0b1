//! C17: blank node identifiers are exactly the strings of the documented grammar.
use rdf_types::{BlankId, BlankIdBuf};
use std::borrow::Borrow;
use std::collections::HashSet;
use vharness::gen::*;
use vharness::*;

/// Every constructor on one text.
fn check(s: &str) -> R {
	let want = blank_label(s);
	match BlankId::new(s) {
		Ok(b) => {
			ck!(want, "BlankId::new accepts {s:?}");
			ck_eq!(b.as_str(), s, "text of BlankId::new({s:?})");
			accepted(b, s)?;
		}
		Err(e) => {
			ck!(!want, "BlankId::new rejects {s:?}");
			ck_eq!(e.0, s, "input returned by BlankId::new({s:?})");
		}
	}
	match BlankIdBuf::new(s.to_string()) {
		Ok(b) => {
			ck!(want, "BlankIdBuf::new accepts {s:?}");
			accepted_buf(&b, s)?;
		}
		Err(e) => {
			ck!(!want, "BlankIdBuf::new rejects {s:?}");
			ck_eq!(e.0, s, "input returned by BlankIdBuf::new({s:?})");
		}
	}
	match s.parse::<BlankIdBuf>() {
		Ok(b) => {
			ck!(want, "parse accepts {s:?}");
			accepted_buf(&b, s)?;
		}
		Err(e) => {
			ck!(!want, "parse rejects {s:?}");
			ck_eq!(e.0, s, "input returned by parse({s:?})");
		}
	}
	Ok(())
}

fn check_suffix(suffix: &str) -> R {
	let s = format!("_:{suffix}");
	let want = blank_label(&s);
	match BlankIdBuf::from_suffix(suffix) {
		Ok(b) => {
			ck!(want, "from_suffix accepts {suffix:?}");
			accepted_buf(&b, &s)?;
		}
		Err(e) => {
			ck!(!want, "from_suffix rejects {suffix:?}");
			ck!(e.0 == s || e.0 == suffix, "input returned by from_suffix({suffix:?}): {:?}", e.0);
		}
	}
	Ok(())
}

#[cfg(not(feature = "serde"))]
fn check_serde(_: &str) -> R {
	Ok(())
}
#[cfg(feature = "serde")]
fn check_serde(s: &str) -> R {
	let want = blank_label(s);
	let json = serde_json::to_string(s).unwrap();
	// from borrowed text, from a reader (owned text), from a value
	let forms: [(&str, Result<BlankIdBuf, serde_json::Error>); 3] = [
		("text", serde_json::from_str(&json)),
		("reader", serde_json::from_reader(json.as_bytes())),
		("value", serde_json::from_value(serde_json::Value::String(s.to_string()))),
	];
	use serde::de::value::{BorrowedStrDeserializer, Error as E, StrDeserializer, StringDeserializer};
	use serde::Deserialize;
	let direct: [(&str, Result<BlankIdBuf, E>); 3] = [
		("transient text", BlankIdBuf::deserialize(StrDeserializer::new(s))),
		("borrowed text", BlankIdBuf::deserialize(BorrowedStrDeserializer::new(s))),
		("owned text", BlankIdBuf::deserialize(StringDeserializer::new(s.to_string()))),
	];
	let forms = forms.into_iter().map(|(h, r)| (h, r.map_err(|e| e.to_string()))).chain(direct.into_iter().map(|(h, r)| (h, r.map_err(|e| e.to_string()))));
	for (how, r) in forms {
		match r {
			Ok(b) => {
				ck!(want, "deserialising ({how}) accepts {s:?}");
				accepted_buf(&b, s)?;
			}
			Err(_) => ck!(!want, "deserialising ({how}) rejects {s:?}"),
		}
	}
	Ok(())
}

fn accepted(b: &BlankId, s: &str) -> R {
	ck_eq!(b.as_str(), s, "as_str of {s:?}");
	ck_eq!(b.suffix(), &s[2..], "suffix of {s:?}");
	let d: &str = b;
	ck_eq!(d, s, "deref of {s:?}");
	let d: &str = b.as_ref();
	ck_eq!(d, s, "as_ref of {s:?}");
	let d: &[u8] = b.as_ref();
	ck_eq!(d, s.as_bytes(), "bytes of {s:?}");
	let d: &str = b.borrow();
	ck_eq!(d, s, "borrow of {s:?}");
	ck_eq!(b.to_string(), s, "Display of {s:?}");
	ck!(*b == *s, "comparison with its text {s:?}");
	let o: BlankIdBuf = b.to_owned();
	let d: &str = o.as_ref();
	ck_eq!(d, s, "to_owned of {s:?}");
	Ok(())
}

fn accepted_buf(b: &BlankIdBuf, s: &str) -> R {
	accepted(b.as_blank_id_ref(), s)?;
	ck_eq!(b.as_str(), s, "as_str of {s:?}");
	ck_eq!(b.suffix(), &s[2..], "suffix of {s:?}");
	let d: &str = b.as_ref();
	ck_eq!(d, s, "as_ref of {s:?}");
	let d: &[u8] = b.as_ref();
	ck_eq!(d, s.as_bytes(), "bytes of {s:?}");
	let d: &str = b.borrow();
	ck_eq!(d, s, "borrow of {s:?}");
	let d: &BlankId = b.as_ref();
	ck_eq!(d.as_str(), s, "as_ref of {s:?}");
	let d: &BlankId = b.borrow();
	ck_eq!(d.as_str(), s, "borrow of {s:?}");
	let d: &BlankId = b.into();
	ck_eq!(d.as_str(), s, "into of {s:?}");
	let d: &BlankId = Borrow::<BlankId>::borrow(&b);
	ck_eq!(d.as_str(), s, "borrow of a reference to {s:?}");
	let d: &str = Borrow::<str>::borrow(&b);
	ck_eq!(d, s, "borrow of a reference to {s:?}");
	ck_eq!(b.to_string(), s, "Display of {s:?}");
	Ok(())
}

fn check_numbers(n: u64) -> R {
	let mut all = vec![(BlankIdBuf::from_u64(n), n), (BlankIdBuf::from_u32(n as u32), n as u32 as u64), (BlankIdBuf::from_u16(n as u16), n as u16 as u64), (BlankIdBuf::from_u8(n as u8), n as u8 as u64)];
	for (b, k) in all.drain(..) {
		let s: String = b.as_str().to_string();
		ck!(blank_label(&s), "identifier {s:?} made from the number {k} is not valid");
		accepted_buf(&b, &s)?;
		// using the number as suffix
		ck_eq!(b.suffix(), k.to_string(), "suffix of the identifier made from {k}");
	}
	Ok(())
}

/// Every code point at every kind of position, all short strings over the interesting characters.
fn exhaustive(thorough: bool) -> Result<u64, String> {
	let mut n = 0;
	let mut buf = String::new();
	let mut one = |parts: &[&str], c: char| -> R {
		buf.clear();
		for p in parts {
			if p.is_empty() {
				buf.push(c)
			} else {
				buf.push_str(p)
			}
		}
		let want = blank_label(&buf);
		ck_eq!(BlankId::new(&buf).is_ok(), want, "BlankId::new accepts {buf:?} (code point {:#x})", c as u32);
		Ok(())
	};
	for c in (0..0x110000).filter_map(char::from_u32) {
		for parts in [&["_:", ""][..], &["_:a", ""], &["_:", "", "a"], &["_:a", "", "a"], &["_:0.", ""]] {
			one(parts, c)?;
			n += 1;
		}
	}
	// the marker itself
	for c in (0..0x3000).filter_map(char::from_u32) {
		for parts in [&["", "a"][..], &["_", "", "a"], &["", ":a"], &["", "_:a"], &["_", "", ":a"], &["", "", "a"], &[""]] {
			one(parts, c)?;
			n += 1;
		}
	}
	let small: Vec<char> = vec!['_', ':', 'a', '0', '.', '-', '\u{B7}', '\u{300}', ' ', 'é', '\u{37e}', '"'];
	let max = if thorough { 6 } else { 5 };
	for len in 0..=max {
		let total = small.len().pow(len as u32);
		for mut k in 0..total {
			let s: String = (0..len)
				.map(|_| {
					let c = small[k % small.len()];
					k /= small.len();
					c
				})
				.collect();
			n += 1;
			if len <= 3 {
				check(&s)?;
				check_serde(&s)?;
				check_suffix(&s)?;
			} else {
				ck_eq!(BlankId::new(&s).is_ok(), blank_label(&s), "BlankId::new accepts {s:?}");
				ck_eq!(BlankIdBuf::from_suffix(&s).is_ok(), blank_label(&format!("_:{s}")), "from_suffix accepts {s:?}");
			}
		}
	}
	for c in interesting_chars() {
		for s in [format!("_:{c}"), format!("_:a{c}"), format!("_:a{c}b"), format!("_:{c}a")] {
			check(&s)?;
			check_serde(&s)?;
			check_suffix(&s[2..])?;
			n += 3;
		}
	}
	for l in long_blanks() {
		for s in [l.clone(), format!("{l}."), format!("{l}\u{d7}"), format!("{l} "), format!("_:-{}", &l[2..]), l.replacen("aa", "a!", 1), l.replacen("11", "..", 1)] {
			check(&s)?;
			check_serde(&s)?;
			check_suffix(&s[2..])?;
			n += 3;
		}
	}
	let mut seen = HashSet::new();
	for k in 0..=u8::MAX {
		check_numbers(k as u64)?;
		ck!(seen.insert(BlankIdBuf::from_u8(k)), "from_u8({k}) repeats an identifier");
	}
	let mut seen = HashSet::new();
	for k in 0..=u16::MAX {
		check_numbers(k as u64)?;
		ck!(seen.insert(BlankIdBuf::from_u16(k)), "from_u16({k}) repeats an identifier");
		n += 1;
	}
	Ok(n)
}

fn run(cx: &mut Cx) -> R {
	let mut s = match cx.weighted(&[4, 2, 1]) {
		0 => any_blank_text(cx),
		1 => {
			let t = any_string(cx);
			format!("_:{t}")
		}
		_ => any_string(cx),
	};
	if cx.chance(1, 12) {
		// long labels
		let unit = any_blank_text(cx);
		for _ in 0..cx.range(1, 200) {
			s.push_str(&unit[2..]);
		}
		cx.class("long");
	}
	// mutate: substitute, insert, delete
	let m = cx.weighted(&[3, 3, 1]);
	for _ in 0..m {
		let mut cs: Vec<char> = s.chars().collect();
		let c = if cx.bool() {
			let v = interesting_chars();
			*cx.pick(&v)
		} else {
			*cx.pick(&['.', '_', ':', '-', ' ', '\u{B7}', '0'])
		};
		let i = cx.us(cs.len() + 1);
		match cx.below(3) {
			0 if i < cs.len() => cs[i] = c,
			1 if i < cs.len() => {
				cs.remove(i);
			}
			_ => cs.insert(i, c),
		}
		s = cs.into_iter().collect();
	}
	cx.log(|| format!("{s:?}"));
	cx.class(if blank_label(&s) { "in the grammar" } else { "not in the grammar" });
	if s.len() > 3 {
		cx.nontrivial();
	}
	check(&s)?;
	check_serde(&s)?;
	check_suffix(&s)?;
	if let Some(x) = s.strip_prefix("_:") {
		check_suffix(x)?;
	}
	let n = match cx.weighted(&[2, 2, 1]) {
		0 => cx.any(),
		1 => cx.any() >> cx.below(64),
		_ => *cx.pick(&[0u64, 1, 9, 10, 255, 256, 65535, 65536, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX]),
	};
	check_numbers(n)?;
	// a deserialised non-string is no identifier
	#[cfg(feature = "serde")]
	for j in ["1", "null", "[]", "{}", "[\"_:a\"]", "true", "{\"_:a\":1}"] {
		ck!(serde_json::from_str::<BlankIdBuf>(j).is_err(), "deserialising accepts {j}");
	}
	Ok(())
}

fn main() {
	main_with(Prop {
		id: "C17",
		rule: "enumeration of every Unicode code point in every kind of label position, of every string up to length 5 (thorough 6) over 12 characters (with and without the marker), of every u8 and u16; plus random labels, mutated, long and arbitrary texts through all constructors; oracle: the documented EBNF, written independently; non-trivial: text longer than 3 bytes",
		quick: 800_000,
		thorough: 5_000_000,
		assumptions: &["from_suffix may return either the suffix or the whole identifier as the offending input"],
		run,
		exhaustive: Some(exhaustive),
	})
}
