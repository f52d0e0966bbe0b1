//! C20: owned, borrowed and copy-on-write terms are interchangeable.
use equivalent::Equivalent;
use iref::{Iri, IriBuf};
use langtag::LangTag;
use rdf_types::*;
use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use vharness::gen::*;
use vharness::nq::same_text;
use vharness::*;

fn h<T: Hash + ?Sized>(x: &T) -> (u64, u64) {
	hashes(x)
}

fn same_ty(a: &LiteralType, b: &LiteralType) -> bool {
	match (a, b) {
		(LiteralType::Any(a), LiteralType::Any(b)) => a.as_str() == b.as_str(),
		(LiteralType::LangString(a), LiteralType::LangString(b)) => a.as_str() == b.as_str(),
		_ => false,
	}
}
fn same_lit(a: &Literal, b: &Literal) -> bool {
	a.value == b.value && same_ty(&a.type_, &b.type_)
}
fn same_term(a: &Term, b: &Term) -> bool {
	match (a, b) {
		(Term::Iri(a), Term::Iri(b)) => a.as_str() == b.as_str(),
		(Term::Literal(a), Term::Literal(b)) => same_lit(a, b),
		_ => false,
	}
}
macro_rules! ck_same {
	($f:ident, $a:expr, $b:expr, $($m:tt)*) => {{
		let (a, b) = (&$a, &$b);
		if !($f(a, b) && a == b) {
			return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b));
		}
	}};
}

// ------------------------------------------------------------------ one value

fn check_type(t: &LiteralType) -> R {
	ck_same!(same_ty, t.as_ref().into_owned(), *t, "owned form of the borrowed form");
	ck_same!(same_ty, t.as_cow().into_owned(), *t, "owned form of the copy-on-write form");
	ck_same!(same_ty, t.clone().into_cow().into_owned(), *t, "owned form of the owned copy-on-write form");
	ck_same!(same_ty, LiteralType::from(t.as_cow()), *t, "conversion from the copy-on-write form");
	ck_same!(same_ty, CowLiteralType::from(t.as_ref()).into_owned(), *t, "copy-on-write form of the borrowed form");
	ck_same!(same_ty, t.as_cow().as_ref().into_owned(), *t, "borrowed form of the copy-on-write form");
	ck_same!(same_ty, t.clone().into_cow().as_ref().into_owned(), *t, "borrowed form of the owned copy-on-write form");
	ck_same!(same_ty, t.as_cow().clone().into_owned(), *t, "clone of the copy-on-write form");
	match t {
		LiteralType::Any(i) => {
			ck_same!(same_ty, CowLiteralType::from(i.as_iri()).into_owned(), *t, "from a borrowed IRI");
			ck_same!(same_ty, CowLiteralType::from(i.clone()).into_owned(), *t, "from an owned IRI");
			ck_same!(same_ty, CowLiteralType::from(Cow::Borrowed(i.as_iri())).into_owned(), *t, "from a copy-on-write IRI");
			ck_same!(same_ty, CowLiteralType::from(Cow::<Iri>::Owned(i.clone())).into_owned(), *t, "from an owned copy-on-write IRI");
		}
		LiteralType::LangString(l) => {
			ck_same!(same_ty, CowLiteralType::from(l.as_lang_tag()).into_owned(), *t, "from a borrowed tag");
			ck_same!(same_ty, CowLiteralType::from(l.clone()).into_owned(), *t, "from an owned tag");
			ck_same!(same_ty, CowLiteralType::from(Cow::Borrowed(l.as_lang_tag())).into_owned(), *t, "from a copy-on-write tag");
			ck_same!(same_ty, CowLiteralType::from(Cow::<LangTag>::Owned(l.clone())).into_owned(), *t, "from an owned copy-on-write tag");
		}
	}
	// classification
	let (is_lang, tag, any): (bool, Option<&str>, Option<&IriBuf>) = match t {
		LiteralType::Any(i) => (false, None, Some(i)),
		LiteralType::LangString(l) => (true, Some(l.as_str()), None),
	};
	let r = t.as_ref();
	ck_eq!(t.is_lang_string(), is_lang, "is_lang_string of {t:?}");
	ck_eq!(r.is_lang_string(), is_lang, "borrowed is_lang_string of {t:?}");
	ck_eq!(t.lang_tag().map(|l| l.as_str()), tag, "lang_tag of {t:?}");
	ck_eq!(r.lang_tag().map(|l| l.as_str()), tag, "borrowed lang_tag of {t:?}");
	let xsd = any.is_some_and(|i| i == XSD_STRING);
	ck_eq!(t.is_xsd_string(), xsd, "is_xsd_string of {t:?}");
	ck_eq!(r.is_xsd_string(), xsd, "borrowed is_xsd_string of {t:?}");
	if let Some(i) = any {
		ck!(t.is_iri(i) && r.is_iri(i), "is_iri of {t:?} on its own IRI");
	}
	let other = iri("http://example.org/never-generated");
	ck!(!t.is_iri(&other) && !r.is_iri(&other), "is_iri of {t:?} on another IRI");
	Ok(())
}

fn check_literal(l: &Literal) -> R {
	let r = l.as_ref();
	ck_same!(same_lit, r.to_owned(), *l, "owned form of the borrowed form");
	ck_same!(same_lit, r.cloned(), *l, "clone of the borrowed form");
	ck_same!(same_lit, r.into_cow().into_owned(), *l, "copy-on-write form of the borrowed form");
	ck_same!(same_lit, l.as_cow().into_owned(), *l, "owned form of the copy-on-write form");
	ck_same!(same_lit, l.as_cow().clone().into_owned(), *l, "clone of the copy-on-write form");
	ck_same!(same_lit, l.as_cow().as_ref().to_owned(), *l, "borrowed form of the copy-on-write form");
	ck_same!(same_lit, l.clone().into_cow().into_owned(), *l, "owned form of the owned copy-on-write form");
	ck_same!(same_lit, l.clone().into_cow().as_ref().to_owned(), *l, "borrowed form of the owned copy-on-write form");
	ck_same!(same_lit, CowLiteral::from(l).into_owned(), *l, "copy-on-write form of a reference");
	ck_same!(same_lit, CowLiteral::new(l.value.as_str(), l.type_.as_ref()).into_owned(), *l, "new copy-on-write literal");
	ck_same!(same_lit, CowLiteral::new(l.value.clone(), l.type_.as_cow()).into_owned(), *l, "new owned copy-on-write literal");
	ck_same!(same_lit, LiteralRef::new(&l.value, l.type_.as_ref()).to_owned(), *l, "new borrowed literal");
	ck_same!(same_lit, Literal::new(l.value.clone(), l.type_.clone()), *l, "new literal");
	ck_same!(same_lit, Literal::new(l.value.as_str(), l.type_.as_cow()), *l, "new literal from borrowed parts");
	// accessors
	let v = l.value.as_str();
	ck_eq!(l.as_value(), v, "as_value");
	ck_eq!(r.as_value(), v, "borrowed as_value");
	ck_eq!(l.as_str(), v, "as_str");
	ck_eq!(r.as_str(), v, "borrowed as_str");
	ck_eq!(l.as_bytes(), v.as_bytes(), "as_bytes");
	ck_eq!(r.as_bytes(), v.as_bytes(), "borrowed as_bytes");
	ck_eq!(Borrow::<str>::borrow(l), v, "borrow");
	ck_eq!(Borrow::<str>::borrow(&r), v, "borrowed borrow");
	ck_eq!(AsRef::<str>::as_ref(l), v, "AsRef");
	ck_eq!(AsRef::<str>::as_ref(&r), v, "borrowed AsRef");
	ck_eq!(l.clone().into_value(), v, "into_value");
	ck_eq!(r.into_value(), v, "borrowed into_value");
	ck_same!(same_ty, *l.as_type(), l.type_, "as_type");
	ck_same!(same_ty, r.as_type().into_owned(), l.type_, "borrowed as_type");
	ck_same!(same_ty, l.clone().into_type(), l.type_, "into_type");
	ck_same!(same_ty, r.into_type().into_owned(), l.type_, "borrowed into_type");
	let (pv, pt) = l.clone().into_parts();
	ck_eq!(pv, v, "value of into_parts");
	ck_same!(same_ty, pt, l.type_, "type of into_parts");
	let (pv, pt) = r.into_parts();
	ck_eq!(pv, v, "value of borrowed into_parts");
	ck_same!(same_ty, pt.into_owned(), l.type_, "type of borrowed into_parts");
	ck_eq!(l.is_lang_string(), l.type_.is_lang_string(), "is_lang_string");
	ck_eq!(r.is_lang_string(), l.type_.is_lang_string(), "borrowed is_lang_string");
	ck_eq!(l.lang_tag().map(|x| x.as_str()), l.type_.lang_tag().map(|x| x.as_str()), "lang_tag");
	ck_eq!(r.lang_tag().map(|x| x.as_str()), l.type_.lang_tag().map(|x| x.as_str()), "borrowed lang_tag");
	// mutable access changes what it names
	let mut m = l.clone();
	m.as_value_mut().push('!');
	ck_eq!(m.value, format!("{v}!"), "as_value_mut");
	ck_same!(same_ty, m.type_, l.type_, "type after as_value_mut");
	let mut m = l.clone();
	let nt = LiteralType::LangString(lang("zu"));
	*m.as_type_mut() = nt.clone();
	ck_same!(same_lit, m, Literal { value: l.value.clone(), type_: nt.clone() }, "as_type_mut");
	let mut m = r;
	*m.as_type_mut() = nt.as_ref();
	ck_same!(same_lit, m.to_owned(), Literal { value: l.value.clone(), type_: nt.clone() }, "borrowed as_type_mut");
	check_type(&l.type_)
}

fn cow_local(c: CowLocalTerm) -> LocalTerm {
	match c {
		CowLocalTerm::Anonymous(b) => LocalTerm::Anonymous(b.into_owned()),
		CowLocalTerm::Named(t) => LocalTerm::Named(t.into_owned()),
	}
}

fn check_term(t: &Term) -> R {
	ck_same!(same_term, t.as_ref().to_owned(), *t, "owned form of the borrowed form");
	ck_same!(same_term, t.as_cow().into_owned(), *t, "owned form of the copy-on-write form");
	ck_same!(same_term, t.clone().into_cow().into_owned(), *t, "owned form of the owned copy-on-write form");
	ck_same!(same_term, CowTerm::from(t.clone()).into_owned(), *t, "conversion to the copy-on-write form");
	let (i, l): (Option<&IriBuf>, Option<&Literal>) = match t {
		Term::Iri(i) => (Some(i), None),
		Term::Literal(l) => (None, Some(l)),
	};
	ck_eq!(t.is_iri(), i.is_some(), "is_iri of {t:?}");
	ck_eq!(t.is_literal(), l.is_some(), "is_literal of {t:?}");
	ck_eq!(t.as_iri().map(|i| i.as_str()), i.map(|i| i.as_str()), "as_iri of {t:?}");
	ck_eq!(t.clone().into_iri().map(|i| i.as_str().to_string()), i.map(|i| i.as_str().to_string()), "into_iri of {t:?}");
	match (t.clone().try_into_iri(), i) {
		(Ok(a), Some(b)) => ck_eq!(a.as_str(), b.as_str(), "try_into_iri"),
		(Err(back), None) => ck_same!(same_term, back, *t, "term returned by try_into_iri"),
		(r, _) => return Err(format!("try_into_iri of {t:?}: {r:?}")),
	}
	ck_eq!(t.as_literal().is_some(), l.is_some(), "as_literal of {t:?}");
	if let (Some(a), Some(b)) = (t.as_literal(), l) {
		ck_same!(same_lit, a.to_owned(), *b, "as_literal");
	}
	ck_eq!(t.clone().into_literal().is_some(), l.is_some(), "into_literal of {t:?}");
	if let (Some(a), Some(b)) = (t.clone().into_literal(), l) {
		ck_same!(same_lit, a, *b, "into_literal");
	}
	match (t.clone().try_into_literal(), l) {
		(Ok(a), Some(b)) => ck_same!(same_lit, a, *b, "try_into_literal"),
		(Err(a), None) => ck_eq!(a.as_str(), i.unwrap().as_str(), "IRI returned by try_into_literal"),
		(r, _) => return Err(format!("try_into_literal of {t:?}: {r:?}")),
	}
	if let Some(l) = l {
		check_literal(l)?;
	}
	Ok(())
}

fn check_one(x: &LocalTerm) -> R {
	ck_same!(same_text, x.as_ref().to_owned(), *x, "owned form of the borrowed form");
	ck_same!(same_text, cow_local(x.as_cow()), *x, "owned form of the copy-on-write form");
	ck_same!(same_text, cow_local(x.clone().into_cow()), *x, "owned form of the owned copy-on-write form");
	ck_same!(same_text, cow_local(CowLocalTerm::from(x.clone())), *x, "conversion to the copy-on-write form");
	let (b, n): (Option<&BlankIdBuf>, Option<&Term>) = match x {
		LocalTerm::Anonymous(b) => (Some(b), None),
		LocalTerm::Named(t) => (None, Some(t)),
	};
	ck_eq!(x.is_anonymous(), b.is_some(), "is_anonymous of {x:?}");
	ck_eq!(x.is_blank_id(), b.is_some(), "is_blank_id of {x:?}");
	ck_eq!(x.as_anonymous().map(|b| b.as_str()), b.map(|b| b.as_str()), "as_anonymous of {x:?}");
	ck_eq!(x.as_blank_id().map(|b| b.as_str()), b.map(|b| b.as_str()), "as_blank_id of {x:?}");
	let i = match n {
		Some(Term::Iri(i)) => Some(i),
		_ => None,
	};
	let l = match n {
		Some(Term::Literal(l)) => Some(l),
		_ => None,
	};
	ck_eq!(x.as_iri().map(|i| i.as_str()), i.map(|i| i.as_str()), "as_iri of {x:?}");
	ck_eq!(x.as_literal().is_some(), l.is_some(), "as_literal of {x:?}");
	if let (Some(a), Some(l)) = (x.as_literal(), l) {
		ck_same!(same_lit, a.to_owned(), *l, "as_literal");
	}
	if let Some(b) = b {
		ck_same!(same_text, LocalTerm::from(b.clone()), *x, "from a blank node identifier");
		let id = Id::BlankId(b.clone());
		check_id(&id)?;
	}
	if let Some(t) = n {
		ck_same!(same_text, LocalTerm::from(t.clone()), *x, "from a term");
		check_term(t)?;
	}
	if let Some(i) = i {
		ck_same!(same_text, LocalTerm::from(i.clone()), *x, "from an IRI");
		ck_same!(same_text, LocalTerm::iri(i.clone()), *x, "LocalTerm::iri");
		let id = Id::Iri(i.clone());
		check_id(&id)?;
	}
	if let Some(l) = l {
		ck_same!(same_text, LocalTerm::from(l.clone()), *x, "from a literal");
		ck_same!(same_text, LocalTerm::literal(l.clone()), *x, "LocalTerm::literal");
	}
	Ok(())
}

fn id_text(i: &Id) -> (u8, &str) {
	match i {
		Id::BlankId(b) => (0, b.as_str()),
		Id::Iri(i) => (1, i.as_str()),
	}
}
fn check_id(id: &Id) -> R {
	let want = id_text(id);
	ck_eq!(id.as_iri().map(|i| i.as_str()), (want.0 == 1).then_some(want.1), "as_iri of {want:?}");
	let r = id.as_ref();
	match r {
		IdRef::BlankId(b) => ck_eq!((0, b.as_str()), want, "borrowed identifier"),
		IdRef::Iri(i) => ck_eq!((1, i.as_str()), want, "borrowed identifier"),
	}
	let o = r.into_owned();
	ck_eq!(id_text(&o), want, "owned form of the borrowed identifier");
	let o = r.to_owned();
	ck_eq!(id_text(&o), want, "owned form of the borrowed identifier");
	match id.as_cow() {
		CowId::BlankId(b) => ck_eq!((0, b.as_str()), want, "copy-on-write identifier"),
		CowId::Iri(i) => ck_eq!((1, i.as_str()), want, "copy-on-write identifier"),
	}
	Ok(())
}

// ------------------------------------------------------------------ two values

/// Comparison of two owned values, and what their forms must agree with.
fn cmp2<T: Ord + Hash + Debug>(a: &T, b: &T) -> Result<Ordering, String> {
	let c = a.cmp(b);
	if a.partial_cmp(b) != Some(c) {
		return Err(format!("partial_cmp({a:?}, {b:?}) = {:?}, cmp = {c:?}", a.partial_cmp(b)));
	}
	if b.cmp(a) != c.reverse() {
		return Err(format!("cmp({a:?}, {b:?}) = {c:?} but cmp of the reverse = {:?}", b.cmp(a)));
	}
	if (a == b) != (c == Ordering::Equal) || (b == a) != (a == b) || (a != b) == (a == b) {
		return Err(format!("equality of {a:?} and {b:?} is {}, ordering {c:?}", a == b));
	}
	if a == b && h(a) != h(b) {
		return Err(format!("{a:?} and {b:?} are equal with different hashes"));
	}
	if a.cmp(a) != Ordering::Equal {
		return Err(format!("{a:?} not equal to itself"));
	}
	Ok(c)
}

macro_rules! agree {
	($c:expr, $a:expr, $b:expr, $what:literal) => {{
		let (x, y) = (&$a, &$b);
		ck_eq!(x.partial_cmp(y), Some($c), "{} comparison of {:?} and {:?}", $what, x, y);
		ck_eq!(x == y, $c == Ordering::Equal, "{} equality of {:?} and {:?}", $what, x, y);
	}};
}
macro_rules! agree_hash {
	($a:expr, $b:expr, $what:literal) => {{
		let (x, y) = (&$a, &$b);
		ck_eq!(h(x), h(y), "hash of {:?} {}", x, $what);
	}};
}

fn pair_types(a: &LiteralType, b: &LiteralType) -> R {
	let c = cmp2(a, b)?;
	agree!(c, a.as_ref(), b.as_ref(), "borrowed");
	agree!(c, a.as_ref(), *b, "borrowed/owned");
	agree!(c, *a, b.as_ref(), "owned/borrowed");
	agree!(c, a.as_cow(), b.as_cow(), "copy-on-write");
	agree!(c, a.as_cow(), b.clone().into_cow(), "copy-on-write");
	ck_eq!(a.as_ref().cmp(&b.as_ref()), c, "borrowed order");
	ck_eq!(a.as_cow().cmp(&b.as_cow()), c, "copy-on-write order");
	agree_hash!(a.as_ref(), *a, "borrowed and owned");
	agree_hash!(a.as_cow(), *a, "copy-on-write and owned");
	Ok(())
}

fn pair_literals(a: &Literal, b: &Literal) -> R {
	let c = cmp2(a, b)?;
	agree!(c, a.as_ref(), b.as_ref(), "borrowed");
	agree!(c, a.as_ref(), *b, "borrowed/owned");
	agree!(c, *a, b.as_ref(), "owned/borrowed");
	agree!(c, a.as_cow(), b.as_cow(), "copy-on-write");
	agree!(c, a.clone().into_cow(), b.as_cow(), "copy-on-write");
	ck_eq!(a.as_ref().cmp(&b.as_ref()), c, "borrowed order");
	ck_eq!(a.as_cow().cmp(&b.as_cow()), c, "copy-on-write order");
	agree_hash!(a.as_ref(), *a, "borrowed and owned");
	agree_hash!(a.as_cow(), *a, "copy-on-write and owned");
	ck_eq!(Equivalent::<Literal>::equivalent(&a.as_ref(), b), a == b, "equivalence of {a:?} and {b:?}");
	ck_eq!(a == b, a.value == b.value && a.type_ == b.type_, "equality of {a:?} and {b:?} by components");
	pair_types(&a.type_, &b.type_)
}

fn pair_blank(a: &BlankIdBuf, b: &BlankIdBuf) -> R {
	let c = cmp2(a, b)?;
	ck_eq!(c, a.as_str().cmp(b.as_str()), "order of {a} and {b} as texts");
	let (ar, br): (&BlankId, &BlankId) = (a, b);
	ck_eq!(ar.cmp(br), c, "borrowed order");
	ck_eq!(ar == br, a == b, "borrowed equality");
	ck_eq!(*a == *br, a == b, "owned/borrowed equality");
	ck_eq!(*a == br, a == b, "owned/reference equality");
	ck_eq!(*ar == *b, a == b, "borrowed/owned equality");
	ck_eq!(ar == *b, a == b, "reference/owned equality");
	ck_eq!(*ar == *b.as_str(), a == b, "equality with text");
	ck_eq!(h(ar), h(a), "hash of borrowed and owned {a}");
	ck_eq!(h(a.as_str()), h(a), "hash of {a} and its text");
	let m: HashMap<BlankIdBuf, u8> = [(a.clone(), 1)].into();
	ck_eq!(m.contains_key(br), a == b, "lookup by borrowed identifier");
	ck_eq!(m.contains_key(b.as_str()), a == b, "lookup by text");
	let m: BTreeMap<BlankIdBuf, u8> = [(a.clone(), 1)].into();
	ck_eq!(m.contains_key(br), a == b, "ordered lookup by borrowed identifier");
	ck_eq!(m.contains_key(b.as_str()), a == b, "ordered lookup by text");
	Ok(())
}

fn pair(a: &LocalTerm, b: &LocalTerm) -> R {
	let c = cmp2(a, b)?;
	ck_eq!(a.as_ref().cmp(&b.as_ref()), c, "borrowed order of {a:?} and {b:?}");
	agree!(c, a.as_ref(), b.as_ref(), "borrowed");
	agree!(c, a.as_ref(), *b, "borrowed/owned");
	// equality is by kind and component
	let by_parts = match (a, b) {
		(LocalTerm::Anonymous(x), LocalTerm::Anonymous(y)) => {
			pair_blank(x, y)?;
			agree!(c, IdRef::BlankId(x), IdRef::BlankId(y), "identifier");
			x.as_str() == y.as_str()
		}
		(LocalTerm::Named(x), LocalTerm::Named(y)) => {
			let ct = cmp2(x, y)?;
			ck_eq!(ct, c, "order of the terms {x:?} and {y:?}");
			agree!(ct, x.as_ref(), y.as_ref(), "borrowed term");
			agree!(ct, x.as_ref(), *y, "borrowed/owned term");
			ck_eq!(x.as_ref().cmp(&y.as_ref()), ct, "borrowed order of {x:?} and {y:?}");
			match (x, y) {
				(Term::Iri(i), Term::Iri(j)) => {
					agree!(ct, IdRef::Iri(i), IdRef::Iri(j), "identifier");
					i == j
				}
				(Term::Literal(k), Term::Literal(l)) => {
					pair_literals(k, l)?;
					k.value == l.value && k.type_ == l.type_
				}
				_ => false,
			}
		}
		_ => false,
	};
	ck_eq!(a == b, by_parts, "equality of {a:?} and {b:?} by components");
	// identifiers: blank nodes first
	let ids = |t: &LocalTerm| match t {
		LocalTerm::Anonymous(b) => Some(Id::BlankId(b.clone())),
		LocalTerm::Named(Term::Iri(i)) => Some(Id::Iri(i.clone())),
		_ => None,
	};
	if let (Some(x), Some(y)) = (ids(a), ids(b)) {
		ck_eq!(x.as_ref().cmp(&y.as_ref()) == Ordering::Equal, a == b, "identifier order of {a:?} and {b:?}");
		ck_eq!(x.as_ref() == y.as_ref(), a == b, "identifier equality of {a:?} and {b:?}");
		ck_eq!(x.as_ref().cmp(&y.as_ref()), y.as_ref().cmp(&x.as_ref()).reverse(), "identifier order of {a:?} and {b:?}");
	}
	Ok(())
}

/// A value close to `x`.
fn near(cx: &mut Cx, x: &LocalTerm) -> LocalTerm {
	match x {
		LocalTerm::Anonymous(b) => match cx.below(3) {
			0 => LocalTerm::Named(Term::Literal(Literal::new(b.to_string(), LiteralType::Any(XSD_STRING.to_owned())))),
			1 => {
				let t = format!("{b}{}", cx.pick(&["0", "a", "Z", "é"]));
				LocalTerm::Anonymous(blank(&t))
			}
			_ => LocalTerm::Anonymous(any_blank(cx)),
		},
		LocalTerm::Named(Term::Iri(i)) => match cx.below(5) {
			0 => LocalTerm::Named(Term::Literal(Literal::new(i.to_string(), LiteralType::Any(i.clone())))),
			1 => {
				// other spelling: case of the scheme, of the percent encodings
				let s = i.as_str().replace("http:", "HTTP:").replace("%C3%A9", "%c3%a9");
				LocalTerm::Named(Term::Iri(IriBuf::new(s).unwrap_or_else(|_| i.clone())))
			}
			2 => {
				let s = format!("{i}/");
				LocalTerm::Named(Term::Iri(IriBuf::new(s).unwrap_or_else(|_| i.clone())))
			}
			3 => {
				let s = i.as_str().replace('a', "%61");
				LocalTerm::Named(Term::Iri(IriBuf::new(s).unwrap_or_else(|_| i.clone())))
			}
			_ => LocalTerm::Named(Term::Iri(any_iri(cx))),
		},
		LocalTerm::Named(Term::Literal(l)) => {
			let mut l = l.clone();
			match cx.below(5) {
				0 => l.value.push(any_char(cx)),
				1 => l.type_ = any_literal_type(cx),
				2 => {
					if let LiteralType::LangString(t) = &l.type_ {
						l.type_ = LiteralType::LangString(lang(&if cx.bool() { t.as_str().to_uppercase() } else { t.as_str().to_lowercase() }));
					}
				}
				3 => {
					let t = l.type_;
					let v = l.value;
					l = Literal::new(if cx.bool() { v.to_uppercase() } else { v.to_lowercase() }, t);
				}
				_ => l.value = any_string(cx),
			}
			LocalTerm::Named(Term::Literal(l))
		}
	}
}

fn run(cx: &mut Cx) -> R {
	let a = any_local_term(cx);
	let b = match cx.weighted(&[2, 4, 2]) {
		0 => a.clone(),
		1 => near(cx, &a),
		_ => any_local_term(cx),
	};
	let c = if cx.bool() { near(cx, &b) } else { any_local_term(cx) };
	cx.log(|| format!("{a:?} | {b:?} | {c:?}"));
	cx.class(if a == b { "equal" } else { "different" });
	if !same_text(&a, &b) {
		cx.nontrivial();
		if a == b {
			cx.class("equal with different texts");
		}
	}
	for x in [&a, &b] {
		check_one(x).map_err(|e| format!("{x:?}: {e}"))?;
	}
	for (x, y) in [(&a, &b), (&b, &c), (&a, &c), (&b, &a)] {
		pair(x, y)?;
	}
	// transitivity
	if a <= b && b <= c {
		ck!(a <= c, "{a:?} <= {b:?} <= {c:?} but not {a:?} <= {c:?}");
	}
	if a >= b && b >= c {
		ck!(a >= c, "{a:?} >= {b:?} >= {c:?} but not {a:?} >= {c:?}");
	}
	if a == b {
		ck_eq!(a.cmp(&c), b.cmp(&c), "order of the equal {a:?} and {b:?} against {c:?}");
	}
	Ok(())
}

/// Long terms, against themselves and neighbours differing at an end.
fn exhaustive(_: bool) -> Result<u64, String> {
	let mut n = 0;
	let mut both = |x: LocalTerm, y: LocalTerm| -> R {
		n += 1;
		check_one(&x)?;
		pair(&x, &x)?;
		pair(&x, &y)
	};
	let l = |s: &str, t: LiteralType| LocalTerm::Named(Term::Literal(Literal::new(s, t)));
	let string_t = || LiteralType::Any(rdf_types::XSD_STRING.to_owned());
	for s in long_texts().into_iter().step_by(7) {
		both(l(&s, string_t()), l(&format!("{s}a"), string_t()))?;
	}
	for s in long_blanks().into_iter().step_by(3) {
		both(LocalTerm::Anonymous(blank(&s)), LocalTerm::Anonymous(blank(&format!("{s}0"))))?;
	}
	for s in long_iris() {
		let t = format!("{s}b");
		both(LocalTerm::Named(Term::Iri(iri(&s))), LocalTerm::Named(Term::Iri(iri(&t))))?;
		both(l("v", LiteralType::Any(iri(&s))), l("v", LiteralType::Any(iri(&t))))?;
	}
	for s in long_langs() {
		let t = format!("{s}-zz");
		both(l("v", LiteralType::LangString(lang(&s))), l("v", LiteralType::LangString(lang(&t))))?;
	}
	Ok(n)
}

fn main() {
	main_with(Prop {
		id: "C20",
		rule: "long terms first; random triples of terms (identical, near-miss in one component or in spelling, unrelated); every conversion chain and accessor of each, every cross-form comparison, ordering and hash of each pair, transitivity of the triple; non-trivial: the first two terms are spelled differently",
		quick: 600_000,
		thorough: 5_000_000,
		assumptions: &["equality of IRIs and language tags is that of the iref and langtag crates", "a string is not a form of a literal: Borrow<str> for literals is only required to give the value"],
		run,
		exhaustive: Some(exhaustive),
	})
}
