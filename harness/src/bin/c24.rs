//! C24: the statement macros build exactly the statements written.
//!
//! Macros only exist at compile time, so cases are generated as Rust source: a program of
//! macro invocations, each beside the same value built from enum variants, is compiled
//! against /repo and run. A control program with the directly built values only tells a
//! broken build apart from a macro that does not accept its documented input.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::process::Command;
use std::time::Instant;
use vharness::gen::*;
use vharness::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mac {
	Triple,
	Triples,
	Quad,
	Quads,
	Pattern,
}

#[derive(Clone, Debug, PartialEq)]
enum Val {
	Iri(String),
	Blank(String),
	Lit(String, String),
	Lang(String, String),
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
	/// `<"iri">`
	Iri(String),
	/// `_:"suffix"`
	Blank(String),
	/// `"value"`; raw string syntax if the flag is set
	Str(String, bool),
	/// `"value"^^"type"`
	Typed(String, String),
	/// an identifier bound to a value of the numbered type
	Ident(u8, Val),
	/// `?ident` bound to a `u32` variable
	Var(u32),
}

#[derive(Clone, Debug, PartialEq)]
struct Case {
	mac: Mac,
	delim: u8,
	/// white space before each statement's dot
	tight: bool,
	stmts: Vec<Vec<Tok>>,
}

const STRING: &str = "http://www.w3.org/2001/XMLSchema#string";

fn text(cx: &mut Cx) -> String {
	match cx.weighted(&[4, 2, 1]) {
		0 => cx.pick(&["", "a", "foo", "b", "0", "true", "_:a", "?x", "http://e/", "a b", ".", "\"", "\\"]).to_string(),
		1 => any_string(cx).chars().filter(|c| *c != '\0').take(24).collect(),
		_ => "x".repeat(1 + cx.us(40)),
	}
}
fn suffix(cx: &mut Cx) -> String {
	let b = any_blank(cx);
	b.suffix().to_string()
}
fn iri_text(cx: &mut Cx) -> String {
	any_iri(cx).as_str().to_string()
}
fn tok(cx: &mut Cx, vars: bool) -> Tok {
	match cx.weighted(if vars { &[3, 3, 2, 2, 3, 5] } else { &[3, 3, 2, 2, 3] }) {
		0 => Tok::Iri(iri_text(cx)),
		1 => Tok::Blank(suffix(cx)),
		2 => {
			let t = text(cx);
			let raw = cx.chance(1, 4) && !t.contains(['"', '\r', '\n']) && !t.chars().any(bidi);
			Tok::Str(t, raw)
		}
		3 => Tok::Typed(text(cx), if cx.chance(1, 3) { STRING.into() } else { iri_text(cx) }),
		4 => {
			let ty = cx.below(8) as u8;
			let v = match ty {
				0 | 3 | 5 => Val::Iri(iri_text(cx)),
				1 | 6 => Val::Blank(suffix(cx)),
				2 | 4 => Val::Lit(text(cx), iri_text(cx)),
				_ => Val::Lang(text(cx), any_lang(cx).as_str().to_string()),
			};
			Tok::Ident(ty, v)
		}
		_ => Tok::Var(cx.below(3) as u32),
	}
}
/// Characters rustc refuses in plain source text.
fn bidi(c: char) -> bool {
	matches!(c, '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}') || c.is_control()
}
fn case(cx: &mut Cx) -> Case {
	let mac = *cx.pick(&[Mac::Triple, Mac::Quad, Mac::Pattern, Mac::Triples, Mac::Quads]);
	let n = match mac {
		Mac::Triples | Mac::Quads => *cx.pick(&[1, 2, 0, 3, 5]),
		_ => 1,
	};
	let mut stmts = Vec::new();
	for _ in 0..n {
		let len = match mac {
			Mac::Triple | Mac::Triples => 3,
			_ => 3 + cx.us(2),
		};
		stmts.push((0..len).map(|_| tok(cx, mac == Mac::Pattern)).collect());
	}
	Case { mac, delim: cx.below(3) as u8, tight: cx.bool(), stmts }
}

/// A Rust string literal. Non-ASCII text is written as is, except what rustc rejects.
fn lit(s: &str) -> String {
	let mut r = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => r.push_str("\\\""),
			'\\' => r.push_str("\\\\"),
			'\n' => r.push_str("\\n"),
			'\r' => r.push_str("\\r"),
			c if bidi(c) => write!(r, "\\u{{{:x}}}", c as u32).unwrap(),
			c => r.push(c),
		}
	}
	r.push('"');
	r
}
fn e_iri(i: &str) -> String {
	format!("IriBuf::new({}.to_string()).unwrap()", lit(i))
}
fn e_blank(b: &str) -> String {
	format!("BlankIdBuf::new({}.to_string()).unwrap()", lit(&format!("_:{b}")))
}
fn e_lit(v: &str, t: &str) -> String {
	format!("Literal {{ value: {}.to_string(), type_: LiteralType::Any({}) }}", lit(v), e_iri(t))
}
fn e_val(v: &Val) -> (String, &'static str) {
	match v {
		Val::Iri(i) => (e_iri(i), "iri"),
		Val::Blank(b) => (e_blank(b), "blank"),
		Val::Lit(v, t) => (e_lit(v, t), "lit"),
		Val::Lang(v, l) => (format!("Literal {{ value: {}.to_string(), type_: LiteralType::LangString(LangTagBuf::new({}.to_string()).unwrap()) }}", lit(v), lit(l)), "lit"),
	}
}
fn term(v: &Val) -> String {
	let (e, k) = e_val(v);
	match k {
		"iri" => format!("LocalTerm::Named(Term::Iri({e}))"),
		"blank" => format!("LocalTerm::Anonymous({e})"),
		_ => format!("LocalTerm::Named(Term::Literal({e}))"),
	}
}
/// Initialiser of an identifier: as its own type, as a term, or as a local term.
fn ident_init(ty: u8, v: &Val) -> String {
	let (e, k) = e_val(v);
	match (ty, k) {
		(0, _) | (1, _) | (2, _) | (7, _) => e,
		(3, _) => format!("Term::Iri({e})"),
		(4, _) => format!("Term::Literal({e})"),
		_ => term(v),
	}
}

struct Src {
	lets: String,
	invocation: String,
	expected: String,
	ty: String,
}
fn source(c: &Case) -> Src {
	let mut lets = String::new();
	let mut body = String::new();
	let mut exp = Vec::new();
	let mut k = 0;
	for s in &c.stmts {
		let mut e = Vec::new();
		for (i, t) in s.iter().enumerate() {
			if i > 0 || !body.is_empty() {
				body.push(' ');
			}
			let mut res = |x: String| e.push(if c.mac == Mac::Pattern { format!("ResourceOrVar::Resource({x})") } else { x });
			match t {
				Tok::Iri(i) => {
					write!(body, "<{}>", lit(i)).unwrap();
					res(term(&Val::Iri(i.clone())));
				}
				Tok::Blank(b) => {
					write!(body, "_:{}", lit(b)).unwrap();
					res(term(&Val::Blank(b.clone())));
				}
				Tok::Str(v, raw) => {
					if *raw {
						write!(body, "r#\"{v}\"#").unwrap();
					} else {
						body.push_str(&lit(v));
					}
					res(term(&Val::Lit(v.clone(), STRING.into())));
				}
				Tok::Typed(v, t) => {
					write!(body, "{}^^{}", lit(v), lit(t)).unwrap();
					res(term(&Val::Lit(v.clone(), t.clone())));
				}
				Tok::Ident(ty, v) => {
					writeln!(lets, "let x{k} = {{ use crate::n::*; {} }};", ident_init(*ty, v)).unwrap();
					write!(body, "x{k}").unwrap();
					k += 1;
					res(term(v));
				}
				Tok::Var(n) => {
					writeln!(lets, "let x{k} = {n}u32;").unwrap();
					write!(body, "?x{k}").unwrap();
					k += 1;
					e.push(format!("ResourceOrVar::Var({n}u32)"));
				}
			}
		}
		if matches!(c.mac, Mac::Triples | Mac::Quads) {
			body.push_str(if c.tight { "." } else { " ." });
		}
		exp.push(match c.mac {
			Mac::Triple | Mac::Triples => format!("Triple({}, {}, {})", e[0], e[1], e[2]),
			_ => format!("Quad({}, {}, {}, {})", e[0], e[1], e[2], e.get(3).map_or("None".to_string(), |g| format!("Some({g})"))),
		});
	}
	let (name, ty) = match c.mac {
		Mac::Triple => ("grdf_triple", "n::Triple<n::LocalTerm>".to_string()),
		Mac::Triples => ("grdf_triples", format!("[n::Triple<n::LocalTerm>; {}]", c.stmts.len())),
		Mac::Quad => ("grdf_quad", "n::Quad<n::LocalTerm>".to_string()),
		Mac::Quads => ("grdf_quads", format!("[n::Quad<n::LocalTerm>; {}]", c.stmts.len())),
		Mac::Pattern => ("grdf_quad_pattern", "n::Quad<n::ResourceOrVar<n::LocalTerm, u32>>".to_string()),
	};
	let (a, b) = [("[", "]"), ("{", "}"), ("(", ")")][c.delim as usize];
	Src {
		lets,
		invocation: format!("rdf_types::{name}!{a} {body} {b}"),
		expected: if matches!(c.mac, Mac::Triples | Mac::Quads) { format!("[{}]", exp.join(", ")) } else { exp.remove(0) },
		ty,
	}
}

/// Line ranges of the cases in the generated program, and the program.
fn program(cases: &[Case], with_macros: bool) -> (String, Vec<(usize, usize)>) {
	let mut out = String::from(
		// the macros are invoked where the names they build with mean something else
		"#![recursion_limit = \"8192\"]\n#![allow(warnings)]\nmod n { pub use rdf_types::{Triple, Quad, LocalTerm, Term, Literal, LiteralType, BlankIdBuf, pattern::ResourceOrVar}; pub use iref::IriBuf; pub use langtag::LangTagBuf; }\nstruct Triple; struct Quad; struct LocalTerm; struct Term; struct Literal; struct LiteralType; struct BlankIdBuf; struct ResourceOrVar; struct Iri; struct IriBuf; const XSD_STRING: u8 = 0;\n",
	);
	let mut ranges = Vec::new();
	for (i, c) in cases.iter().enumerate() {
		let start = out.matches('\n').count() + 1;
		let s = source(c);
		writeln!(out, "fn case{i}() -> Result<(), String> {{").unwrap();
		out.push_str(&s.lets);
		if with_macros {
			writeln!(out, "let got: {} = {};", s.ty, s.invocation).unwrap();
		}
		writeln!(out, "let expected: {} = {{ use crate::n::*; {} }};", s.ty, s.expected).unwrap();
		if with_macros {
			writeln!(out, "if got == expected && format!(\"{{got:?}}\") == format!(\"{{expected:?}}\") {{ Ok(()) }} else {{ Err(format!(\"got {{got:?}}, expected {{expected:?}}\")) }}").unwrap();
		} else {
			writeln!(out, "Ok(())").unwrap();
		}
		writeln!(out, "}}").unwrap();
		ranges.push((start, out.matches('\n').count()));
	}
	out.push_str("fn main() {\nstd::panic::set_hook(Box::new(|_| {}));\nlet cases: &[fn() -> Result<(), String>] = &[");
	for i in 0..cases.len() {
		write!(out, "case{i}, ").unwrap();
	}
	out.push_str("];\nfor (i, c) in cases.iter().enumerate() {\nmatch std::panic::catch_unwind(c) { Ok(Ok(())) => println!(\"OK {i}\"), Ok(Err(e)) => println!(\"BAD {i} {}\", e.replace('\\n', \" \")), Err(_) => println!(\"BAD {i} panics\") }\n}\n}\n");
	(out, ranges)
}

enum Built {
	/// failures by case
	Ran(BTreeMap<usize, String>),
	Broken(String),
}

fn dir() -> String {
	format!("{}/target/c24-{}", verif_dir(), std::process::id())
}

/// Compiles and runs a program in scratch package `name`.
fn build_and_run(cases: &[Case], with_macros: bool) -> Built {
	let d = dir();
	let _ = std::fs::create_dir_all(format!("{d}/src"));
	let harness = env!("CARGO_MANIFEST_DIR");
	let toml = std::fs::read_to_string(format!("{harness}/Cargo.toml")).expect("Cargo.toml").replace("vharness", "c24gen");
	// without the declared binaries: this package has src/main.rs only
	let mut toml: String = toml.split_inclusive("\n\n").filter(|block| !block.starts_with("[[bin]]")).collect();
	toml.push_str("\n[[bin]]\nname = \"c24gen\"\npath = \"src/main.rs\"\n");
	std::fs::write(format!("{d}/Cargo.toml"), toml).expect("write");
	let lock = std::fs::read_to_string(format!("{harness}/Cargo.lock")).expect("Cargo.lock").replace("vharness", "c24gen");
	std::fs::write(format!("{d}/Cargo.lock"), lock).expect("write");
	let (src, ranges) = program(cases, with_macros);
	std::fs::write(format!("{d}/src/main.rs"), &src).expect("write");
	let o = Command::new("cargo").args(["build", "-q", "--offline", "--message-format=json", "--config", "profile.dev.opt-level=0"]).current_dir(&d).output().expect("cargo");
	if !o.status.success() {
		let mut fails = BTreeMap::new();
		let mut other = Vec::new();
		for l in String::from_utf8_lossy(&o.stdout).lines() {
			let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
			if v["reason"] != "compiler-message" || v["message"]["level"] != "error" {
				continue;
			}
			let text = v["message"]["message"].as_str().unwrap_or("").to_string();
			let mut lines = BTreeSet::new();
			let mut todo: Vec<&serde_json::Value> = v["message"]["spans"].as_array().map(|a| a.iter().collect()).unwrap_or_default();
			while let Some(s) = todo.pop() {
				if s["file_name"].as_str().is_some_and(|f| f.ends_with("src/main.rs")) && v["target"]["name"] == "c24gen" {
					if let Some(n) = s["line_start"].as_u64() {
						lines.insert(n as usize);
					}
				}
				if s["expansion"].is_object() {
					todo.push(&s["expansion"]["span"]);
				}
			}
			let hit: Vec<usize> = ranges.iter().enumerate().filter(|(_, r)| lines.iter().any(|l| r.0 <= *l && *l <= r.1)).map(|(i, _)| i).collect();
			if hit.is_empty() {
				other.push(text);
			} else {
				for i in hit {
					fails.entry(i).or_insert_with(|| format!("does not compile: {text}"));
				}
			}
		}
		if fails.is_empty() {
			return Built::Broken(format!("{} {}", other.join("; "), String::from_utf8_lossy(&o.stderr).chars().take(600).collect::<String>()));
		}
		return Built::Ran(fails);
	}
	let exe = format!("{}/debug/c24gen", std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| format!("{}/target", verif_dir())));
	let o = match Command::new(&exe).output() {
		Ok(o) => o,
		Err(e) => return Built::Broken(format!("{exe}: {e}")),
	};
	let out = String::from_utf8_lossy(&o.stdout).into_owned();
	let mut fails = BTreeMap::new();
	let mut seen = 0;
	for l in out.lines() {
		let mut w = l.splitn(3, ' ');
		let (k, i, m) = (w.next().unwrap_or(""), w.next().and_then(|x| x.parse::<usize>().ok()), w.next().unwrap_or(""));
		match (k, i) {
			("OK", Some(_)) => seen += 1,
			("BAD", Some(i)) => {
				seen += 1;
				fails.insert(i, m.to_string());
			}
			_ => {}
		}
	}
	if seen < cases.len() {
		fails.insert(seen, format!("the program dies: {}", o.status));
	}
	Built::Ran(fails)
}

fn simpler(c: &Case) -> Vec<Case> {
	let mut r = Vec::new();
	if c.stmts.len() > 1 {
		for i in 0..c.stmts.len() {
			let mut x = c.clone();
			x.stmts = vec![c.stmts[i].clone()];
			r.push(x);
		}
		for i in 0..c.stmts.len() {
			let mut x = c.clone();
			x.stmts.remove(i);
			r.push(x);
		}
	}
	for i in 0..c.stmts.len() {
		if c.mac != Mac::Triple && c.mac != Mac::Triples && c.stmts[i].len() == 4 {
			let mut x = c.clone();
			x.stmts[i].pop();
			r.push(x);
		}
		for j in 0..c.stmts[i].len() {
			let mut alts = vec![Tok::Blank("a".into())];
			match &c.stmts[i][j] {
				Tok::Blank(b) if b == "a" => alts.clear(),
				Tok::Iri(_) => alts.push(Tok::Iri("http://e/".into())),
				Tok::Str(..) => alts.push(Tok::Str("a".into(), false)),
				Tok::Typed(..) => alts.push(Tok::Typed("a".into(), "http://e/".into())),
				_ => {}
			}
			for a in alts {
				if c.stmts[i][j] != a {
					let mut x = c.clone();
					x.stmts[i][j] = a;
					r.push(x);
				}
			}
		}
	}
	if c.delim != 0 || c.tight {
		r.push(Case { delim: 0, tight: false, ..c.clone() });
	}
	r
}

const RULE: &str = "Cases are macro invocations drawn from all five statement macros: every token form (identifier holding an IRI, literal, term, local term or blank node; <\"iri\">; _:\"label\"; \"value\"; \"value\"^^\"type\"; ?variable in patterns), all three delimiters, lists of 0 to 5 statements, quads with and without graph. Every invocation is non-trivial: it is compiled, run and compared with the value built from enum variants; cases are distinct by source text.";

fn finish(d: &str, code: i32) -> ! {
	let _ = std::fs::remove_dir_all(d);
	std::process::exit(code)
}

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let seed = env_u64("VERIF_SEED", 1);
	let d = dir();
	if args.first().map(|s| s.as_str()) == Some("replay") {
		let path = args.get(1).expect("replay file");
		let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read")).expect("json");
		let (s, i) = (v["seed"].as_u64().unwrap(), v["case"].as_u64().unwrap());
		let mut c = case(&mut Cx::random("C24", s, i, false));
		for st in v["shrink"].as_array().unwrap() {
			c = simpler(&c).swap_remove(st.as_u64().unwrap() as usize);
		}
		println!("{}", source(&c).invocation);
		match build_and_run(&[c], true) {
			Built::Ran(f) if f.is_empty() => finish(&d, 0),
			Built::Ran(f) => {
				println!("{}\nVIOLATION property=C24 replay={path}", f[&0]);
				finish(&d, 1)
			}
			Built::Broken(m) => {
				println!("ERROR property=C24: {m}");
				finish(&d, 2)
			}
		}
	}
	let tier = match args.first() {
		Some(t) if t == "thorough" || t == "quick" => t.clone(),
		_ => std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
	};
	let thorough = tier == "thorough";
	let start = Instant::now();
	let n = env_u64("VERIF_CASES", if thorough { 6000 } else { 400 });
	let batch = 400;
	let p = Prop {
		id: "C24",
		rule: RULE,
		quick: 400,
		thorough: 6000,
		assumptions: &["rustc expands macros deterministically", "the generated crate raises recursion_limit: long statement lists need it in any crate using these macros"],
		run: |_| Ok(()),
		exhaustive: None,
	};
	let mut done = 0;
	let mut distinct = BTreeSet::new();
	let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
	let mut samples = Vec::new();
	while done < n {
		let k = batch.min(n - done);
		let cases: Vec<Case> = (done..done + k).map(|i| case(&mut Cx::random("C24", seed, i, thorough))).collect();
		for (i, c) in cases.iter().enumerate() {
			let s = source(c);
			if (done == 0 && i < 12) || i as u64 == k / 2 {
				samples.push(serde_json::json!({"case": done + i as u64, "invocation": s.invocation}));
			}
			distinct.insert(fnv(format!("{}{}", s.lets, s.invocation).as_bytes()));
			*classes
				.entry(match c.mac {
					Mac::Triple => "grdf_triple",
					Mac::Triples => "grdf_triples",
					Mac::Quad => "grdf_quad",
					Mac::Quads => "grdf_quads",
					Mac::Pattern => "grdf_quad_pattern",
				})
				.or_insert(0) += 1;
			for t in c.stmts.iter().flatten() {
				*classes
					.entry(match t {
						Tok::Iri(_) => "token: IRI",
						Tok::Blank(_) => "token: blank node",
						Tok::Str(..) => "token: string",
						Tok::Typed(..) => "token: typed literal",
						Tok::Ident(..) => "token: identifier",
						Tok::Var(_) => "token: variable",
					})
					.or_insert(0) += 1;
			}
		}
		let mut fails = match build_and_run(&cases, true) {
			Built::Ran(f) => f,
			Built::Broken(m) => {
				println!("ERROR property=C24: the generated program does not build: {m}");
				finish(&d, 2)
			}
		};
		if !fails.is_empty() && fails.values().any(|m| m.starts_with("does not compile")) {
			// control: the same values without the macros
			let ctl: Vec<Case> = fails.keys().map(|i| cases[*i].clone()).collect();
			match build_and_run(&ctl, false) {
				Built::Ran(f) if f.is_empty() => {}
				Built::Ran(f) => {
					println!("ERROR property=C24: the control program does not build: {:?}", f.values().next());
					finish(&d, 2)
				}
				Built::Broken(m) => {
					println!("ERROR property=C24: the control program does not build: {m}");
					finish(&d, 2)
				}
			}
		}
		done += k;
		if let Some((i, msg)) = fails.pop_first() {
			let case_no = done - k + i as u64;
			let (mut c, mut msg) = (cases[i].clone(), msg);
			let mut steps: Vec<u64> = Vec::new();
			for _ in 0..24 {
				let cand = simpler(&c);
				if cand.is_empty() {
					break;
				}
				match build_and_run(&cand, true) {
					Built::Ran(f) => match f.into_iter().next() {
						Some((j, m)) => {
							c = cand[j].clone();
							msg = m;
							steps.push(j as u64);
						}
						None => break,
					},
					Built::Broken(_) => break,
				}
			}
			let s = source(&c);
			let h = fnv(s.invocation.as_bytes());
			let rd = format!("{}/replays", verif_dir());
			let _ = std::fs::create_dir_all(&rd);
			let path = format!("{rd}/C24-{h:016x}.json");
			let v = serde_json::json!({"property": "C24", "seed": seed, "case": case_no, "shrink": steps, "message": msg, "lets": s.lets, "invocation": s.invocation, "expected": s.expected});
			let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
			write_evidence(&p, &tier, seed, done, 0, distinct.len() as u64, &classes, &samples, start.elapsed().as_secs_f64(), 1);
			report("C24", &path, &msg, &[s.lets.trim().to_string(), s.invocation]);
			finish(&d, 1)
		}
	}
	write_evidence(&p, &tier, seed, done, 0, distinct.len() as u64, &classes, &samples, start.elapsed().as_secs_f64(), 0);
	println!("property C24: held on {done} macro invocations, {:.1} s", start.elapsed().as_secs_f64());
	finish(&d, 0)
}
