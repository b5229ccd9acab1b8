//! F01 to F04: the reader against the reference reader, on enumerated texts.
use crate::r#gen;
use crate::model::*;
use crate::reftext::{self, Verdict, Why};
use crate::render::{self, Tok};
use crate::sup::{CheckDef, Ctx, guarded, hash64};
use crate::{extract, sys};
use koopa::front::Driver;
use koopa::front::span::FileType;
use koopa::ir::Program;
use std::io::Cursor;

pub fn defs() -> Vec<CheckDef> {
  vec![
    CheckDef {
      id: "F01",
      level: "exploration",
      rule: "every byte string up to a length over an alphabet of byte classes, every single-token edit of seed programs, and every recursive construct grown through many sizes, read as buffer and as file; distinct = distinct texts the reader rejected",
      run: f01,
      assumptions: &["a worker has an 8 MB stack and 3 GB (thorough 12 GB) of address space; a case that takes over 40 s counts as not terminating"],
    },
    CheckDef {
      id: "F02",
      level: "exploration",
      rule: "texts of enumerated model programs and their variants; distinct = distinct programs accepted and compared entity by entity with the reference reader's program",
      run: f02,
      assumptions: &["the reference reader (reftext.rs) states the language's rules; it is cross-checked against an independent renderer on every case"],
    },
    CheckDef {
      id: "F03",
      level: "exploration",
      rule: "all token sequences up to a length, and every single-token edit of seed programs in several surroundings; distinct = distinct texts with a verdict fixed by the rules",
      run: f03,
      assumptions: &["texts whose verdict the rules do not fix (listed in DESIGN.md) are only required not to crash"],
    },
    CheckDef {
      id: "F04",
      level: "exploration",
      rule: "every gap between two tokens of seed programs filled with every separator string of a set; distinct = distinct texts compared with the reference reader",
      run: f04,
      assumptions: &["the reference reader states the lexical rules"],
    },
  ]
}

pub fn read(b: &[u8]) -> Option<Program> {
  Driver::new(FileType::Buffer, Cursor::new(b)).generate_program().ok()
}

pub fn show(b: &[u8]) -> String {
  match std::str::from_utf8(b) {
    Ok(s) if !s.bytes().any(|c| c < 0x20 && c != b'\n') => s.to_string(),
    _ => {
      let mut o = String::from("(escaped) ");
      for c in b {
        for e in std::ascii::escape_default(*c) {
          o.push(e as char);
        }
      }
      o
    }
  }
}

/// Both the verdict and the program against the reference.
pub fn judge(b: &[u8], verdict: bool, content: bool) -> Result<Verdict, String> {
  let r = reftext::read(b);
  let p = read(b);
  match (&r, &p) {
    (Verdict::Accept(m), Some(p)) => {
      if content {
        let e = extract::extract(p).map_err(|e| format!("the program obtained is not well formed: {e}"))?;
        if let Some(d) = diff(&m.canon(), &e.canon()) {
          return Err(format!("the program obtained is not the one described: {d}"));
        }
        extract::check_uses(p)?;
      }
    }
    (Verdict::Accept(_), None) if verdict => return Err("a well-formed text is rejected".into()),
    (Verdict::Reject(w), Some(_)) if verdict => return Err(format!("an ill-formed text is accepted: {w:?}")),
    _ => {}
  }
  Ok(r)
}

// ---- texts ----

pub const PUNCT: [&str; 12] = ["(", ")", "{", "}", "[", "]", "*", ",", ":", "=", "/", "#"];
pub const WORDS: [&str; 15] = [
  "i32", "undef", "zeroinit", "global", "alloc", "load", "store", "getptr", "getelemptr", "br", "jump", "call", "ret", "fun",
  "decl",
];

/// Tokens to put in the place of others in a program that has these tokens.
pub fn alphabet(t: &[Tok]) -> Vec<String> {
  let mut v: Vec<String> = PUNCT.iter().chain(&WORDS).map(|s| s.to_string()).collect();
  v.extend(["add", "sar", "0", "1", "2", "3", "-1", "2147483647", "9223372036854775808", "@zz", "%zz", "%77", "@0", "%", "foo", "-", "//", "/*", "unit", "* i32", ", 1", "( )"].map(String::from));
  for k in t {
    if (k.s.starts_with('@') || k.s.starts_with('%')) && !v.contains(&k.s) {
      v.push(k.s.clone());
    }
  }
  v
}

fn tok(s: &str) -> Tok {
  Tok { s: s.to_string(), next: 0 }
}

/// Every program that differs from `t` by one token edit.
pub fn edits(t: &[Tok], alpha: &[String], f: &mut dyn FnMut(Vec<Tok>)) {
  for i in 0..t.len() {
    let mut d = t.to_vec();
    d.remove(i);
    f(d);
    let mut d = t.to_vec();
    d.insert(i, t[i].clone());
    f(d);
    if i + 1 < t.len() {
      let mut d = t.to_vec();
      d.swap(i, i + 1);
      f(d);
    }
    let mut d = t.to_vec();
    d.truncate(i);
    f(d);
    if t[i].next != 0 {
      // the line break after ret is gone, or stands where none may
      let mut d = t.to_vec();
      d[i].next = 3 - t[i].next;
      f(d);
    }
    for a in alpha {
      if *a != t[i].s {
        let mut d = t.to_vec();
        d[i].s = a.clone();
        f(d);
      }
      let mut d = t.to_vec();
      d.insert(i, tok(a));
      f(d);
    }
  }
}

/// Space between all tokens, a line break only where one is needed.
pub fn flat(t: &[Tok]) -> String {
  let mut s = String::new();
  for k in t {
    s += &k.s;
    s.push(if k.next == 2 { '\n' } else { ' ' });
  }
  s
}

/// Hand-written texts for rules that renderings do not reach.
pub fn texts() -> Vec<String> {
  let mut v: Vec<String> = vec![
    "".into(),
    " \n\t".into(),
    "// only a comment".into(),
    "/* */".into(),
    "decl @f()".into(),
    "decl @f() decl @g(i32)".into(),
    "decl @f(): i32 global @g = alloc i32, 1".into(),
    "decl %f(): i32".into(),
    "fun @f() { %e: ret\n}".into(),
    "fun @f() { %e(): ret\n}".into(),
    "fun @f() { %e: jump %b() %b(): ret\n}".into(),
    "fun @f() { %e: jump %b %b: ret\n}".into(),
    "fun @f() { %0: jump %1 %1: ret\n}".into(),
    "fun @f() { %e: br 1, %b(), %b %b: ret\n}".into(),
    "fun @f(): i32 { %e: ret 007 }".into(),
    "fun @f(): i32 { %e: ret -0 }".into(),
    "fun @f(): i32 { %e: ret -2147483648 }".into(),
    "fun @f(): i32 { %e: ret 2147483647 }".into(),
    "fun @f(): i32 { %e: ret 2147483648 }".into(),
    "fun @f(): i32 { %e: ret undef }".into(),
    "fun @f(): i32 { %e: ret zeroinit }".into(),
    "fun @f(): [i32, 2] { %e: ret {1, 2} }".into(),
    "fun @f(): [i32, 2] { %e: ret undef }".into(),
    "fun @f(): i32 { %e: jump %r %u: ret 1 %r: ret 2 }".into(),
    "fun @f(): i32 { %e: jump %r %u: jump %r %r: ret 2 }".into(),
    "fun @f(): i32 { %e: jump %r %u: jump %nowhere %r: ret 2 }".into(),
    "fun @f(): i32 { %e: jump %r %u: jump %e %r: ret 2 }".into(),
    "fun @f(): i32 { %e: ret 1 %u: jump %v %v: jump %u }".into(),
    "fun @f(): i32 { %e: ret 1 %e: ret 2 }".into(),
    "fun @f() { %e: jump %e }".into(),
    "fun @f() { %e: jump %b %b: br 1, %e, %b }".into(),
    "fun @f() { }".into(),
    "fun @f(@a: i32, @a: i32) { %e: ret\n}".into(),
    "fun @f(@a: i32) { %e: jump %b(1) %b(@a: i32): ret\n}".into(),
    "fun @f() { %e: jump %b(1, 2) %b(@a: i32, @a: i32): ret\n}".into(),
    "fun @f() { %e: jump %b(1) %b(@a: i32): jump %c(2) %c(@a: i32): ret\n}".into(),
    "global @a = alloc i32, 1 fun @f(@a: i32) { %e: ret\n}".into(),
    "global @a = alloc i32, 1 fun @f() { %e: @a = alloc i32 ret\n}".into(),
    "global @a = alloc i32, 1 fun @f() { %e: jump %b(1) %b(@a: i32): ret\n}".into(),
    "fun @f(@a: i32) { %e: ret\n} global @a = alloc i32, 1".into(),
    "fun @f() { @f: ret\n}".into(),
    "fun @f(@f: i32): i32 { @f: ret @f }".into(),
    "fun @f() { %e: %e = alloc i32 ret\n}".into(),
    "fun @f() { %e: %a = alloc i32 %a = alloc i32 ret\n}".into(),
    "fun @f() { %e: %a = alloc i32 jump %b %b: %a = alloc i32 ret\n}".into(),
    "fun @f(): i32 { %e: br 1, %a, %b %a: %x = add 1, 2 jump %c %b: %y = add 1, 2 jump %c %c: ret %x }".into(),
    "fun @f(): i32 { %e: br 1, %a, %b %a: %x = add 1, 2 ret %x %b: ret %x }".into(),
    "fun @f(): i32 { %e: jump %a %a: %y = add %x, 1 %x = add 1, 2 br %x, %a, %b %b: ret %y }".into(),
    "fun @f(): i32 { %e: %y = add %x, 1 %x = add 1, 2 ret %y }".into(),
    "fun @f(): i32 { %e: %x = add %x, 1 ret %x }".into(),
    "fun @f() { %e: ret\n} fun @f() { %e: ret\n}".into(),
    "decl @f() fun @f() { %e: ret\n}".into(),
    "decl @f() decl @f()".into(),
    "global @f = alloc i32, 0 decl @f()".into(),
    "decl @f() global @f = alloc i32, 0".into(),
    "global @f = alloc i32, 0 global @f = alloc i32, 0".into(),
    "global @f = alloc i32, 0 fun @f() { %e: ret\n}".into(),
    "fun @f() { %e: ret\n} global @f = alloc i32, 0".into(),
    "global %1 = alloc i32, 0 global %1 = alloc i32, 0".into(),
    "global %1 = alloc i32, 0 fun @f(): i32 { %e: %2 = load %1 ret %2 }".into(),
    "global %1 = alloc i32, 0 fun @f(): i32 { %e: %1 = alloc i32 ret 0 }".into(),
    "fun @f() { %e: call @g() ret\n} decl @g()".into(),
    "fun @f() { %e: call @f() ret\n}".into(),
    "fun @f() { %e: %x = call @f() ret\n}".into(),
    "decl @g(i32) fun @f() { %e: call @g() ret\n}".into(),
    "decl @g(i32) fun @f() { %e: call @g(1, 2) ret\n}".into(),
    "decl @g(*i32) fun @f() { %e: call @g(1) ret\n}".into(),
    "decl @g() fun @f() { %e: call @g(1) ret\n}".into(),
    "fun @f() { %e: jump %b %b(%p: i32): ret\n}".into(),
    "fun @f() { %e: jump %b(1) %b: ret\n}".into(),
    "fun @f() { %e: jump %b(1, 2) %b(%p: i32): ret\n}".into(),
    "fun @f() { %e: br 1, %b(1), %c %b: ret\n%c: ret\n}".into(),
    "fun @f() { %e: br 1, %b, %c(1) %b: ret\n%c: ret\n}".into(),
    "fun @f() { %e: br 1, %b, %c %b(%p: i32): ret\n%c: ret\n}".into(),
    "fun @f() { %e: br 1, %b(1), %b(2) %b(%p: i32): ret\n}".into(),
    "fun @f() { %e: br 1, %b(1), %b %b(%p: i32): ret\n}".into(),
    "fun @f(@p: *i32) { %e: br @p, %b, %b %b: ret\n}".into(),
    "fun @f() { %e: br 1, %b, %nope %b: ret\n}".into(),
    "fun @f() { %e: br 1, %nope, %b %b: ret\n}".into(),
    "fun @f() { %e: jump %nope }".into(),
    "fun @f() { %e: jump %nope(1) }".into(),
    "fun @f() { %e(%p: i32): ret\n}".into(),
    "fun @f() { %e: ret 1\n}".into(),
    "fun @f(): i32 { %e: ret\n}".into(),
    "fun @f(): i32 { %e: ret\n1 }".into(),
    "fun @f(): i32 { %e: ret // c\r 1 }".into(),
    "fun @f(): i32 { %e: ret /* c */ 1 }".into(),
    "fun @f(): i32 { %e: ret /* \n */ 1 }".into(),
    "fun @f() { %e: ret }".into(),
    "fun @f() { %e: ret /* \n */ }".into(),
    "fun @f() { %e: ret %b: ret\n}".into(),
    "fun @f(@p: *i32): i32 { %e: ret @p }".into(),
    "global @g = alloc [i32, 0], zeroinit".into(),
    "global @g = alloc [i32, -1], zeroinit".into(),
    "global @g = alloc [[i32, 0], 2], zeroinit".into(),
    "global @g = alloc *[i32, 0], zeroinit".into(),
    "fun @f(@p: [i32, 0]) { %e: ret\n}".into(),
    "decl @f([i32, 0])".into(),
    "decl @f(): [i32, 0]".into(),
    "decl @f(([i32, 0]): i32)".into(),
    "fun @f() { %e: %a = alloc [i32, 0] ret\n}".into(),
    "fun @f() { %e: jump %b(undef) %b(%p: [i32, 0]): ret\n}".into(),
    "global @g = alloc [i32, 2], {1}".into(),
    "global @g = alloc [i32, 2], {1, 2, 3}".into(),
    "global @g = alloc [i32, 2], {1, {2}}".into(),
    "global @g = alloc [[i32, 2], 2], {{1, 2}, {3}}".into(),
    "global @g = alloc [[i32, 2], 2], {{1, 2}, zeroinit}".into(),
    "global @g = alloc [[i32, 2], 2], {{1, 2}, 3}".into(),
    "global @g = alloc *i32, {1}".into(),
    "global @g = alloc *i32, 1".into(),
    "global @g = alloc i32, {1}".into(),
    "global @g = alloc [i32, 1], 1".into(),
    "global @g = alloc [*i32, 2], {undef, zeroinit}".into(),
    "global @g = alloc (i32): i32, undef".into(),
    "global @g = alloc i32, @h".into(),
    "fun @f(@p: *[i32, 2]) { %e: store {1}, @p ret\n}".into(),
    "fun @f(@p: *[i32, 2]) { %e: store {1, 2, 3}, @p ret\n}".into(),
    "fun @f(@p: **i32) { %e: store {1}, @p ret\n}".into(),
    "fun @f(@p: **i32) { %e: store 1, @p ret\n}".into(),
    "fun @f(@p: i32) { %e: store 1, @p ret\n}".into(),
    "fun @f(@p: i32) { %e: %x = load @p ret\n}".into(),
    "fun @f(@p: i32) { %e: %x = getptr @p, 1 ret\n}".into(),
    "fun @f(@p: *i32) { %e: %x = getelemptr @p, 1 ret\n}".into(),
    "fun @f(@p: [i32, 2]) { %e: %x = getelemptr @p, 1 ret\n}".into(),
    "fun @f(@p: *i32) { %e: %x = getptr @p, @p ret\n}".into(),
    "fun @f(@p: *i32) { %e: %x = add @p, 1 ret\n}".into(),
    "fun @f(@p: *i32) { %e: %x = add 1, @p ret\n}".into(),
    "fun @f() { %e: %x = add @f, 1 ret\n}".into(),
    "fun @f() { %e: %x = load %e ret\n}".into(),
    "fun @f() { %e: call %e() ret\n}".into(),
    "global @g = alloc i32, 0 fun @f() { %e: call @g() ret\n}".into(),
    "fun @f() { %e: %x = alloc i32 }".into(),
    "fun @f() { %e: }".into(),
    "fun @f() { %e: ret\n %x = alloc i32 }".into(),
    "fun @f() { %e: jump %b %x = alloc i32 %b: ret\n}".into(),
    "decl @f(i32,)".into(),
    "decl @f(,)".into(),
    "fun @f() { %e: jump %b(,) %b: ret\n}".into(),
    "global @g = alloc [i32, 1], {}".into(),
    "global @g = alloc [i32, 1], {1,}".into(),
    "decl @f(): ".into(),
    "decl @f(): (): i32".into(),
    "decl @f(): ((): i32): *i32".into(),
    "decl @f(()) decl @g(())".into(),
    "decl @f(unit)".into(),
    "decl @f(i33)".into(),
    "decl @f(I32)".into(),
    "ret".into(),
    "@f".into(),
    "fun".into(),
    "fun fun".into(),
    "global".into(),
    "fun @f() { %e: ret\n}}".into(),
    "fun @f() { %e: ret\n".into(),
    "fun @f( { %e: ret\n}".into(),
    "fun @1() { %e: ret\n}".into(),
    "fun %1() { %e: ret\n}".into(),
    "fun %01() { %e: ret\n}".into(),
    "fun @f(%1: i32, %2: i32): i32 { %3: %4 = add %1, %2 ret %4 }".into(),
    "fun @f(%1: i32, %1: i32): i32 { %3: ret %1 }".into(),
    "fun @f(%1: i32): i32 { %3: %1 = add 1, 1 ret %1 }".into(),
    "fun @f(%0: i32): i32 { %0: %1 = add %0, %0 ret %1 }".into(),
    "decl@f()decl@g()".into(),
    "decl @f()\u{b}\u{c}".into(),
    "decl @f() \u{1c}".into(),
    "decl @f() \0".into(),
    "decl @f() // caf\u{e9}\n".into(),
    "decl @f() /* \u{65e5}\u{672c} */".into(),
    "decl @caf\u{e9}()".into(),
    "decl @f() \u{a0}".into(),
  ];
  // errors and warnings in great number
  for n in [1usize, 19, 20, 21, 22, 40, 100] {
    v.push("decl @f() ".repeat(n));
    v.push((0..n).map(|i| format!("fun @f{i}() {{ %e: call @nope() ret\n}} ")).collect());
    v.push((0..n).map(|i| format!("fun @f{i}() {{ %e: ret\n %u: ret\n}} ")).collect());
    v.push(format!("fun @f() {{ %e: {} ret\n}}", "%x = load @nope ".repeat(n)));
    v.push(format!("fun @f() {{ %e: {} ret\n}}", "foo ".repeat(n)));
    v.push("foo ".repeat(n));
    v.push(format!("{} decl @ok()", "global ".repeat(n)));
  }
  v
}

/// Texts placed before and after a construct.
pub fn surroundings() -> Vec<(&'static str, &'static str)> {
  vec![
    ("global @pre = alloc i32, 1 ", ""),
    ("", " decl @post()"),
    ("fun @pre() { %entry: ret\n} ", " global @post = alloc [i32, 2], {1, 2}"),
    ("fun @pre(@q: i32): i32 { %entry: br @q, %l, %m %l: ret 1 %m: ret @q } ", ""),
    ("// c\n/* fun */ decl @pre(i32): i32 ", " // end"),
    ("fun @pre() { %entry: ret\n %unreachable: ret\n} ", ""),
  ]
}

fn batch(ctx: &mut Ctx, it: &mut dyn Iterator<Item = Vec<u8>>, size: usize, f: fn(&[u8]) -> Result<Verdict, String>) {
  // several short texts per case: cheaper bookkeeping
  let mut buf: Vec<Vec<u8>> = vec![];
  loop {
    let x = it.next();
    let end = x.is_none();
    if let Some(x) = x {
      buf.push(x);
    }
    if (end && !buf.is_empty()) || buf.len() == size {
      let b = std::mem::take(&mut buf);
      ctx.case(
        || b.iter().map(|x| show(x)).collect::<Vec<_>>().join("\n--\n"),
        |ctx| {
          for x in &b {
            let v = guarded(|| f(x)).unwrap_or_else(|p| Err(format!("panic: {p}"))).map_err(|e| format!("{e}\nin the text:\n{}", show(x)))?;
            match v {
              Verdict::Accept(_) => ctx.count("accepted", 1),
              Verdict::Reject(_) => ctx.count("rejected", 1),
              Verdict::Unspecified(_) => ctx.count("unspecified", 1),
            }
            ctx.note(hash64(x));
          }
          Ok(())
        },
      );
    }
    if end {
      return;
    }
  }
}

// ---- F01 ----

fn total_read(b: &[u8]) -> Result<Verdict, String> {
  let p = read(b);
  drop(p);
  Ok(Verdict::Unspecified(String::new()))
}

fn file_read(ctx: &Ctx, b: &[u8]) -> Result<(), String> {
  let path = ctx.dir.join(format!("in.{}.{}.koopa", ctx.id, std::process::id()));
  std::fs::write(&path, b).unwrap();
  let d = Driver::from_path(&path).map_err(|e| format!("cannot open the scratch file: {e}"))?;
  let p = d.generate_program().is_ok();
  let q = read(b).is_some();
  if p != q {
    return Err("file and buffer disagree".into());
  }
  std::fs::remove_file(&path).unwrap();
  Ok(())
}

fn strings(alpha: &'static [u8], len: usize) -> impl Iterator<Item = Vec<u8>> {
  let n = alpha.len();
  (0..=len).flat_map(move |l| {
    (0..n.pow(l as u32)).map(move |mut c| {
      let mut v = vec![0; l];
      for x in v.iter_mut() {
        *x = alpha[c % n];
        c /= n;
      }
      v
    })
  })
}

/// Constructs that nest or repeat, grown to size n.
pub fn growing(n: usize) -> Vec<(&'static str, String)> {
  let mut v = vec![
    ("pointer depth", format!("decl @f({}i32)", "*".repeat(n))),
    ("array depth", format!("decl @f({}i32{})", "[".repeat(n), ", 1]".repeat(n))),
    ("function type depth", format!("decl @f({}{})", "(".repeat(n), ")".repeat(n))),
    ("return type depth", format!("decl @f(){}", ": ()".repeat(n))),
    ("unclosed brackets", "decl @f([[[[".to_string() + &"[".repeat(n)),
    ("unclosed parens", "decl @f".to_string() + &"(".repeat(n)),
    ("unclosed stars", "decl @f(".to_string() + &"*".repeat(n)),
    ("unclosed braces", "global @g = alloc i32, ".to_string() + &"{".repeat(n)),
    ("aggregate depth", format!("global @g = alloc {}i32{}, {}1{}", "[".repeat(n), ", 1]".repeat(n), "{".repeat(n), "}".repeat(n))),
    ("aggregate depth, wrong type", format!("global @g = alloc i32, {}1{}", "{".repeat(n), "}".repeat(n))),
    (
      "store aggregate depth",
      format!("fun @f(@p: *{}i32{}) {{ %e: store {}1{}, @p ret\n}}", "[".repeat(n), ", 1]".repeat(n), "{".repeat(n), "}".repeat(n)),
    ),
    ("line comments", format!("{}decl @f()", "//\n".repeat(n))),
    ("block comments", format!("{}decl @f()", "/**/".repeat(n))),
    ("comment pairs", format!("decl @f({}i32)", "/* */ // x\n".repeat(n))),
    ("one long comment", format!("/*{}*/ decl @f()", "*".repeat(n))),
    ("one long line comment", format!("//{}\ndecl @f()", "/".repeat(n))),
    ("long symbol", format!("decl @{}()", "a".repeat(n))),
    ("long temporary", format!("decl %1{}()", "2".repeat(n))),
    ("long integer", format!("fun @f(): i32 {{ %e: ret {} }}", "9".repeat(n))),
    ("long zero", format!("fun @f(): i32 {{ %e: ret {}1 }}", "0".repeat(n))),
    ("long keyword", "g".repeat(n)),
    ("long array literal", format!("global @g = alloc [i32, {}], {{{}}}", n.max(1), vec!["1"; n.max(1)].join(", "))),
    ("bad tokens", "foo ".repeat(n)),
    ("bad characters", "# ".repeat(n)),
    ("many errors", "decl @f() ".repeat(n)),
    ("many declarations", (0..n).map(|i| format!("decl @f{i}() ")).collect()),
    ("many parameters", format!("decl @f({})", vec!["i32"; n].join(", "))),
    ("blank lines", "\n".repeat(n) + "decl @f()"),
    ("error after blank lines", "\n".repeat(n) + "foo"),
    ("error over lines", format!("global @g = alloc foo {} 1", "\n".repeat(n))),
  ];
  let mut s = String::from("fun @f(@x: i32): i32 { %e: ");
  for i in 0..n {
    s += &format!("jump %b{i} %b{i}: ");
  }
  s += "ret @x }";
  v.push(("block chain", s));
  let mut s = String::from("fun @f(@x: i32): i32 { %e: %v = add @x, 1 ");
  for i in 0..n {
    s += &format!("jump %b{i} %b{i}: ");
  }
  s += "ret %v }";
  v.push(("value across a block chain", s));
  let mut s = String::from("fun @f(@x: i32): i32 { %e: ");
  for i in 0..n {
    s += &format!("jump %b{i} %b{i}: ");
  }
  s += "ret %nowhere }";
  v.push(("undefined value across a block chain", s));
  let mut s = String::from("fun @f(@x: i32): i32 { %e: %v = add @x, 1 ");
  for i in 0..n {
    s += &format!("%v{i} = add %v, @x ");
  }
  s += "ret %v }";
  v.push(("many instructions", s));
  v
}

const CLASSES: &[u8] = b"ai@%01-/*\n {,\x80\xff\r\0";

fn f01(ctx: &mut Ctx) {
  // every string over byte classes, as a buffer
  let l = ctx.pick(4, 5);
  batch(ctx, &mut strings(CLASSES, l), 64, total_read);
  // every pair of bytes
  let mut pairs = (0..65536u32).map(|x| vec![(x >> 8) as u8, x as u8]);
  batch(ctx, &mut pairs, 64, total_read);
  // every byte at every position of a small program, instead of and before
  let base = b"global @g = alloc [i32, 2], {1, -2} // c\nfun @f(%p: *i32): i32 { /* b */\n%e:\n  %0 = add 1, 2\n  ret %0\n}\n";
  let mut subst = (0..base.len()).flat_map(|i| {
    (0..=255u8).flat_map(move |c| {
      let mut a = base.to_vec();
      a[i] = c;
      let mut b = base.to_vec();
      b.insert(i, c);
      [a, b]
    })
  });
  batch(ctx, &mut subst, 64, total_read);
  // the same through files, where diagnostics quote the source
  let fl = ctx.pick(3, 4);
  for frame in 0..3 {
    let mut it = strings(CLASSES, fl).peekable();
    while it.peek().is_some() {
      let chunk: Vec<Vec<u8>> = it
        .by_ref()
        .take(32)
        .map(|s| match frame {
          0 => s,
          1 => [b"fun @f() {\n%e:\n  ", s.as_slice(), b"\n  ret 1\n}\n"].concat(),
          _ => [b"fun @f(): i32 { // \xc3\xa9\n%e: /* \xe6\x97\xa5", s.as_slice(), b"\xff */ ret %x\n}"].concat(),
        })
        .collect();
      ctx.case(
        || chunk.iter().map(|x| show(x)).collect::<Vec<_>>().join("\n--\n"),
        |ctx| {
          for b in &chunk {
            guarded(|| file_read(ctx, b))
              .unwrap_or_else(|p| Err(format!("panic: {p}")))
              .map_err(|e| format!("{e}\nreading a file holding:\n{}", show(b)))?;
            ctx.note(hash64(b));
          }
          Ok(())
        },
      );
    }
  }
  // edits of seed programs, as buffer and as file
  for s in r#gen::seeds() {
    let t = render::tokens(&s);
    let al = alphabet(&t);
    edits(&t, &al, &mut |e| {
      if !ctx.mine_next() {
        ctx.skip();
        return;
      }
      let txt = render::join(&e).replace(" @", "\n @").into_bytes();
      ctx.case(|| show(&txt), |ctx| {
        ctx.note(hash64(&txt));
        file_read(ctx, &txt)
      });
    });
  }
  for t in texts() {
    ctx.case(|| t.clone(), |ctx| {
      ctx.note(hash64(t.as_bytes()));
      file_read(ctx, t.as_bytes())
    });
  }
  // a source that is gone or shorter by the time a diagnostic quotes it
  for t in ["foo", "\n\n  decl @f(i33)\n", "global @g = alloc\n\n\n\n\n\n\n\nfoo 1", "fun @f() {\n%e: %x = load @nope\n ret\n}"] {
    for mode in 0..3 {
      ctx.case(
        || format!("{t}\n(source file {})", ["absent", "empty", "a directory"][mode]),
        |ctx| {
          let path = ctx.dir.join(format!("gone.{}", std::process::id()));
          match mode {
            1 => std::fs::write(&path, "").unwrap(),
            2 => std::fs::create_dir(&path).unwrap(),
            _ => {}
          }
          let r = guarded(|| Driver::new(FileType::File(path.clone()), Cursor::new(t)).generate_program().is_ok());
          let _ = std::fs::remove_file(&path);
          let _ = std::fs::remove_dir(&path);
          match r {
            Ok(false) => Ok(()),
            Ok(true) => Err("accepted".into()),
            Err(p) => Err(format!("panic: {p}")),
          }
        },
      );
    }
  }
  // growth
  let sizes: Vec<usize> =
    if ctx.quick() { vec![0, 1, 2, 3, 7, 16, 50, 100, 127, 128, 129, 255, 256, 257, 1000, 3000, 20000] } else { (0..600).chain([1000, 3000, 10000, 20000, 65535, 65536, 100000]).collect() };
  for n in sizes {
    let fam = growing(if n > 0 { 1 } else { 0 }).len();
    for k in 0..fam {
      if !ctx.mine_next() {
        ctx.skip();
        continue;
      }
      let (what, t) = growing(n)[k].clone();
      // lookups are linear in the number of blocks, so keep chains moderate
      let t = if what.contains("across") && n > 3000 { "decl @f()".to_string() } else { t };
      ctx.case(
        || format!("{what}, size {n}: {}", t.chars().take(200).collect::<String>()),
        |ctx| {
          ctx.note(hash64(t.as_bytes()));
          if n <= 3000 {
            file_read(ctx, t.as_bytes())
          } else {
            drop(read(t.as_bytes()));
            Ok(())
          }
        },
      );
    }
  }
}

// ---- F02 ----

/// Every family of model programs, for the checks that work on programs.
pub fn programs(ctx: &Ctx, fun: bool, fwd: bool, out: r#gen::Out) {
  let th = ctx.thorough();
  for s in r#gen::seeds() {
    if fun || !format!("{s:?}").contains("Fun(") {
      out(&s);
    }
  }
  r#gen::globals(if th { 3 } else { 2 }, fun, out);
  r#gen::matrix(if th { 3 } else { 2 }, fun, out);
  r#gen::cfgs(1, &|_| 0, true, false, out);
  r#gen::cfgs(2, &|_| 1, true, false, out);
  r#gen::cfgs(3, &|_| 0, true, false, out);
  r#gen::cfgs(3, &|b| b, true, false, out);
  r#gen::cfgs(3, &|_| 1, false, false, out);
  if th {
    r#gen::cfgs(4, &|b| b % 2, true, false, out);
    r#gen::cfgs(4, &|_| 0, false, false, out);
    r#gen::cfgs(4, &|b| 2 - b % 3, true, true, out);
  } else {
    r#gen::cfgs(4, &|b| b % 2, true, true, out);
  }
  r#gen::lines(if th { 3 } else { 2 }, out);
  r#gen::calls(2, fwd, out);
  if th {
    r#gen::calls(3, fwd, out);
  }
  r#gen::sweeps(if th { 200 } else { 24 }, fun, out);
}

fn content(b: &[u8]) -> Result<Verdict, String> {
  judge(b, false, true)
}

fn f02(ctx: &mut Ctx) {
  let cp: *mut Ctx = ctx;
  // SAFETY: `programs` only reads the tier
  let c: &mut Ctx = unsafe { &mut *cp };
  let mut one = |m: &MProg| {
    if !c.mine_next() {
      c.skip();
      return;
    }
    let t = render::text(m);
    c.case(|| t.clone(), |ctx| {
      match content(t.as_bytes())? {
        Verdict::Accept(r) => {
          if let Some(d) = diff(&m.canon(), &r.canon()) {
            return Err(format!("ORACLE: the reference reader misreads a rendering: {d}"));
          }
          ctx.note(r.hash());
          ctx.count("accepted", 1);
        }
        Verdict::Unspecified(w) if w == "deep nesting" => {}
        v => return Err(format!("ORACLE: the reference reader says {v:?} to a valid program")),
      }
      Ok(())
    });
  };
  programs(ctx, true, false, &mut one);
  // names: whatever the rules say to each assignment
  let menu = [None, Some("@x"), Some("%x"), Some("%x_0"), Some("%y")];
  let menu = if ctx.quick() { &menu[..3] } else { &menu[..] };
  r#gen::names(menu, &mut |m, idx| {
    if !ctx.mine_next() {
      ctx.skip();
      return;
    }
    if idx[1] == 0 && idx[0] == 0 && menu.len() > 3 && idx.iter().all(|i| *i == 0) {}
    let t = render::text(m);
    ctx.case(|| t.clone(), |ctx| {
      if let Verdict::Accept(r) = content(t.as_bytes())? {
        ctx.note(r.hash());
        ctx.count("accepted", 1);
      }
      Ok(())
    });
  });
  for t in texts() {
    ctx.case(|| t.clone(), |ctx| {
      if let Verdict::Accept(r) = content(t.as_bytes())? {
        ctx.note(r.hash());
        ctx.count("accepted", 1);
      }
      Ok(())
    });
  }
  for t in words_and_integers() {
    if !ctx.mine_next() {
      ctx.skip();
      continue;
    }
    ctx.case(|| t.clone(), |ctx| {
      if let Verdict::Accept(r) = content(t.as_bytes())? {
        ctx.note(r.hash());
        ctx.count("accepted", 1);
      }
      Ok(())
    });
  }
  // accepted edits
  for s in r#gen::seeds() {
    let t = render::tokens(&s);
    let al = alphabet(&t);
    edits(&t, &al, &mut |e| {
      if !ctx.mine_next() {
        ctx.skip();
        return;
      }
      let txt = render::join(&e);
      ctx.case(|| txt.clone(), |ctx| {
        if let Verdict::Accept(r) = content(txt.as_bytes())? {
          ctx.note(r.hash());
          ctx.count("accepted", 1);
        }
        Ok(())
      });
    });
  }
}

/// Words close to those of the language and integers of all forms, everywhere.
fn words_and_integers() -> Vec<String> {
  let mut out = vec![];
  // words close to the words of the language, where each is needed
  let near = |w: &str| -> Vec<String> {
    let mut v = vec![w.to_string(), w.to_uppercase(), format!("{w}0"), format!("{w}_"), format!("_{w}"), format!("@{w}"), format!("%{w}"), format!("{w}{w}")];
    for i in 0..w.len() {
      v.push(format!("{}{}", &w[..i], &w[i + 1..]));
      v.push(format!("{}{}{}", &w[..i], w[i..i + 1].to_uppercase(), &w[i + 1..]));
      v.push(format!("{} {}", &w[..i], &w[i..]));
      v.push(format!("{}{}{}", &w[..i], &w[i..i + 1].repeat(2), &w[i + 1..]));
      if i > 0 {
        v.push(format!("{}{}{}{}", &w[..i - 1], &w[i..i + 1], &w[i - 1..i], &w[i + 1..]));
        v.push(w[..i].to_string());
      }
    }
    v
  };
  for op in crate::model::BINOPS {
    for n in near(op) {
      for (a, b) in [("@p", "1"), ("1", "@p"), ("@p", "@p"), ("-1", "undef"), ("@q", "1"), ("1", "@q"), ("@q", "@q"), ("@f", "1")] {
        out.push(format!("fun @f(@p: i32, @q: *i32): i32 {{ %e: %x = {n} {a}, {b} ret %x }}"));
      }
      out.push(format!("fun @f(@p: i32) {{ %e: {n} @p, 1 ret\n}}"));
    }
  }
  const FULL: &str = "decl @d() global @g = alloc i32 , zeroinit global @u = alloc i32 , undef fun @f(@p: i32): i32 { %e: %a = alloc i32 store @p , %a %b = load %a %c = getelemptr @h , 1 %d = getptr %a , 1 call @d() br %b , %t , %u %t: jump %u %u: ret %b } global @h = alloc [ i32 , 2 ] , zeroinit";
  let full: Vec<&str> = FULL.split(' ').collect();
  for (i, w) in full.iter().enumerate() {
    if w.bytes().next().is_some_and(|c| c.is_ascii_alphabetic()) && w.bytes().all(|c| c.is_ascii_alphanumeric()) {
      for n in near(w) {
        let mut v = full.clone();
        v[i] = &n;
        // values must be defined before their uses, globals too
        let k = v.iter().rposition(|w| *w == "@h").unwrap() - 1;
        let t = [&v[k..], &v[..k]].concat().join(" ");
        out.push(t);
      }
    }
  }
  // names of all forms and lengths, wherever there is one
  let mut syms: Vec<String> = vec![];
  for d in ["0", "1", "7", "9", "10", "19", "99", "255", "256", "999", "1000", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775808", "18446744073709551616"] {
    syms.extend([format!("%{d}"), format!("%0{d}"), format!("@{d}"), format!("%{d}a"), format!("%{d}_"), format!("@a{d}"), format!("%a{d}"), format!("@_{d}"), format!("%x_{d}")]);
  }
  for n in (1..70).chain([99, 127, 128, 129, 254, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 4096]) {
    syms.extend([format!("%{}", "7".repeat(n)), format!("@{}", "n".repeat(n)), format!("%{}", "N_".repeat(n)), format!("@_{}9", "0".repeat(n))]);
  }
  for c in 33..127u8 {
    let c = c as char;
    syms.extend([format!("@{c}"), format!("%{c}"), format!("@a{c}"), format!("%a{c}b"), format!("%1{c}"), format!("{c}a")]);
  }
  syms.extend(["@i32", "%ret", "@fun", "%add", "@", "%", "@@", "%%", "@%a", "%@a", "@ a", "% 1", "@a b", "@-1", "%-1"].map(String::from));
  syms.retain(|s| !["@p", "@q", "@o", "@m", "%e"].contains(&s.as_str()));
  for y in &syms {
    for t in [
      "global # = alloc i32, 1 fun @f(): i32 { %e: %x = load # ret %x }",
      "fun #() { %e: ret\n} fun @o() { %e: call #() ret\n}",
      "decl #(i32): i32 fun @o(): i32 { %e: %x = call #(1) ret %x }",
      "fun @f(#: i32): i32 { %e: ret # }",
      "fun @f() { #: ret\n}",
      "fun @f() { %e: br 1, #, %e2 #: ret\n%e2: jump # }",
      "fun @f() { %e: jump #\n #: ret\n}",
      "fun @f(): i32 { %e: jump %j(3) %j(#: i32): ret # }",
      "fun @f(): i32 { %e: # = add 1, 2 ret # }",
      "fun @f(@p: *i32, @q: *[i32, 2]) { %e: # = getptr @p, 1 store 1, # %m = load # %k = getptr #, %m ret\n}",
    ] {
      out.push(t.replace('#', y));
    }
  }
  // integers wherever one is read
  let mut ints: Vec<String> = vec![];
  for v in (-20..=20).chain([31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 32767, 32768, 65535, 65536, 65537, 99999, 999999999, 1000000000, 1000000001, 2147483646, 2147483647, -32768, -65536, -99, -100, -2147483647, -2147483648, -1000000000]) {
    ints.push(v.to_string());
    if v >= 0 {
      ints.extend([format!("0{v}"), format!("00{v}"), format!("+{v}"), format!("--{v}"), format!("-0{v}"), format!("- {v}"), format!("{v}0"), format!("0x{v}"), format!("{v}e1"), format!("{v}_0"), format!("{v}.0")]);
    }
  }
  ints.extend(["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999999", "0b1", "1u", "1i32", "-", "+"].map(String::from));
  for i in &ints {
    for t in [
      "global @g = alloc i32, #",
      "global @g = alloc [i32, 2], {#, 0}",
      "global @g = alloc [[i32, 1], 2], {{#}, {1}}",
      "global @g = alloc [i32, #], zeroinit",
      "decl @f(*[i32, #])",
      "fun @f(): i32 { %e: ret #\n}",
      "fun @f(): i32 { %e: %x = add #, 1 ret %x }",
      "fun @f(): i32 { %e: %x = add 1, #\n ret %x }",
      "fun @f(@p: *i32) { %e: store #, @p ret\n}",
      "fun @f(@p: *[i32, 2]) { %e: store {1, #}, @p ret\n}",
      "fun @f(@p: *i32) { %e: %x = getptr @p, #\n ret\n}",
      "fun @f(@p: *[i32, 2]) { %e: %x = getelemptr @p, #\n ret\n}",
      "fun @f() { %e: call @f2(1, #) ret\n} ",
      "fun @f() { %e: jump %a(#) %a(%x: i32): ret\n}",
      "fun @f() { %e: br #, %a, %b(1, #) %a: ret\n%b(%x: i32, %y: i32): ret\n}",
    ] {
      let t = t.replace('#', i);
      out.push(if t.contains("@f2") { format!("decl @f2(i32, i32) {t}") } else { t });
    }
  }
  out
}

// ---- F03 ----

fn verdict(b: &[u8]) -> Result<Verdict, String> {
  judge(b, true, false)
}

fn one_text(ctx: &mut Ctx, t: String) {
  ctx.case(|| t.clone(), |ctx| {
    match verdict(t.as_bytes())? {
      Verdict::Accept(_) => ctx.count("accepted", 1),
      Verdict::Reject(Why::Syntax(..)) => ctx.count("rejected_syntax", 1),
      Verdict::Reject(Why::Rule(_)) => ctx.count("rejected_rule", 1),
      Verdict::Unspecified(_) => {
        ctx.count("unspecified", 1);
        return Ok(());
      }
    }
    ctx.note(hash64(t.as_bytes()));
    Ok(())
  });
}

fn f03(ctx: &mut Ctx) {
  // every family of well-formed programs
  let cp: *mut Ctx = ctx;
  // SAFETY: `programs` only reads the tier
  let c: &mut Ctx = unsafe { &mut *cp };
  programs(ctx, true, false, &mut |m| {
    if c.mine_next() {
      one_text(c, render::text(m));
    } else {
      c.skip();
    }
  });
  for t in texts() {
    one_text(ctx, t.clone());
    for (a, b) in surroundings() {
      one_text(ctx, format!("{a}{t}{b}"));
    }
  }
  for s in r#gen::seeds() {
    let t = render::tokens(&s);
    let al = alphabet(&t);
    edits(&t, &al, &mut |e| {
      if ctx.mine_next() {
        one_text(ctx, flat(&e));
      } else {
        ctx.skip();
      }
    });
  }
  // edits in surroundings
  for s in &r#gen::seeds()[1..4] {
    let t = render::tokens(s);
    let al = alphabet(&t);
    for (a, b) in surroundings() {
      edits(&t, &al, &mut |e| {
        if ctx.mine_next() {
          one_text(ctx, format!("{a}{}{b}", flat(&e)));
        } else {
          ctx.skip();
        }
      });
    }
  }
  // two symbols exchanged for others anywhere
  for (k, s) in r#gen::seeds().iter().enumerate() {
    if ctx.quick() && k == 0 {
      continue;
    }
    let t = render::tokens(s);
    let sy: Vec<usize> = (0..t.len()).filter(|i| t[*i].s.starts_with(['@', '%']) || t[*i].s.bytes().all(|c| c.is_ascii_digit())).collect();
    let al: Vec<String> = alphabet(&t).into_iter().filter(|a| a.starts_with(['@', '%']) || a == "1" || a == "undef").collect();
    for (n, i) in sy.iter().enumerate() {
      for j in &sy[n + 1..] {
        for a in &al {
          for b in &al {
            if ctx.mine_next() {
              let mut e = t.clone();
              e[*i].s = a.clone();
              e[*j].s = b.clone();
              one_text(ctx, flat(&e));
            } else {
              ctx.skip();
            }
          }
        }
      }
    }
  }
  // all token sequences up to a length, alone and as a statement sequence
  const A: [&str; 26] = [
    "global", "fun", "decl", "@a", "%b", "=", "alloc", "i32", ",", "1", "zeroinit", "(", ")", ":", "{", "}", "[", "]", "*", "ret", "jump", "load",
    "call", "add", "store", "undef",
  ];
  let l = ctx.pick(4, 5);
  let mut it = (1..=l).flat_map(|n: u32| {
    (0..A.len().pow(n)).map(move |mut c| {
      let mut s = String::new();
      for _ in 0..n {
        s += A[c % A.len()];
        s.push(' ');
        c /= A.len();
      }
      s.into_bytes()
    })
  });
  batch(ctx, &mut it, 256, verdict);
  // statements: every sequence in a body
  const B: [&str; 17] =
    ["%x", "%y", "@g", "=", "alloc", "i32", "load", "store", ",", "1", "add", "ret", "\n", "call", "@f", "(", ")"];
  let l = ctx.pick(4, 6);
  let mut it = (1..=l).flat_map(|n: u32| {
    (0..B.len().pow(n)).map(move |mut c| {
      let mut s = String::from("global @g = alloc i32, 1 fun @f(%y: i32): i32 { %e: ");
      for _ in 0..n {
        s += B[c % B.len()];
        s.push(' ');
        c /= B.len();
      }
      s += " ret %y }";
      s.into_bytes()
    })
  });
  batch(ctx, &mut it, 256, verdict);
  for t in words_and_integers() {
    one_text(ctx, t);
  }
  // types and initializers: every pair of a type and an initializer
  let tys = r#gen::types(2, true);
  let mut inits: Vec<String> = vec!["0".into(), "-1".into(), "undef".into(), "zeroinit".into()];
  let base = inits.clone();
  for n in 1..=4 {
    for e in &base {
      inits.push(format!("{{{}}}", vec![e.as_str(); n].join(", ")));
    }
  }
  for n in 1..=3 {
    for m in 1..=3 {
      inits.push(format!("{{{}}}", vec![format!("{{{}}}", vec!["1"; m].join(", ")); n].join(", ")));
      inits.push(format!("{{{}, {}}}", format!("{{{}}}", vec!["1"; m].join(", ")), vec!["zeroinit"; n].join(", ")));
      inits.push(format!("{{{}, {}}}", vec!["2"; n].join(", "), format!("{{{}}}", vec!["1"; m].join(", "))));
    }
  }
  for t in &tys {
    for i in &inits {
      one_text(ctx, format!("global @g = alloc {t}, {i}"));
      one_text(ctx, format!("fun @f(@p: *{t}) {{ %e: store {i}, @p ret\n}}"));
    }
    // every operand type at every instruction
    for st in [
      "%x = load @v",
      "store @v, @p",
      "store @v, @pp",
      "store 1, @v",
      "store undef, @v",
      "%x = getptr @v, 1",
      "%x = getptr @p, @v",
      "%x = getelemptr @v, 1",
      "%x = getelemptr @p, @v",
      "%x = add @v, 1",
      "%x = sar 1, @v",
      "call @t(@v)",
      "call @i(@v)",
      "call @t(1)",
      "%x = call @t(@v)",
      "%x = call @i(@v)",
    ] {
      one_text(
        ctx,
        format!("decl @t({t}): {t} decl @i(i32) fun @f(@v: {t}, @p: *{t}, @pp: **{t}) {{ %e: {st} ret\n}}"),
      );
    }
    for term in ["br @v, %n, %m", "jump %k(@v)", "jump %l(@v)", "br 1, %k(@v), %n", "br 1, %n, %l(@v)", "jump %l(undef)", "jump %l(1)"] {
      one_text(
        ctx,
        format!("fun @f(@v: {t}): i32 {{ %e: {term} %n: ret 1 %m: jump %k(1) %k(%a: i32): ret %a %l(%b: {t}): ret 2 }}"),
      );
    }
    for r in ["ret @v", "ret 1", "ret undef", "ret\n"] {
      one_text(ctx, format!("fun @f(@v: {t}): {t} {{ %e: {r} }}"));
      one_text(ctx, format!("fun @f(@v: {t}) {{ %e: {r} }}"));
    }
  }
  // numbers of arguments against numbers of parameters
  for n in 0..5usize {
    for m in 0..5usize {
      let ps = vec!["i32"; n].join(", ");
      let qs: Vec<String> = (0..n).map(|i| format!("%q{i}: i32")).collect();
      let a = vec!["1"; m].join(", ");
      for st in [
        format!("decl @d({ps}) fun @f() {{ %e: call @d({a}) ret\n}}"),
        format!("decl @d({ps}): i32 fun @f(): i32 {{ %e: %r = call @d({a}) ret %r }}"),
        format!("fun @f() {{ %e: jump %b({a}) %b({}): ret\n}}", qs.join(", ")),
        format!("fun @f() {{ %e: br 1, %b({a}), %c %b({}): ret\n%c: ret\n}}", qs.join(", ")),
        format!("fun @f() {{ %e: br 1, %c, %b({a}) %b({}): ret\n%c: ret\n}}", qs.join(", ")),
        format!("fun @f() {{ %e: br 1, %b({a}), %b({a}) %b({}): ret\n}}", qs.join(", ")),
      ] {
        one_text(ctx, st);
      }
    }
  }
  // control flow: every graph, with a definition in each block and a use of
  // every other block's definition in each
  let nb = 4usize;
  let opts: Vec<Vec<usize>> = {
    let mut o = vec![vec![]];
    for a in 0..nb {
      o.push(vec![a]);
    }
    for a in 1..nb {
      for b in 0..nb {
        o.push(vec![a, b]);
      }
    }
    o
  };
  let total = opts.len().pow(nb as u32);
  for code in 0..total {
    if ctx.quick() && code % 7 != 0 {
      continue;
    }
    for u in 0..nb {
      if !ctx.mine_next() {
        ctx.skip();
        continue;
      }
      let mut c = code;
      let mut s = String::from("fun @f(@x: i32): i32 { ");
      for b in 0..nb {
        let o = &opts[c % opts.len()];
        c /= opts.len();
        s += &format!("%b{b}: ");
        if b == nb - 1 || b == u {
          s += &format!("%u{b} = add %v{u}, 1 ");
        }
        s += &format!("%v{b} = add @x, {b} ");
        s += &match o.len() {
          0 => format!("ret %v{b} "),
          1 => format!("jump %b{} ", o[0]),
          _ => format!("br @x, %b{}, %b{} ", o[0], o[1]),
        };
      }
      s += "}";
      one_text(ctx, s);
    }
  }
  let _ = sys::HASH_SEED;
}

// ---- F04 ----

fn both(b: &[u8]) -> Result<Verdict, String> {
  judge(b, true, true)
}

fn f04(ctx: &mut Ctx) {
  let seps: Vec<String> = {
    let mut v: Vec<String> =
      ["", " ", "\t", "\n", "\r", "\r\n", "\u{b}", "\u{c}", "  ", "\n\n", "/**/", "/***/", "/* x */", "/*/*/", "/*//*/", "/* // */", "/* * / */", "/*\n*/", "/*\r*/", "//\n", "//x\n", "// /* \n", "//*/\n", "//\r", "//x\r\n", "/**//**/", " /**/ ", "//\n//\n", "/* caf\u{e9} \u{65e5} */", "// \u{e9}\n", "/*@a ret 1*/", "// ret\n", "/*\0*/", "/***x***/"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    v.push(format!("/*{}*/", "x".repeat(300)));
    v.push(" ".repeat(300));
    v
  };
  let check = |ctx: &mut Ctx, t: String| {
    ctx.case(|| show(t.as_bytes()), |ctx| {
      match both(t.as_bytes())? {
        Verdict::Accept(_) => ctx.count("accepted", 1),
        Verdict::Reject(_) => ctx.count("rejected", 1),
        Verdict::Unspecified(_) => ctx.count("unspecified", 1),
      }
      ctx.note(hash64(t.as_bytes()));
      Ok(())
    })
  };
  let seeds = r#gen::seeds();
  for s in &seeds {
    let t = render::tokens(s);
    // one separator everywhere (with the breaks ret needs)
    for sep in &seps {
      let mut o = String::new();
      for k in &t {
        o += &k.s;
        o += sep;
        if k.next == 2 && !sep.contains('\n') {
          o.push('\n');
        }
      }
      check(ctx, o.clone());
      check(ctx, format!("{sep}{o}"));
      check(ctx, o.trim_end().to_string());
    }
    // each separator in each gap; the other gaps hold a blank
    for g in 0..t.len() {
      for sep in &seps {
        if !ctx.mine_next() {
          ctx.skip();
          continue;
        }
        let mut o = String::new();
        for (i, k) in t.iter().enumerate() {
          o += &k.s;
          if i == g {
            o += sep;
          } else {
            o.push(if k.next == 2 { '\n' } else { ' ' });
          }
        }
        check(ctx, o);
      }
    }
  }
  // pairs of gaps in a small program
  let t = render::tokens(&seeds[1]);
  let few = &seps[..];
  for g in 0..t.len() {
    for h in g + 1..t.len() {
      for a in few {
        for b in few {
          if !ctx.mine_next() {
            ctx.skip();
            continue;
          }
          let mut o = String::new();
          for (i, k) in t.iter().enumerate() {
            o += &k.s;
            if i == g {
              o += a;
            } else if i == h {
              o += b;
            } else {
              o.push(' ');
            }
          }
          check(ctx, o);
        }
      }
    }
  }
  // every short string over the characters that matter, in one gap
  const C: &[u8] = b"/* \nx\r";
  let l = ctx.pick(6, 7);
  let mut it = strings(C, l).flat_map(|s| {
    let s = String::from_utf8(s).unwrap();
    [
      format!("decl @f(){s}decl @g()"),
      format!("fun @f(): i32 {{ %e: ret{s}1 }}"),
      format!("fun @f() {{ %e: ret{s}\n}}"),
      format!("decl @f(i32{s}): i32"),
      format!("decl @f(){s}"),
    ]
    .map(|t| t.into_bytes())
  });
  batch(ctx, &mut it, 128, both);
  // which neighbours need no space: every pair of tokens, glued and apart
  let al: Vec<String> = {
    let mut v: Vec<String> = PUNCT.iter().chain(&WORDS).map(|s| s.to_string()).collect();
    v.extend(["@a", "%b", "%0", "%12", "0", "12", "-3", "add", "@_", "@a_1", "-0", "00"].map(String::from));
    v
  };
  for a in &al {
    for b in &al {
      for sep in ["", " "] {
        for (x, y) in [("", ""), ("decl @f() ", " decl @g()"), ("fun @f(): i32 { %e: %x = add ", ", 1 ret %x }"), ("global @g = alloc ", ", 1"), ("global @g = alloc i32, ", ""), ("fun @f(", ": i32) { %e: ret\n}")] {
          check(ctx, format!("{x}{a}{sep}{b}{y}"));
        }
      }
    }
  }
}
