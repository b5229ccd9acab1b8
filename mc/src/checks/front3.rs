//! F09 and F10: tokens and syntax trees, by way of the public lexer and parser.
use super::front::{PUNCT, WORDS, alphabet, edits, programs, show, texts};
use super::front2::lay;
use crate::model::*;
use crate::reftext::{self, K};
use crate::render::{self, Tok};
use crate::sup::{CheckDef, Ctx, hash64};
use crate::{r#gen, reftree};
use koopa::front::ast::{Ast, AstBox, AstKind};
use koopa::front::lexer::Lexer;
use koopa::front::parser::Parser;
use koopa::front::span::{FileType, Span};
use koopa::front::token::{Keyword, TokenKind};
use std::io::Cursor;

pub fn defs() -> Vec<CheckDef> {
  vec![
    CheckDef {
      id: "F09",
      level: "exploration",
      rule: "every byte string up to a length over an alphabet of byte classes, every pair of vocabulary words with every separator, and every one-byte edit of every word, token by token against the reference lexer; distinct = distinct texts compared",
      run: f09,
      assumptions: &["the reference lexer (reftext.rs) states the lexical rules; texts with bytes outside ASCII outside comments are left to F01"],
    },
    CheckDef {
      id: "F10",
      level: "exploration",
      rule: "enumerated programs in several layouts, and every single-token edit of one definition among others, parsed definition by definition against reference syntax trees; distinct = distinct texts compared",
      run: f10,
      assumptions: &["the reference trees (reftree.rs) state the grammar"],
    },
  ]
}

// ---- F09 ----

fn keyword(w: &str) -> Keyword {
  match w {
    "i32" => Keyword::I32,
    "undef" => Keyword::Undef,
    "zeroinit" => Keyword::ZeroInit,
    "global" => Keyword::Global,
    "alloc" => Keyword::Alloc,
    "load" => Keyword::Load,
    "store" => Keyword::Store,
    "getptr" => Keyword::GetPtr,
    "getelemptr" => Keyword::GetElemPtr,
    "br" => Keyword::Br,
    "jump" => Keyword::Jump,
    "call" => Keyword::Call,
    "ret" => Keyword::Ret,
    "fun" => Keyword::Fun,
    "decl" => Keyword::Decl,
    w => panic!("no keyword {w}"),
  }
}

/// The tokens of a text, with lexing going on behind the next blank after a
/// token that is none. `None`: the meaning is not fixed.
fn pieces(b: &[u8]) -> Option<Vec<reftext::T>> {
  let mut out: Vec<reftext::T> = vec![];
  let (mut from, mut line, mut col) = (0usize, 1u32, 1u32);
  loop {
    for mut t in reftext::lex(&b[from..]).ok()? {
      if t.line == 1 {
        t.col += col - 1;
      }
      t.line += line - 1;
      t.start += from;
      t.end += from;
      out.push(t);
    }
    let t = out.last().unwrap();
    if t.k == K::End {
      return Some(out);
    }
    let rest = &b[t.start..];
    let n = if rest.starts_with(b"/*") {
      rest.len()
    } else {
      rest.iter().position(|c| matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0x0b | 0x0c)).unwrap_or(rest.len())
    };
    if !rest[..n].is_ascii() {
      return None;
    }
    (from, line, col) = (t.start + n, t.line, t.col + n as u32);
    if rest.starts_with(b"/*") {
      let l = 1 + rest.iter().filter(|c| **c == b'\n').count() as u32;
      out.push(reftext::T { k: K::End, line: line + l - 1, col: 0, start: b.len(), end: b.len() });
      return Some(out);
    }
  }
}

/// Every token the lexer yields for a text against the reference.
fn lexed(b: &[u8]) -> Result<bool, String> {
  let Some(want) = pieces(b) else { return Ok(false) };
  Span::reset(FileType::Buffer);
  let mut lexer = Lexer::new(Cursor::new(b));
  let last = want.len() - 1;
  for (i, w) in want.iter().chain([&want[last]; 2]).enumerate() {
    let at = || format!("token {} of {:?}", i + 1, show(b));
    let got = match lexer.next_token() {
      Ok(t) => t,
      Err(e) => {
        if e.is_fatal() {
          return Err(format!("{}: a fatal error", at()));
        }
        if w.k != K::Bad {
          return Err(format!("{}: a fault where there is {:?}", at(), w.k));
        }
        continue;
      }
    };
    let kind = match &w.k {
      K::Int(n) => TokenKind::Int(*n),
      K::Sym(s) => TokenKind::Symbol(s.clone()),
      K::Word(s) => TokenKind::Keyword(keyword(s)),
      K::Op(o) => TokenKind::BinaryOp(crate::extract::OPS[*o]),
      K::Ch(c) => TokenKind::Other(*c as char),
      K::End => TokenKind::End,
      K::Bad => return Err(format!("{}: {:?} where no token is", at(), got.kind)),
    };
    if got.kind != kind {
      return Err(format!("{}: {:?} instead of {:?}", at(), got.kind, kind));
    }
    let place = format!("{:?}", got.span);
    let (want, place) = match w.k {
      // where the text ends within its last line is not fixed
      K::End => (w.line.to_string(), place.split(':').next().unwrap_or("").to_string()),
      _ => (format!("{l}:{}-{l}:{}", w.col, w.col + (w.end - w.start) as u32 - 1, l = w.line), place),
    };
    if want != place {
      return Err(format!("{}: its place is {place} instead of {want}", at()));
    }
    if matches!(w.k, K::Sym(_) | K::Word(_) | K::Op(_) | K::Ch(_)) {
      let own = std::str::from_utf8(&b[w.start..w.end]).unwrap();
      let d = format!("{}", got.kind);
      if !d.contains(&format!("'{own}'")) {
        return Err(format!("{}: {own} is called {d:?} in messages", at()));
      }
    }
  }
  let bad = want.iter().filter(|t| t.k == K::Bad).count();
  if Span::error_num() != bad {
    return Err(format!("{} errors counted for {bad} faults in {:?}", Span::error_num(), show(b)));
  }
  Ok(true)
}

fn lexed_all(ctx: &mut Ctx, name: impl Fn() -> String, it: impl Iterator<Item = Vec<u8>>) {
  ctx.case(name, |ctx| {
    for t in it {
      if lexed(&t).map_err(|e| format!("{e}\n{}", show(&t)))? {
        ctx.note(hash64(&t));
        ctx.count("texts", 1);
      }
      ctx.beat();
    }
    Ok(())
  });
}

fn f09(ctx: &mut Ctx) {
  const CLASSES: &[u8] = b"@%-019ai3_/* \n\r(#\x0b";
  let n = CLASSES.len();
  let depth = ctx.pick(5usize, 6);
  for len in 0..=depth {
    let tail = len.min(3);
    for head in 0..n.pow((len - tail) as u32) {
      let prefix: Vec<u8> = (0..len - tail).map(|i| CLASSES[head / n.pow(i as u32) % n]).collect();
      lexed_all(
        ctx,
        || format!("{:?} and {tail} more", show(&prefix)),
        (0..n.pow(tail as u32)).map(|k| {
          let mut s = prefix.clone();
          s.extend((0..tail).map(|i| CLASSES[k / n.pow(i as u32) % n]));
          s
        }),
      );
    }
  }
  // every byte next to every other
  let bytes = ctx.pick(2u32, 3);
  for a in 0..128u8 {
    lexed_all(
      ctx,
      || format!("{:?} and {} more", show(&[a]), bytes - 1),
      (0..128usize.pow(bytes - 1)).map(|k| (0..bytes).map(|i| if i == 0 { a } else { (k >> (7 * (i - 1)) & 127) as u8 }).collect()),
    );
  }
  let mut vocab: Vec<String> = WORDS.iter().chain(BINOPS.iter()).chain(&PUNCT).map(|s| s.to_string()).collect();
  let words = vocab.clone();
  vocab.extend(
    ["0", "1", "-1", "007", "-0", "-", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "@", "%", "@a", "%a", "@_", "%_1", "@0", "%0", "%01", "%10", "%1a", "@a_b", "@A9", "foo", "I32", "i33", "/", "//", "/*", "*/", "/**/", "/***/", "/*/", "// x", "\0", "\u{7f}", "$", ";", "."]
      .map(String::from),
  );
  let seps = ["", " ", "\n", "\t", "\r", "\r\n", "\u{b}", "\u{c}", "/**/", "/*\n*/", "//\n", "//\r", "/* * / */", "\n\n ", "_", "\0"];
  for a in &vocab {
    for s in seps {
      let deep = ctx.thorough();
      let it = vocab.iter().flat_map(|b| {
        let mut v = vec![format!("{a}{s}{b}").into_bytes(), format!("\n  {a}{s}{b}\n").into_bytes()];
        if deep {
          for c in &vocab {
            for t in ["", " ", "\n"] {
              v.push(format!("{a}{s}{b}{t}{c}").into_bytes());
            }
          }
        }
        v
      });
      lexed_all(ctx, || format!("{a:?} {s:?} and another"), it);
    }
  }
  // every word with one byte more, less, or different
  const LETTERS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-@% ";
  for w in &words {
    let w = w.as_bytes();
    let mut v = vec![w.to_vec()];
    for i in 0..=w.len() {
      if i < w.len() {
        let mut x = w.to_vec();
        x.remove(i);
        v.push(x);
      }
      for c in LETTERS {
        let mut x = w.to_vec();
        x.insert(i, *c);
        v.push(x);
        if i < w.len() {
          let mut x = w.to_vec();
          x[i] = *c;
          v.push(x);
        }
      }
    }
    lexed_all(ctx, || format!("edits of {}", show(w)), v.into_iter());
  }
  // long tokens, and tokens far from the start
  for n in [1usize, 2, 9, 10, 15, 16, 17, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537] {
    let s = "a".repeat(n);
    let v = [
      format!("@{s} fun"),
      format!("%{s}_ fun"),
      format!("%{} fun", "1".repeat(n)),
      format!("{}1 fun", "0".repeat(n)),
      format!("{s} fun"),
      format!("{}fun @a\n1", " ".repeat(n)),
      format!("{}fun @a\n1", "\n".repeat(n)),
      format!("/*{}*/fun @a\n1", "*".repeat(n)),
      format!("//{s}\nfun @a\n1"),
      "( ".repeat(n),
      "@0 ".repeat(n.min(300)),
      "#".repeat(n),
    ];
    lexed_all(ctx, || format!("{n} of a kind"), v.into_iter().map(String::into_bytes));
  }
}

// ---- F10 ----

fn kids(o: &mut String, v: &[(&str, &AstBox)]) {
  if !v.is_empty() {
    o.push_str(" {");
    for (k, c) in v {
      o.push(' ');
      o.push_str(k);
      o.push_str(": ");
      tree(c, o);
    }
    o.push_str(" }");
  }
}

/// A tree in the notation of `reftree::show`; `!` marks a fault.
fn tree(a: &Ast, o: &mut String) {
  let sp = &a.span;
  let node = |o: &mut String, kind: &str, label: &str, v: &[(&str, &AstBox)]| {
    *o += &format!("{kind} {label} {sp:?}");
    kids(o, v);
  };
  fn all<'a>(k: &'a str, v: &'a [AstBox]) -> Vec<(&'a str, &'a AstBox)> {
    v.iter().map(|x| (k, x)).collect()
  }
  fn ret<'a>(mut v: Vec<(&'a str, &'a AstBox)>, r: &'a Option<AstBox>) -> Vec<(&'a str, &'a AstBox)> {
    v.extend(r.iter().map(|r| ("result", r)));
    v
  }
  match &a.kind {
    AstKind::IntType(_) => node(o, "i32", "", &[]),
    AstKind::ArrayType(t) => node(o, "array", &t.len.to_string(), &[("", &t.base)]),
    AstKind::PointerType(t) => node(o, "pointer", "", &[("", &t.base)]),
    AstKind::FunType(t) => node(o, "function type", "", &ret(all("", &t.params), &t.ret)),
    AstKind::SymbolRef(s) => node(o, "symbol", &s.symbol, &[]),
    AstKind::IntVal(i) => node(o, "int", &i.value.to_string(), &[]),
    AstKind::UndefVal(_) => node(o, "undef", "", &[]),
    AstKind::Aggregate(g) => node(o, "aggregate", "", &all("", &g.elems)),
    AstKind::ZeroInit(_) => node(o, "zeroinit", "", &[]),
    AstKind::SymbolDef(d) => node(o, "definition", &d.name, &[("", &d.value)]),
    AstKind::GlobalDef(d) => node(o, "global", &d.name, &[("", &d.value)]),
    AstKind::MemDecl(d) => node(o, "alloc", "", &[("", &d.ty)]),
    AstKind::GlobalDecl(d) => node(o, "global alloc", "", &[("", &d.ty), ("", &d.init)]),
    AstKind::Load(l) => node(o, "load", &l.symbol, &[]),
    AstKind::Store(s) => node(o, "store", &s.symbol, &[("", &s.value)]),
    AstKind::GetPointer(g) => node(o, "getptr", &g.symbol, &[("", &g.value)]),
    AstKind::GetElementPointer(g) => node(o, "getelemptr", &g.symbol, &[("", &g.value)]),
    AstKind::BinaryExpr(b) => {
      let i = crate::extract::OPS.iter().position(|x| *x == b.op).unwrap();
      node(o, "binary", BINOPS[i], &[("", &b.lhs), ("", &b.rhs)])
    }
    AstKind::Branch(b) => {
      let mut v = vec![("condition", &b.cond)];
      v.extend(all("true", &b.targs));
      v.extend(all("false", &b.fargs));
      node(o, "br", &format!("{} {}", b.tbb, b.fbb), &v)
    }
    AstKind::Jump(j) => node(o, "jump", &j.target, &all("", &j.args)),
    AstKind::FunCall(c) => node(o, "call", &c.fun, &all("", &c.args)),
    AstKind::Return(r) => node(o, "ret", "", &r.value.iter().map(|v| ("", v)).collect::<Vec<_>>()),
    AstKind::FunDef(f) => {
      let v = f.params.iter().map(|(n, t)| (n.as_str(), t)).collect();
      let mut v = ret(v, &f.ret);
      v.extend(all("", &f.bbs));
      node(o, "fun", &f.name, &v)
    }
    AstKind::Block(b) => {
      let mut v: Vec<_> = b.params.iter().map(|(n, t)| (n.as_str(), t)).collect();
      v.extend(all("", &b.stmts));
      node(o, "block", &b.name, &v)
    }
    AstKind::FunDecl(f) => node(o, "decl", &f.name, &ret(all("", &f.params), &f.ret)),
    AstKind::End(_) => node(o, "end", "", &[]),
    AstKind::Error(_) => node(o, "!", "", &[]),
  }
}

/// The trees of all definitions of a text, each with the place where it
/// begins, and the number of errors. `None`: the parser could not begin.
#[allow(clippy::type_complexity)]
fn trees(b: &[u8], most: usize) -> Result<Option<(Vec<((u32, u32), String)>, usize)>, String> {
  Span::reset(FileType::Buffer);
  let Ok(mut p) = Parser::new(Lexer::new(Cursor::new(b))) else { return Ok(None) };
  let mut v = vec![];
  loop {
    let a = match p.parse_next() {
      Ok(a) => a,
      Err(_) => return Err("a fault ends the parsing".into()),
    };
    if let AstKind::End(_) = a.kind {
      return Ok(Some((v, Span::error_num())));
    }
    if v.len() > most {
      return Err("the parser does not come to an end".into());
    }
    let mut s = String::new();
    tree(&a, &mut s);
    let at = format!("{:?}", a.span);
    let at = at.split('-').next().and_then(|p| p.split_once(':')).and_then(|(l, c)| Some((l.parse().ok()?, c.parse().ok()?)));
    v.push((at.ok_or("no place")?, s));
  }
}

fn differ(want: &str, got: &str) -> String {
  let n = want.bytes().zip(got.bytes()).take_while(|(a, b)| a == b).count();
  let cut = |s: &str| -> String {
    let from = n.saturating_sub(60);
    s.chars().skip(from).take(160).collect()
  };
  format!("want ...{}\n got ...{}", cut(want), cut(got))
}

/// All of a text that is one.
fn parsed(b: &[u8]) -> Result<bool, String> {
  let Some((t, nodes, ok)) = reftree::items(b) else { return Ok(false) };
  let got = trees(b, t.len() + 1)?;
  if !ok {
    return match got {
      Some((_, 0)) => Err("a text with a fault is parsed without an error".into()),
      _ => Ok(true),
    };
  }
  let Some((got, errs)) = got else { return Err("a faultless text is not parsed".into()) };
  if errs != 0 {
    return Err(format!("{errs} errors in a faultless text"));
  }
  if got.len() != nodes.len() {
    return Err(format!("{} definitions instead of {}", got.len(), nodes.len()));
  }
  for (n, (_, g)) in nodes.iter().zip(&got) {
    let mut w = String::new();
    reftree::show(n, &t, &mut w);
    if w != *g {
      return Err(format!("the tree of a definition is not the one written\n{}", differ(&w, g)));
    }
  }
  Ok(true)
}

/// A text made of three parts of which the second may be anything: all trees
/// of the first and the last.
fn around(pre: &str, mid: &str, post: &str) -> Result<(), String> {
  let text = format!("{pre}\n{mid}\n{post}\n");
  let lines = |s: &str| s.bytes().filter(|c| *c == b'\n').count() as u32;
  let (l1, l2) = (lines(pre) + 2, lines(pre) + lines(mid) + 3);
  let Some((got, errs)) = trees(text.as_bytes(), text.len() + 1)? else { return Err("the parser cannot begin".into()) };
  let faultless = matches!(reftree::items(text.as_bytes()), Some((_, _, true)));
  if faultless != (errs == 0) {
    return Err(format!("{errs} errors, but the text is {}", if faultless { "faultless" } else { "faulty" }));
  }
  for (part, from, to, shift) in [(pre, 0, l1, 0), (post, l2, u32::MAX, l2 - 1)] {
    let Some((t, nodes, true)) = reftree::items(part.as_bytes()) else { panic!("{part}") };
    let mut t = t;
    for k in &mut t {
      k.line += shift;
    }
    let got: Vec<&String> = got.iter().filter(|(p, _)| p.0 >= from && p.0 < to).map(|(_, s)| s).collect();
    if got.len() != nodes.len() {
      return Err(format!("{} definitions are found {} the faulty one, not {}", got.len(), if from == 0 { "before" } else { "after" }, nodes.len()));
    }
    for (n, g) in nodes.iter().zip(got) {
      let mut w = String::new();
      reftree::show(n, &t, &mut w);
      if w != *g {
        return Err(format!("the tree of another definition is not the one written\n{}", differ(&w, g)));
      }
    }
  }
  Ok(())
}

fn f10(ctx: &mut Ctx) {
  let whole = |ctx: &mut Ctx, s: String| {
    ctx.case(|| s.clone(), |ctx| {
      if parsed(s.as_bytes())? {
        ctx.note(hash64(s.as_bytes()));
      }
      Ok(())
    });
  };
  for t in texts() {
    whole(ctx, t);
  }
  let cp: *mut Ctx = ctx;
  // SAFETY: `programs` only reads the tier
  let c: &mut Ctx = unsafe { &mut *cp };
  programs(ctx, true, true, &mut |m: &MProg| {
    if !c.mine_next() {
      c.skip();
      return;
    }
    let t = render::tokens(m);
    c.case(|| flat_desc(&t), |ctx| {
      for l in 0..3 {
        let s = lay(&t, l);
        match reftree::items(s.as_bytes()) {
          Some((_, _, true)) => {}
          _ => panic!("the reference does not parse a rendered program"),
        }
        parsed(s.as_bytes())?;
        ctx.note(hash64(s.as_bytes()));
      }
      Ok(())
    });
  });
  // one definition among others, with one token added, removed or replaced
  const PRE: &str = "decl @before(i32, *i32): i32\nfun @first(@p: i32): i32 {\n%e: br @p, %a(1), %b\n%a(%x: i32): ret %x\n%b: ret 2 }";
  const POST: &str = "fun @after(@q: *[i32, 2]) {\n%e:\n  store { 1, 2 }, @q\n  jump %z\n%z: ret\n}\nglobal @last = alloc [i32, 2], zeroinit\ndecl @end()";
  for s in r#gen::seeds() {
    let t = render::tokens(&s);
    // its definitions
    let starts: Vec<usize> = (0..t.len()).filter(|i| ["fun", "global", "decl"].contains(&t[*i].s.as_str())).chain([t.len()]).collect();
    for w in starts.windows(2) {
      let item = t[w[0]..w[1]].to_vec();
      let mut al = alphabet(&item);
      al.retain(|a| a != "/*");
      edits(&item, &al, &mut |e| {
        if !ctx.mine_next() {
          ctx.skip();
          return;
        }
        if e.len() + 1 < item.len() {
          // cut off: what follows may be taken for the rest of it
          ctx.skip();
          return;
        }
        let one = lay(&e, 0);
        ctx.case(|| one.clone(), |ctx| {
          let lexed = reftext::lex(one.as_bytes()).unwrap_or_default();
          let bad = lexed.last().is_some_and(|t| t.k == K::Bad);
          // what is no token ends even the definition that it follows
          if !(bad && lexed.len() == 1) {
            around(PRE, &one, POST)?;
          }
          // runs of bytes without a blank are skipped together
          if !bad && !one.contains("//") {
            around(PRE, &lay(&e, 1), POST)?;
          }
          let alone = parsed(one.as_bytes())?;
          if alone {
            ctx.note(hash64(one.as_bytes()));
          }
          Ok(())
        });
      });
    }
  }
}

fn flat_desc(t: &[Tok]) -> String {
  lay(t, 0)
}
