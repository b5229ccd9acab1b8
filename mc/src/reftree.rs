//! Reference syntax trees: what each definition of a text consists of, and
//! which tokens each part covers. Written from the grammar, sharing nothing
//! with the code under test.
use crate::model::BINOPS;
use crate::reftext::{K, T, lex};

/// A part of a definition, made of the tokens `a` to `z` (both included).
#[derive(Clone, Debug)]
pub struct Node {
  pub kind: &'static str,
  pub label: String,
  pub a: usize,
  pub z: usize,
  /// each with the name it is given by its parent (parameter names)
  pub kids: Vec<(String, Node)>,
}

struct P<'a> {
  t: &'a [T],
  i: usize,
}

type R<X> = Option<X>;

impl P<'_> {
  fn k(&self) -> &K {
    &self.t[self.i].k
  }
  fn at(&self, c: u8) -> bool {
    *self.k() == K::Ch(c)
  }
  fn at_word(&self, w: &str) -> bool {
    matches!(self.k(), K::Word(x) if x == w)
  }
  fn ch(&mut self, c: u8) -> R<()> {
    if !self.at(c) {
      return None;
    }
    self.i += 1;
    Some(())
  }
  fn word(&mut self, w: &str) -> R<()> {
    if !self.at_word(w) {
      return None;
    }
    self.i += 1;
    Some(())
  }
  fn sym(&mut self) -> R<String> {
    let K::Sym(s) = self.k() else { return None };
    let s = s.clone();
    self.i += 1;
    Some(s)
  }
  /// A node over the tokens from `a` to the last one read.
  fn node(&self, kind: &'static str, label: impl Into<String>, a: usize, kids: Vec<(String, Node)>) -> Node {
    Node { kind, label: label.into(), a, z: self.i - 1, kids }
  }
  fn list(&mut self, named: bool, f: fn(&mut Self) -> R<Node>) -> R<Vec<(String, Node)>> {
    self.ch(b'(')?;
    let mut v = vec![];
    if !self.at(b')') {
      loop {
        let n = if named {
          let n = self.sym()?;
          self.ch(b':')?;
          n
        } else {
          String::new()
        };
        v.push((n, f(self)?));
        if !self.at(b',') {
          break;
        }
        self.i += 1;
      }
    }
    self.ch(b')')?;
    Some(v)
  }
  fn opt_list(&mut self, named: bool, f: fn(&mut Self) -> R<Node>) -> R<Vec<(String, Node)>> {
    if self.at(b'(') { self.list(named, f) } else { Some(vec![]) }
  }
  fn ret_ty(&mut self, kids: &mut Vec<(String, Node)>) -> R<()> {
    if self.at(b':') {
      self.i += 1;
      kids.push(("result".into(), self.ty()?));
    }
    Some(())
  }
  fn ty(&mut self) -> R<Node> {
    let a = self.i;
    if self.at_word("i32") {
      self.i += 1;
      return Some(self.node("i32", "", a, vec![]));
    }
    if self.at(b'*') {
      self.i += 1;
      let b = self.ty()?;
      return Some(self.node("pointer", "", a, vec![("".into(), b)]));
    }
    if self.at(b'[') {
      self.i += 1;
      let b = self.ty()?;
      self.ch(b',')?;
      let K::Int(n) = *self.k() else { return None };
      if n < 1 {
        return None;
      }
      self.i += 1;
      self.ch(b']')?;
      return Some(self.node("array", n.to_string(), a, vec![("".into(), b)]));
    }
    let mut v = self.list(false, Self::ty)?;
    self.ret_ty(&mut v)?;
    Some(self.node("function type", "", a, v))
  }
  fn leaf(&mut self) -> R<Node> {
    let a = self.i;
    let (kind, label) = match self.k() {
      K::Int(n) => ("int", (*n as i32).to_string()),
      K::Word(w) if w == "undef" => ("undef", String::new()),
      K::Word(w) if w == "zeroinit" => ("zeroinit", String::new()),
      K::Sym(s) => ("symbol", s.clone()),
      _ => return None,
    };
    self.i += 1;
    Some(self.node(kind, label, a, vec![]))
  }
  fn value(&mut self) -> R<Node> {
    if self.at_word("zeroinit") {
      return None;
    }
    self.leaf()
  }
  fn init(&mut self) -> R<Node> {
    if let K::Sym(_) = self.k() {
      return None;
    }
    if !self.at(b'{') {
      return self.leaf();
    }
    let a = self.i;
    self.i += 1;
    let mut v = vec![("".into(), self.init()?)];
    while self.at(b',') {
      self.i += 1;
      v.push(("".into(), self.init()?));
    }
    self.ch(b'}')?;
    Some(self.node("aggregate", "", a, v))
  }
  fn call(&mut self) -> R<Node> {
    let a = self.i;
    self.word("call")?;
    let f = self.sym()?;
    let v = self.list(false, Self::value)?;
    Some(self.node("call", f, a, v))
  }
  fn named(n: &str, k: Node) -> (String, Node) {
    (n.to_string(), k)
  }
  /// A statement, and whether it ends its block.
  fn stmt(&mut self) -> R<(Node, bool)> {
    let a = self.i;
    if let K::Sym(_) = self.k() {
      let name = self.sym()?;
      self.ch(b'=')?;
      let b = self.i;
      let v = match self.k().clone() {
        K::Op(o) => {
          self.i += 1;
          let l = self.value()?;
          self.ch(b',')?;
          let r = self.value()?;
          self.node("binary", BINOPS[o], b, vec![Self::named("", l), Self::named("", r)])
        }
        K::Word(w) if w == "alloc" => {
          self.i += 1;
          let t = self.ty()?;
          self.node("alloc", "", b, vec![Self::named("", t)])
        }
        K::Word(w) if w == "load" => {
          self.i += 1;
          let s = self.sym()?;
          self.node("load", s, b, vec![])
        }
        K::Word(w) if w == "getptr" || w == "getelemptr" => {
          self.i += 1;
          let s = self.sym()?;
          self.ch(b',')?;
          let v = self.value()?;
          self.node(if w == "getptr" { "getptr" } else { "getelemptr" }, s, b, vec![Self::named("", v)])
        }
        _ => self.call()?,
      };
      return Some((self.node("definition", name, a, vec![Self::named("", v)]), false));
    }
    let K::Word(w) = self.k().clone() else { return None };
    Some(match w.as_str() {
      "store" => {
        self.i += 1;
        let v = if let K::Sym(_) = self.k() { self.leaf()? } else { self.init()? };
        self.ch(b',')?;
        let s = self.sym()?;
        (self.node("store", s, a, vec![Self::named("", v)]), false)
      }
      "call" => (self.call()?, false),
      "br" => {
        self.i += 1;
        let mut v = vec![Self::named("condition", self.value()?)];
        self.ch(b',')?;
        let t = self.sym()?;
        v.extend(self.opt_list(false, Self::value)?.into_iter().map(|k| ("true".to_string(), k.1)));
        self.ch(b',')?;
        let f = self.sym()?;
        v.extend(self.opt_list(false, Self::value)?.into_iter().map(|k| ("false".to_string(), k.1)));
        (self.node("br", format!("{t} {f}"), a, v), true)
      }
      "jump" => {
        self.i += 1;
        let t = self.sym()?;
        let v = self.opt_list(false, Self::value)?;
        (self.node("jump", t, a, v), true)
      }
      "ret" => {
        self.i += 1;
        let mut v = vec![];
        if self.t[self.i].line == self.t[a].line {
          v.push(Self::named("", self.value()?));
        }
        (self.node("ret", "", a, v), true)
      }
      _ => return None,
    })
  }
  fn block(&mut self) -> R<Node> {
    let a = self.i;
    let name = self.sym()?;
    let mut v = self.opt_list(true, Self::ty)?;
    self.ch(b':')?;
    loop {
      let (s, end) = self.stmt()?;
      v.push(Self::named("", s));
      if end {
        return Some(self.node("block", name, a, v));
      }
    }
  }
  fn item(&mut self) -> R<Node> {
    let a = self.i;
    if self.at_word("global") {
      self.i += 1;
      let n = self.sym()?;
      self.ch(b'=')?;
      let b = self.i;
      self.word("alloc")?;
      let t = self.ty()?;
      self.ch(b',')?;
      let i = self.init()?;
      let d = self.node("global alloc", "", b, vec![Self::named("", t), Self::named("", i)]);
      return Some(self.node("global", n, a, vec![Self::named("", d)]));
    }
    if self.at_word("decl") {
      self.i += 1;
      let n = self.sym()?;
      let mut v = self.list(false, Self::ty)?;
      self.ret_ty(&mut v)?;
      return Some(self.node("decl", n, a, v));
    }
    self.word("fun")?;
    let n = self.sym()?;
    let mut v = self.list(true, Self::ty)?;
    self.ret_ty(&mut v)?;
    self.ch(b'{')?;
    v.push(Self::named("", self.block()?));
    while !self.at(b'}') {
      v.push(Self::named("", self.block()?));
    }
    self.i += 1;
    Some(self.node("fun", n, a, v))
  }
}

/// The definitions of a text up to its first fault, and whether it has one.
/// `None`: the meaning of the text is not fixed.
pub fn items(b: &[u8]) -> Option<(Vec<T>, Vec<Node>, bool)> {
  let t = lex(b).ok()?;
  let mut p = P { t: &t, i: 0 };
  let mut v = vec![];
  let mut ok = true;
  while *p.k() != K::End {
    match p.item() {
      Some(n) => v.push(n),
      None => {
        ok = false;
        break;
      }
    }
  }
  Some((t, v, ok))
}

fn place(t: &T, end: bool) -> String {
  format!("{}:{}", t.line, if end { t.col + (t.end - t.start) as u32 - 1 } else { t.col })
}

pub fn show(n: &Node, t: &[T], o: &mut String) {
  *o += &format!("{} {} {}-{}", n.kind, n.label, place(&t[n.a], false), place(&t[n.z], true));
  if !n.kids.is_empty() {
    o.push_str(" {");
    for (k, c) in &n.kids {
      o.push(' ');
      o.push_str(k);
      o.push_str(": ");
      show(c, t, o);
    }
    o.push_str(" }");
  }
}
