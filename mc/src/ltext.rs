//! Checks the types written in an LLVM text.
//!
//! The installed libLLVM treats all pointers alike, so it cannot see a
//! pointer type that disagrees with the definition of its operand. Here the
//! rules of typed pointers are applied to the text itself. Statements this
//! reader does not know are counted and skipped, never judged.
use crate::model::{MProg, Ty};
use std::collections::HashMap;
use std::fmt;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum T {
  Int(u32),
  Void,
  Arr(u64, Box<T>),
  Ptr(Box<T>),
  Fun(Box<T>, Vec<T>),
}
impl T {
  pub fn of(t: &Ty) -> T {
    match t {
      Ty::I32 => T::Int(32),
      Ty::Unit => T::Void,
      Ty::Arr(b, n) => T::Arr(*n as u64, Box::new(T::of(b))),
      Ty::Ptr(b) => T::Ptr(Box::new(T::of(b))),
      // a Koopa function type is the size of a pointer
      Ty::Fun(p, r) => T::Ptr(Box::new(T::Fun(Box::new(T::of(r)), p.iter().map(T::of).collect()))),
    }
  }
}
impl fmt::Display for T {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    match self {
      T::Int(n) => write!(f, "i{n}"),
      T::Void => write!(f, "void"),
      T::Arr(n, b) => write!(f, "[{n} x {b}]"),
      T::Ptr(b) => write!(f, "{b}*"),
      T::Fun(r, p) => {
        write!(f, "{r} (")?;
        for (i, t) in p.iter().enumerate() {
          write!(f, "{}{t}", if i > 0 { ", " } else { "" })?;
        }
        write!(f, ")")
      }
    }
  }
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Tok {
  /// with its sigil
  Name(String),
  Word(String),
  Num(i128),
  P(char),
}

fn lex(line: &str) -> Option<Vec<Tok>> {
  let b: Vec<char> = line.chars().collect();
  let idc = |c: char| c.is_ascii_alphanumeric() || "$_.-".contains(c);
  let mut i = 0;
  let mut v = vec![];
  while i < b.len() {
    let c = b[i];
    let s = i;
    if c.is_whitespace() {
      i += 1;
      continue;
    }
    if c == ';' {
      break;
    }
    if c == '%' || c == '@' {
      i += 1;
      if i < b.len() && b[i] == '"' {
        i += 1;
        while i < b.len() && b[i] != '"' {
          i += 1;
        }
        let n: String = b[s + 2..i].iter().collect();
        v.push(Tok::Name(format!("{c}{n}")));
        i += 1;
        continue;
      }
      while i < b.len() && idc(b[i]) {
        i += 1;
      }
      v.push(Tok::Name(b[s..i].iter().collect()));
    } else if c.is_ascii_digit() || c == '-' && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
      i += 1;
      while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
      }
      v.push(Tok::Num(b[s..i].iter().collect::<String>().parse().ok()?));
    } else if c.is_ascii_alphabetic() || c == '_' {
      while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
        i += 1;
      }
      v.push(Tok::Word(b[s..i].iter().collect()));
    } else {
      v.push(Tok::P(c));
      i += 1;
    }
  }
  Some(v)
}

#[derive(Clone, Debug)]
enum V {
  Name(String),
  Num,
  /// undef, zeroinitializer and the like: any type
  Any,
  Agg(Vec<(T, V)>),
}

/// None: not a form this reader knows.
struct R<'a> {
  t: &'a [Tok],
  i: usize,
}
impl R<'_> {
  fn peek(&self) -> Option<&Tok> {
    self.t.get(self.i)
  }
  fn p(&mut self, c: char) -> Option<()> {
    if self.at(c) { Some(self.i += 1) } else { None }
  }
  fn at(&self, c: char) -> bool {
    self.peek() == Some(&Tok::P(c))
  }
  fn word(&mut self, w: &str) -> bool {
    let r = matches!(self.peek(), Some(Tok::Word(x)) if x == w);
    self.i += r as usize;
    r
  }
  fn any(&mut self, ws: &[&str]) -> bool {
    let mut r = false;
    while ws.iter().any(|w| self.word(w)) {
      r = true;
    }
    r
  }
  fn name(&mut self) -> Option<String> {
    match self.peek() {
      Some(Tok::Name(n)) => {
        let n = n.clone();
        self.i += 1;
        Some(n)
      }
      _ => None,
    }
  }
  fn ty(&mut self) -> Option<T> {
    let mut t = match self.peek()?.clone() {
      Tok::Word(w) if w == "void" => {
        self.i += 1;
        T::Void
      }
      Tok::Word(w) if w.starts_with('i') => {
        self.i += 1;
        T::Int(w[1..].parse().ok()?)
      }
      Tok::P('[') => {
        self.i += 1;
        let n = match self.peek() {
          Some(Tok::Num(n)) => u64::try_from(*n).ok()?,
          _ => return None,
        };
        self.i += 1;
        if !self.word("x") {
          return None;
        }
        let b = self.ty()?;
        self.p(']')?;
        T::Arr(n, Box::new(b))
      }
      _ => return None,
    };
    loop {
      if self.at('*') {
        self.i += 1;
        t = T::Ptr(Box::new(t));
      } else if self.at('(') {
        self.i += 1;
        let mut p = vec![];
        if !self.at(')') {
          loop {
            p.push(self.ty()?);
            if self.at(')') {
              break;
            }
            self.p(',')?;
          }
        }
        self.p(')')?;
        t = T::Fun(Box::new(t), p);
      } else {
        return Some(t);
      }
    }
  }
  fn val(&mut self) -> Option<V> {
    match self.peek()?.clone() {
      Tok::Name(n) => {
        self.i += 1;
        Some(V::Name(n))
      }
      Tok::Num(_) => {
        self.i += 1;
        Some(V::Num)
      }
      Tok::Word(w) if ["undef", "zeroinitializer", "poison", "null"].contains(&&*w) => {
        self.i += 1;
        Some(V::Any)
      }
      Tok::Word(w) if ["true", "false"].contains(&&*w) => {
        self.i += 1;
        Some(V::Num)
      }
      Tok::P('[') => {
        self.i += 1;
        let mut v = vec![];
        if !self.at(']') {
          loop {
            v.push(self.tval()?);
            if self.at(']') {
              break;
            }
            self.p(',')?;
          }
        }
        self.p(']')?;
        Some(V::Agg(v))
      }
      _ => None,
    }
  }
  fn tval(&mut self) -> Option<(T, V)> {
    Some((self.ty()?, self.val()?))
  }
}

/// What a statement says: its definition, the operands with the type given
/// to them, and the rules its types break by themselves.
#[derive(Default)]
struct St {
  def: Option<(String, T)>,
  uses: Vec<(T, V)>,
  bad: Option<String>,
}

fn ptr(t: &T) -> T {
  T::Ptr(Box::new(t.clone()))
}

fn statement(t: &[Tok], ret: &T) -> Option<St> {
  let mut r = R { t, i: 0 };
  let mut s = St::default();
  let mut dst = None;
  if matches!(t.first(), Some(Tok::Name(_))) {
    dst = r.name();
    r.p('=')?;
  }
  let op = match r.peek()? {
    Tok::Word(w) => w.clone(),
    _ => return None,
  };
  r.i += 1;
  let mut ty = None;
  match &*op {
    "alloca" => ty = Some(ptr(&r.ty()?)),
    "load" => {
      let t = r.ty()?;
      r.p(',')?;
      let u = r.tval()?;
      if u.0 != ptr(&t) {
        s.bad = Some(format!("loads {t} through {}", u.0));
      }
      s.uses.push(u);
      ty = Some(t);
    }
    "store" => {
      let v = r.tval()?;
      r.p(',')?;
      let u = r.tval()?;
      if u.0 != ptr(&v.0) {
        s.bad = Some(format!("stores {} through {}", v.0, u.0));
      }
      s.uses.extend([v, u]);
    }
    "getelementptr" => {
      r.any(&["inbounds", "nuw", "nusw"]);
      let t = r.ty()?;
      r.p(',')?;
      let u = r.tval()?;
      if u.0 != ptr(&t) {
        s.bad = Some(format!("computes with {t} from {}", u.0));
      }
      s.uses.push(u);
      let mut cur = t;
      let mut n = 0;
      while r.at(',') {
        r.i += 1;
        s.uses.push(r.tval()?);
        n += 1;
        if n > 1 {
          match cur {
            T::Arr(_, b) => cur = *b,
            c => {
              s.bad = Some(format!("indexes into {c}"));
              cur = c;
            }
          }
        }
      }
      ty = Some(ptr(&cur));
    }
    "add" | "sub" | "mul" | "sdiv" | "udiv" | "srem" | "urem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
      r.any(&["nsw", "nuw", "exact", "disjoint"]);
      let t = r.ty()?;
      let a = r.val()?;
      r.p(',')?;
      let b = r.val()?;
      s.uses.extend([(t.clone(), a), (t.clone(), b)]);
      ty = Some(t);
    }
    "icmp" => {
      r.i += 1;
      let t = r.ty()?;
      let a = r.val()?;
      r.p(',')?;
      let b = r.val()?;
      s.uses.extend([(t.clone(), a), (t, b)]);
      ty = Some(T::Int(1));
    }
    "zext" | "sext" | "trunc" => {
      s.uses.push(r.tval()?);
      if !r.word("to") {
        return None;
      }
      ty = Some(r.ty()?);
    }
    "select" => {
      s.uses.push(r.tval()?);
      r.p(',')?;
      let a = r.tval()?;
      r.p(',')?;
      let b = r.tval()?;
      if a.0 != b.0 {
        s.bad = Some(format!("selects {} or {}", a.0, b.0));
      }
      ty = Some(a.0.clone());
      s.uses.extend([a, b]);
    }
    "freeze" => {
      let u = r.tval()?;
      ty = Some(u.0.clone());
      s.uses.push(u);
    }
    "phi" => {
      let t = r.ty()?;
      loop {
        r.p('[')?;
        s.uses.push((t.clone(), r.val()?));
        r.p(',')?;
        r.name()?;
        r.p(']')?;
        if !r.at(',') {
          break;
        }
        r.i += 1;
      }
      ty = Some(t);
    }
    "br" => {
      if !r.word("label") {
        s.uses.push(r.tval()?);
        r.p(',')?;
        if !r.word("label") {
          return None;
        }
        r.name()?;
        r.p(',')?;
        if !r.word("label") {
          return None;
        }
      }
      r.name()?;
    }
    "ret" => {
      let t = r.ty()?;
      if t != *ret {
        s.bad = Some(format!("returns {t} from a function that returns {ret}"));
      }
      if t != T::Void {
        let v = r.val()?;
        s.uses.push((t, v));
      }
    }
    "call" => {
      let t = r.ty()?;
      let f = r.name()?;
      r.p('(')?;
      let mut a = vec![];
      if !r.at(')') {
        loop {
          a.push(r.tval()?);
          if r.at(')') {
            break;
          }
          r.p(',')?;
        }
      }
      r.p(')')?;
      let ft = match t {
        T::Fun(..) => t,
        t => T::Fun(Box::new(t), a.iter().map(|x| x.0.clone()).collect()),
      };
      if let T::Fun(r, p) = &ft {
        if p.len() != a.len() || p.iter().zip(&a).any(|(x, y)| *x != y.0) {
          s.bad = Some("has arguments of other types than the callee's type says".into());
        }
        ty = Some((**r).clone());
      }
      s.uses.push((ptr(&ft), V::Name(f)));
      s.uses.extend(a);
    }
    _ => return None,
  }
  if r.i != t.len() {
    return None;
  }
  if let (Some(d), Some(t)) = (dst, ty) {
    s.def = Some((d, t));
  }
  Some(s)
}

fn fits(v: &V, t: &T, defs: &[&HashMap<String, T>]) -> Result<(), String> {
  match v {
    V::Any => Ok(()),
    V::Num => match t {
      T::Int(_) => Ok(()),
      _ => Err(format!("a number is given the type {t}")),
    },
    V::Name(n) => match defs.iter().find_map(|d| d.get(n)) {
      Some(d) if d != t => Err(format!("{n} of type {d} is used as {t}")),
      _ => Ok(()),
    },
    V::Agg(e) => match t {
      T::Arr(n, b) if *n == e.len() as u64 => {
        for (et, ev) in e {
          if et != &**b {
            return Err(format!("an element of {t} has the type {et}"));
          }
          fits(ev, et, defs)?;
        }
        Ok(())
      }
      _ => Err(format!("{} elements are given the type {t}", e.len())),
    },
  }
}

/// Checks the text and, if `m` is given, that globals and functions (in
/// order) have its types. Returns how many lines were judged and how many
/// skipped.
pub fn check(text: &str, m: Option<&MProg>) -> Result<(u64, u64), String> {
  let (mut known, mut skipped) = (0, 0);
  let mut glob: HashMap<String, T> = HashMap::new();
  struct F<'a> {
    ret: T,
    params: Vec<(String, T)>,
    lines: Vec<(&'a str, Vec<Tok>)>,
  }
  let mut fs: Vec<F> = vec![];
  let mut open = false;
  let mut gl: Vec<T> = vec![];
  let mut sigs: Vec<Option<(T, Vec<T>)>> = vec![];
  let mut inits: Vec<(&str, (T, V))> = vec![];
  for line in text.lines() {
    let Some(t) = lex(line) else {
      skipped += 1;
      continue;
    };
    if t.is_empty() {
      continue;
    }
    if open {
      if t == [Tok::P('}')] {
        open = false;
      } else if t.last() == Some(&Tok::P(':')) {
        // a label
      } else {
        fs.last_mut().unwrap().lines.push((line, t));
      }
      continue;
    }
    let mut r = R { t: &t, i: 0 };
    if let Some(Tok::Name(n)) = t.first() {
      let n = n.clone();
      match t.iter().position(|x| matches!(x, Tok::Word(w) if w == "global" || w == "constant")) {
        Some(p) => {
          r.i = p + 1;
          match r.tval() {
            Some(u) => {
              known += 1;
              glob.insert(n, ptr(&u.0));
              gl.push(u.0.clone());
              inits.push((line, u));
            }
            None => skipped += 1,
          }
        }
        None => skipped += 1,
      }
      continue;
    }
    let def = matches!(t.first(), Some(Tok::Word(w)) if w == "define");
    if def || matches!(t.first(), Some(Tok::Word(w)) if w == "declare") {
      r.i = 1;
      let sig = (|| {
        let ret = r.ty()?;
        let n = r.name()?;
        r.p('(')?;
        let mut ps = vec![];
        if !r.at(')') {
          loop {
            let t = r.ty()?;
            ps.push((if def { r.name()? } else { r.name().unwrap_or_default() }, t));
            if r.at(')') {
              break;
            }
            r.p(',')?;
          }
        }
        r.p(')')?;
        Some((ret, n, ps))
      })();
      if def {
        open = true;
      }
      match sig {
        Some((ret, n, ps)) => {
          known += 1;
          let tys: Vec<T> = ps.iter().map(|p| p.1.clone()).collect();
          glob.insert(n, ptr(&T::Fun(Box::new(ret.clone()), tys.clone())));
          sigs.push(Some((ret.clone(), tys)));
          if def {
            fs.push(F { ret, params: ps, lines: vec![] });
          }
        }
        None => {
          skipped += 1;
          sigs.push(None);
          if def {
            fs.push(F { ret: T::Void, params: vec![], lines: vec![] });
          }
        }
      }
      continue;
    }
    skipped += 1;
  }
  for (line, (t, v)) in &inits {
    fits(v, t, &[&glob]).map_err(|e| format!("{e}: {line}"))?;
  }
  for f in &fs {
    let mut loc: HashMap<String, T> = f.params.iter().cloned().collect();
    let sts: Vec<Option<St>> = f.lines.iter().map(|l| statement(&l.1, &f.ret)).collect();
    for s in sts.iter().flatten() {
      if let Some((n, t)) = &s.def {
        loc.insert(n.clone(), t.clone());
      }
    }
    for (s, (line, _)) in sts.iter().zip(&f.lines) {
      let Some(s) = s else {
        skipped += 1;
        continue;
      };
      known += 1;
      if let Some(b) = &s.bad {
        return Err(format!("{b}: {line}"));
      }
      for (t, v) in &s.uses {
        fits(v, t, &[&loc, &glob]).map_err(|e| format!("{e}: {line}"))?;
      }
    }
  }
  if let Some(m) = m {
    if gl.len() == m.globals.len() {
      for (t, g) in gl.iter().zip(&m.globals) {
        if *t != T::of(&g.init.ty()) {
          return Err(format!("a global of type {} is printed as {t}", g.init.ty()));
        }
      }
    }
    if sigs.len() == m.funcs.len() {
      for (s, f) in sigs.iter().zip(&m.funcs) {
        let want = (T::of(&f.ret), f.params.iter().map(|p| T::of(&p.1)).collect::<Vec<_>>());
        if let Some(s) = s
          && *s != want
        {
          return Err(format!("function {} is printed with the type {}", f.name, T::Fun(Box::new(s.0.clone()), s.1.clone())));
        }
      }
    }
  }
  Ok((known, skipped))
}
