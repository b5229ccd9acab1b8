//! Reference reader: text of Koopa IR to the verdict and program its written
//! rules prescribe. Written from the language's rules, sharing nothing with
//! the code under test.
use crate::model::*;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Why {
  /// A lexical or syntactic fault: line and column of the first token that
  /// cannot continue a program (column 0: the end of the text).
  Syntax(u32, u32),
  Rule(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
  Accept(MProg),
  Reject(Why),
  Unspecified(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum K {
  Int(i64),
  Sym(String),
  Word(String),
  Op(usize),
  Ch(u8),
  End,
  Bad,
}

#[derive(Clone, Debug)]
pub struct T {
  pub k: K,
  pub line: u32,
  pub col: u32,
  pub start: usize,
  pub end: usize,
}

const WORDS: [&str; 15] = [
  "i32", "undef", "zeroinit", "global", "alloc", "load", "store", "getptr", "getelemptr", "br", "jump", "call", "ret", "fun",
  "decl",
];

/// Err: the meaning of this text is not fixed by the rules (bytes outside ASCII
/// outside comments).
pub fn lex(b: &[u8]) -> Result<Vec<T>, String> {
  let mut out = vec![];
  let (mut i, mut line, mut col) = (0usize, 1u32, 1u32);
  let adv = |i: &mut usize, line: &mut u32, col: &mut u32| {
    if b[*i] == b'\n' {
      *line += 1;
      *col = 1;
    } else {
      *col += 1;
    }
    *i += 1;
  };
  while i < b.len() {
    let c = b[i];
    if matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0x0b | 0x0c) {
      adv(&mut i, &mut line, &mut col);
      continue;
    }
    if c >= 0x80 {
      return Err("bytes outside ASCII".into());
    }
    let (l0, c0, i0) = (line, col, i);
    let push = |k: K, end: usize, out: &mut Vec<T>| out.push(T { k, line: l0, col: c0, start: i0, end });
    if c == b'/' {
      if i + 1 < b.len() && b[i + 1] == b'/' {
        while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
          adv(&mut i, &mut line, &mut col);
        }
        continue;
      }
      if i + 1 < b.len() && b[i + 1] == b'*' {
        let mut j = i + 2;
        while j + 1 < b.len() && !(b[j] == b'*' && b[j + 1] == b'/') {
          j += 1;
        }
        if j + 1 < b.len() {
          while i < j + 2 {
            adv(&mut i, &mut line, &mut col);
          }
          continue;
        }
      }
      push(K::Bad, i + 1, &mut out);
      return Ok(out);
    }
    let mut j = i + 1;
    let k = if c == b'@' || c == b'%' {
      if j < b.len() && b[j].is_ascii_digit() {
        if c == b'@' {
          K::Bad
        } else {
          if b[j] == b'0' {
            j += 1;
          } else {
            while j < b.len() && b[j].is_ascii_digit() {
              j += 1;
            }
          }
          K::Sym(String::from_utf8(b[i..j].to_vec()).unwrap())
        }
      } else {
        while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
          j += 1;
        }
        if j < b.len() && b[j] >= 0x80 {
          return Err("bytes outside ASCII".into());
        }
        if j == i + 1 { K::Bad } else { K::Sym(String::from_utf8(b[i..j].to_vec()).unwrap()) }
      }
    } else if c.is_ascii_alphabetic() {
      while j < b.len() && b[j].is_ascii_alphanumeric() {
        j += 1;
      }
      if j < b.len() && b[j] >= 0x80 {
        return Err("bytes outside ASCII".into());
      }
      let w = std::str::from_utf8(&b[i..j]).unwrap();
      if WORDS.contains(&w) {
        K::Word(w.into())
      } else if let Some(o) = BINOPS.iter().position(|x| *x == w) {
        K::Op(o)
      } else {
        K::Bad
      }
    } else if c.is_ascii_digit() || c == b'-' {
      while j < b.len() && b[j].is_ascii_digit() {
        j += 1;
      }
      if j < b.len() && b[j] >= 0x80 {
        return Err("bytes outside ASCII".into());
      }
      match std::str::from_utf8(&b[i..j]).unwrap().parse::<i64>() {
        Ok(v) => K::Int(v),
        Err(_) => K::Bad,
      }
    } else {
      K::Ch(c)
    };
    let bad = k == K::Bad;
    push(k, j, &mut out);
    if bad {
      return Ok(out);
    }
    while i < j {
      adv(&mut i, &mut line, &mut col);
    }
  }
  out.push(T { k: K::End, line, col: 0, start: b.len(), end: b.len() });
  Ok(out)
}

// ---- syntax ----

#[derive(Clone, Debug)]
pub enum PTy {
  I32,
  Arr(Box<PTy>, i64),
  Ptr(Box<PTy>),
  Fun(Vec<PTy>, Option<Box<PTy>>),
}
#[derive(Clone, Debug)]
pub enum PInit {
  Int(i64),
  Undef,
  Zero,
  Agg(Vec<PInit>),
}
#[derive(Clone, Debug)]
pub enum PVal {
  Sym(String),
  Init(PInit),
}
#[derive(Clone, Debug)]
enum PStmt {
  Alloc(PTy),
  Load(String),
  GetPtr(String, PVal),
  GetElemPtr(String, PVal),
  Bin(usize, PVal, PVal),
  Call(String, Vec<PVal>),
  Store(PVal, String),
  Br(PVal, String, Vec<PVal>, String, Vec<PVal>),
  Jump(String, Vec<PVal>),
  Ret(Option<PVal>),
}
struct PBlock {
  name: String,
  params: Vec<(String, PTy)>,
  stmts: Vec<(Option<String>, PStmt)>,
}
enum PItem {
  Global(String, PTy, PInit),
  Decl(String, Vec<PTy>, Option<PTy>),
  Fun(String, Vec<(String, PTy)>, Option<PTy>, Vec<PBlock>),
}

struct P {
  t: Vec<T>,
  i: usize,
}

type PR<X> = Result<X, Why>;

impl P {
  fn cur(&self) -> &T {
    &self.t[self.i]
  }
  fn err<X>(&self) -> PR<X> {
    Err(Why::Syntax(self.cur().line, self.cur().col))
  }
  fn ch(&mut self, c: u8) -> PR<()> {
    if self.cur().k == K::Ch(c) {
      self.i += 1;
      Ok(())
    } else {
      self.err()
    }
  }
  fn at(&self, c: u8) -> bool {
    self.cur().k == K::Ch(c)
  }
  fn word(&mut self, w: &str) -> PR<()> {
    if self.at_word(w) {
      self.i += 1;
      Ok(())
    } else {
      self.err()
    }
  }
  fn at_word(&self, w: &str) -> bool {
    matches!(&self.cur().k, K::Word(x) if x == w)
  }
  fn sym(&mut self) -> PR<String> {
    if let K::Sym(s) = &self.cur().k {
      let s = s.clone();
      self.i += 1;
      Ok(s)
    } else {
      self.err()
    }
  }
  fn list<X>(&mut self, f: impl Fn(&mut P) -> PR<X>) -> PR<Vec<X>> {
    self.ch(b'(')?;
    let mut v = vec![];
    if !self.at(b')') {
      v.push(f(self)?);
      while self.at(b',') {
        self.i += 1;
        v.push(f(self)?);
      }
    }
    self.ch(b')')?;
    Ok(v)
  }
  fn ty(&mut self) -> PR<PTy> {
    if self.at_word("i32") {
      self.i += 1;
      Ok(PTy::I32)
    } else if self.at(b'*') {
      self.i += 1;
      Ok(PTy::Ptr(Box::new(self.ty()?)))
    } else if self.at(b'[') {
      self.i += 1;
      let b = self.ty()?;
      self.ch(b',')?;
      let K::Int(n) = self.cur().k else { return self.err() };
      self.i += 1;
      self.ch(b']')?;
      Ok(PTy::Arr(Box::new(b), n))
    } else if self.at(b'(') {
      let p = self.list(|s| s.ty())?;
      let r = self.opt_ret()?;
      Ok(PTy::Fun(p, r.map(Box::new)))
    } else {
      self.err()
    }
  }
  fn opt_ret(&mut self) -> PR<Option<PTy>> {
    if self.at(b':') {
      self.i += 1;
      Ok(Some(self.ty()?))
    } else {
      Ok(None)
    }
  }
  fn init(&mut self) -> PR<PInit> {
    match &self.cur().k {
      K::Int(n) => {
        let n = *n;
        self.i += 1;
        Ok(PInit::Int(n))
      }
      K::Word(w) if w == "undef" => {
        self.i += 1;
        Ok(PInit::Undef)
      }
      K::Word(w) if w == "zeroinit" => {
        self.i += 1;
        Ok(PInit::Zero)
      }
      K::Ch(b'{') => {
        self.i += 1;
        let mut v = vec![self.init()?];
        while self.at(b',') {
          self.i += 1;
          v.push(self.init()?);
        }
        self.ch(b'}')?;
        Ok(PInit::Agg(v))
      }
      _ => self.err(),
    }
  }
  fn val(&mut self) -> PR<PVal> {
    match &self.cur().k {
      K::Sym(_) => Ok(PVal::Sym(self.sym()?)),
      K::Int(_) => Ok(PVal::Init(self.init()?)),
      K::Word(w) if w == "undef" => Ok(PVal::Init(self.init()?)),
      _ => self.err(),
    }
  }
  fn typed(&mut self) -> PR<(String, PTy)> {
    let n = self.sym()?;
    self.ch(b':')?;
    Ok((n, self.ty()?))
  }
  fn opt_args(&mut self) -> PR<Vec<PVal>> {
    if self.at(b'(') { self.list(|s| s.val()) } else { Ok(vec![]) }
  }
  fn call(&mut self) -> PR<PStmt> {
    self.word("call")?;
    let f = self.sym()?;
    Ok(PStmt::Call(f, self.list(|s| s.val())?))
  }
  fn block(&mut self) -> PR<PBlock> {
    let name = self.sym()?;
    let params = if self.at(b'(') { self.list(|s| s.typed())? } else { vec![] };
    self.ch(b':')?;
    let mut stmts = vec![];
    loop {
      if let K::Sym(_) = self.cur().k {
        let n = self.sym()?;
        self.ch(b'=')?;
        let s = match &self.cur().k {
          K::Op(o) => {
            let o = *o;
            self.i += 1;
            let a = self.val()?;
            self.ch(b',')?;
            PStmt::Bin(o, a, self.val()?)
          }
          K::Word(w) => match w.as_str() {
            "alloc" => {
              self.i += 1;
              PStmt::Alloc(self.ty()?)
            }
            "load" => {
              self.i += 1;
              PStmt::Load(self.sym()?)
            }
            "getptr" | "getelemptr" => {
              let e = w == "getelemptr";
              self.i += 1;
              let s = self.sym()?;
              self.ch(b',')?;
              let v = self.val()?;
              if e { PStmt::GetElemPtr(s, v) } else { PStmt::GetPtr(s, v) }
            }
            "call" => self.call()?,
            _ => return self.err(),
          },
          _ => return self.err(),
        };
        stmts.push((Some(n), s));
        continue;
      }
      let K::Word(w) = &self.cur().k else { return self.err() };
      let s = match w.as_str() {
        "store" => {
          self.i += 1;
          let v = if let K::Sym(_) = self.cur().k { PVal::Sym(self.sym()?) } else { PVal::Init(self.init()?) };
          self.ch(b',')?;
          PStmt::Store(v, self.sym()?)
        }
        "call" => self.call()?,
        "br" => {
          self.i += 1;
          let c = self.val()?;
          self.ch(b',')?;
          let t = self.sym()?;
          let ta = self.opt_args()?;
          self.ch(b',')?;
          let f = self.sym()?;
          PStmt::Br(c, t, ta, f, self.opt_args()?)
        }
        "jump" => {
          self.i += 1;
          let t = self.sym()?;
          PStmt::Jump(t, self.opt_args()?)
        }
        "ret" => {
          let l = self.cur().line;
          self.i += 1;
          if self.cur().line == l { PStmt::Ret(Some(self.val()?)) } else { PStmt::Ret(None) }
        }
        _ => return self.err(),
      };
      let end = matches!(s, PStmt::Br(..) | PStmt::Jump(..) | PStmt::Ret(_));
      stmts.push((None, s));
      if end {
        return Ok(PBlock { name, params, stmts });
      }
    }
  }
  fn item(&mut self) -> PR<PItem> {
    if self.at_word("global") {
      self.i += 1;
      let n = self.sym()?;
      self.ch(b'=')?;
      self.word("alloc")?;
      let t = self.ty()?;
      self.ch(b',')?;
      Ok(PItem::Global(n, t, self.init()?))
    } else if self.at_word("decl") {
      self.i += 1;
      let n = self.sym()?;
      let p = self.list(|s| s.ty())?;
      Ok(PItem::Decl(n, p, self.opt_ret()?))
    } else if self.at_word("fun") {
      self.i += 1;
      let n = self.sym()?;
      let p = self.list(|s| s.typed())?;
      let r = self.opt_ret()?;
      self.ch(b'{')?;
      let mut bs = vec![];
      while !self.at(b'}') {
        bs.push(self.block()?);
      }
      self.i += 1;
      Ok(PItem::Fun(n, p, r, bs))
    } else {
      self.err()
    }
  }
}

// ---- rules ----

struct E {
  prog: MProg,
  gvars: HashMap<String, usize>,
  gtys: Vec<Ty>,
  fns: HashMap<String, usize>,
  unspec: Option<String>,
  /// every name of a local entity, to notice later globals of that name
  locals: HashSet<String>,
}

fn temp(n: &str) -> bool {
  n.bytes().all(|c| c == b'%' || c.is_ascii_digit())
}
fn name_of(n: &str) -> Option<String> {
  if temp(n) { None } else { Some(n.to_string()) }
}
fn rule<X>(s: impl Into<String>) -> PR<X> {
  Err(Why::Rule(s.into()))
}

impl E {
  fn ty(&self, t: &PTy) -> PR<Ty> {
    Ok(match t {
      PTy::I32 => Ty::I32,
      PTy::Ptr(b) => ptr(self.ty(b)?),
      PTy::Arr(b, n) => {
        if *n < 1 {
          return rule("array length");
        }
        arr(self.ty(b)?, *n as usize)
      }
      PTy::Fun(p, r) => Ty::Fun(
        p.iter().map(|t| self.ty(t)).collect::<PR<_>>()?,
        Box::new(r.as_ref().map(|r| self.ty(r)).transpose()?.unwrap_or(Ty::Unit)),
      ),
    })
  }
  fn unspec(&mut self, s: &str) {
    self.unspec.get_or_insert(s.to_string());
  }
  fn init(&mut self, i: &PInit, t: &Ty) -> PR<MConst> {
    Ok(match i {
      PInit::Undef => MConst::Undef(t.clone()),
      PInit::Zero => MConst::Zero(t.clone()),
      PInit::Int(n) => {
        if *t != Ty::I32 {
          return rule("integer where another type is expected");
        }
        if *n < i32::MIN as i64 || *n > i32::MAX as i64 {
          self.unspec("integer literal outside i32");
        }
        MConst::Int(*n as i32)
      }
      PInit::Agg(v) => {
        let Ty::Arr(b, n) = t else { return rule("aggregate where no array is expected") };
        if *n != v.len() {
          return rule("aggregate of the wrong length");
        }
        MConst::Agg(v.iter().map(|e| self.init(e, b)).collect::<PR<_>>()?)
      }
    })
  }
  fn item(&mut self, it: &PItem) -> PR<()> {
    match it {
      PItem::Global(n, t, i) => {
        let t = self.ty(t)?;
        let init = self.init(i, &t)?;
        self.new_global(n)?;
        if self.locals.contains(n) {
          self.unspec("a local of an earlier function has the name of this global");
        }
        self.gvars.insert(n.clone(), self.prog.globals.len());
        self.gtys.push(ptr(t));
        self.prog.globals.push(MGlobal { name: name_of(n), init });
        Ok(())
      }
      PItem::Decl(n, p, r) => {
        let params = p.iter().map(|t| Ok((None, self.ty(t)?))).collect::<PR<Vec<_>>>()?;
        let ret = r.as_ref().map(|t| self.ty(t)).transpose()?.unwrap_or(Ty::Unit);
        self.new_global(n)?;
        self.fns.insert(n.clone(), self.prog.funcs.len());
        self.prog.funcs.push(MFunc { name: n.clone(), params, ret, bbs: None });
        Ok(())
      }
      PItem::Fun(n, p, r, b) => self.fun(n, p, r, b),
    }
  }
  fn new_global(&self, n: &str) -> PR<()> {
    if self.gvars.contains_key(n) || self.fns.contains_key(n) {
      return rule(format!("{n} is defined twice"));
    }
    Ok(())
  }
  fn fun(&mut self, n: &str, p: &[(String, PTy)], r: &Option<PTy>, bs: &[PBlock]) -> PR<()> {
    if bs.is_empty() {
      return rule("a function without blocks");
    }
    let params = p.iter().map(|(n, t)| Ok((n.clone(), self.ty(t)?))).collect::<PR<Vec<_>>>()?;
    let ret = r.as_ref().map(|t| self.ty(t)).transpose()?.unwrap_or(Ty::Unit);
    self.new_global(n)?;
    let fi = self.prog.funcs.len();
    self.fns.insert(n.to_string(), fi);
    self.prog.funcs.push(MFunc {
      name: n.to_string(),
      params: params.iter().map(|(n, t)| (name_of(n), t.clone())).collect(),
      ret: ret.clone(),
      bbs: None,
    });
    // blocks
    let mut bidx: HashMap<&str, usize> = HashMap::new();
    for (i, b) in bs.iter().enumerate() {
      if bidx.insert(&b.name, i).is_some() {
        return rule("duplicate block name");
      }
    }
    let targets = |b: &PBlock| -> Vec<String> {
      match &b.stmts.last().unwrap().1 {
        PStmt::Br(_, t, _, f, _) => vec![t.clone(), f.clone()],
        PStmt::Jump(t, _) => vec![t.clone()],
        _ => vec![],
      }
    };
    let mut order = vec![0usize];
    let mut seen = vec![false; bs.len()];
    seen[0] = true;
    let mut q = 0;
    while q < order.len() {
      for t in targets(&bs[order[q]]) {
        let Some(x) = bidx.get(t.as_str()) else { return rule("undefined branch target") };
        if *x == 0 {
          return rule("the entry block has a predecessor");
        }
        if !seen[*x] {
          seen[*x] = true;
          order.push(*x);
        }
      }
      q += 1;
    }
    if !bs[0].params.is_empty() {
      self.unspec("parameters on the entry block");
    }
    // names
    let mut names: HashSet<String> = HashSet::new();
    for (n, _) in &params {
      if !names.insert(n.clone()) || self.gvars.contains_key(n) {
        return rule(format!("{n} is defined twice"));
      }
    }
    let pos: HashMap<usize, usize> = order.iter().enumerate().map(|(a, b)| (*b, a)).collect();
    let mut bp: Vec<Vec<(String, Ty)>> = vec![];
    for o in &order {
      let mut v = vec![];
      for (n, t) in &bs[*o].params {
        if !names.insert(n.clone()) || self.gvars.contains_key(n) {
          return rule(format!("{n} is defined twice"));
        }
        v.push((n.clone(), self.ty(t)?));
      }
      bp.push(v);
    }
    for o in &order {
      for (n, _) in &bs[*o].stmts {
        if let Some(n) = n {
          if !names.insert(n.clone()) || self.gvars.contains_key(n) {
            return rule(format!("{n} is defined twice"));
          }
        }
      }
    }
    self.locals.extend(names.iter().cloned());
    // graph on the reachable blocks, by position in `order`
    let nb = order.len();
    let succ: Vec<Vec<usize>> =
      order.iter().map(|o| targets(&bs[*o]).iter().map(|t| pos[&bidx[t.as_str()]]).collect()).collect();
    let reach = |from: usize, without: Option<usize>| -> Vec<bool> {
      // blocks reachable from the successors of `from`, not passing `without`
      let mut s = vec![false; nb];
      let mut st: Vec<usize> = succ[from].clone();
      while let Some(x) = st.pop() {
        if Some(x) == without || s[x] {
          continue;
        }
        s[x] = true;
        st.extend(&succ[x]);
      }
      s
    };
    let dominates = |a: usize, b: usize| -> bool {
      if a == b || a == 0 {
        return true;
      }
      if b == 0 {
        return false;
      }
      !reach(0, Some(a))[b]
    };
    // where every local is defined: block, index in block (-1: parameter)
    let mut defs: HashMap<String, (usize, i64)> = HashMap::new();
    for (b, v) in bp.iter().enumerate() {
      for (n, _) in v {
        defs.insert(n.clone(), (b, -1));
      }
    }
    for (b, o) in order.iter().enumerate() {
      for (i, (n, _)) in bs[*o].stmts.iter().enumerate() {
        if let Some(n) = n {
          defs.insert(n.clone(), (b, i as i64));
        }
      }
    }
    let pidx: HashMap<&str, usize> = params.iter().enumerate().map(|(i, (n, _))| (n.as_str(), i)).collect();
    // statements, in breadth-first block order
    let mut out: Vec<MBlock> = order
      .iter()
      .zip(&bp)
      .map(|(o, v)| MBlock {
        name: name_of(&bs[*o].name),
        params: v.iter().map(|(n, t)| (name_of(n), t.clone())).collect(),
        insts: vec![],
      })
      .collect();
    for (b, o) in order.iter().enumerate() {
      for (i, (name, st)) in bs[*o].stmts.iter().enumerate() {
        let mut look = |s: &mut E, n: &str, out: &Vec<MBlock>| -> PR<(MVal, Ty)> {
          if let Some(g) = s.gvars.get(n) {
            return Ok((MVal::Global(*g), s.gtys[*g].clone()));
          }
          if let Some(p) = pidx.get(n) {
            return Ok((MVal::Param(*p), params[*p].1.clone()));
          }
          let Some((db, di)) = defs.get(n) else { return rule(format!("{n} is undefined")) };
          let ok = if *db == b { *di < i as i64 } else { dominates(*db, b) };
          if !ok {
            if !reach(*db, None)[b] {
              return rule(format!("{n} is not defined on any path to its use"));
            }
            s.unspec("a symbol is not defined on every path to its use");
          }
          if *di < 0 {
            let k = bp[*db].iter().position(|x| x.0 == n).unwrap();
            return Ok((MVal::BParam(*db, k), bp[*db][k].1.clone()));
          }
          match out[*db].insts.get(*di as usize) {
            Some(x) => Ok((MVal::Inst(*db, *di as usize), x.ty.clone())),
            None => Err(Why::Rule("\0".into())),
          }
        };
        let val = |s: &mut E, v: &PVal, t: &Ty, out: &Vec<MBlock>, look: &mut dyn FnMut(&mut E, &str, &Vec<MBlock>) -> PR<(MVal, Ty)>| -> PR<MVal> {
          match v {
            PVal::Sym(n) => {
              let (v, vt) = look(s, n, out)?;
              if vt != *t {
                return rule(format!("{n} has type {vt} where {t} is expected"));
              }
              Ok(v)
            }
            PVal::Init(i) => Ok(MVal::Const(s.init(i, t)?)),
          }
        };
        let r: PR<MInst> = (|| {
          let mk = |ty: Ty, op: MOp| MInst { name: name.as_ref().and_then(|n| name_of(n)), ty, op };
          let i32t = Ty::I32;
          let mut bargs = |s: &mut E, t: &str, a: &[PVal], out: &Vec<MBlock>| -> PR<(usize, Vec<MVal>)> {
            let x = pos[&bidx[t]];
            if bp[x].len() != a.len() {
              return rule("wrong number of block arguments");
            }
            let v = a.iter().zip(&bp[x]).map(|(a, (_, t))| val(s, a, t, out, &mut look)).collect::<PR<Vec<_>>>()?;
            Ok((x, v))
          };
          Ok(match st {
            PStmt::Br(c, t, ta, f, fa) => {
              if t == f && (!ta.is_empty() || !fa.is_empty()) {
                return rule("branch to one target with arguments");
              }
              let (t, ta) = bargs(self, t, ta, &out)?;
              let (f, fa) = bargs(self, f, fa, &out)?;
              let c = val(self, c, &i32t, &out, &mut look)?;
              mk(Ty::Unit, MOp::Br(c, t, ta, f, fa))
            }
            PStmt::Jump(t, a) => {
              let (t, a) = bargs(self, t, a, &out)?;
              mk(Ty::Unit, MOp::Jump(t, a))
            }
            PStmt::Alloc(t) => {
              let t = self.ty(t)?;
              mk(ptr(t.clone()), MOp::Alloc(t))
            }
            PStmt::Load(n) => {
              let (v, t) = look(self, n, &out)?;
              let Some(b) = t.deref() else { return rule("load of a non-pointer") };
              mk(b.clone(), MOp::Load(v))
            }
            PStmt::Store(v, d) => {
              let (dv, t) = look(self, d, &out)?;
              let Some(b) = t.deref() else { return rule("store to a non-pointer") };
              let v = val(self, v, b, &out, &mut look)?;
              mk(Ty::Unit, MOp::Store(v, dv))
            }
            PStmt::GetPtr(n, x) => {
              let (v, t) = look(self, n, &out)?;
              if t.deref().is_none() {
                return rule("getptr of a non-pointer");
              }
              let x = val(self, x, &i32t, &out, &mut look)?;
              mk(t, MOp::GetPtr(v, x))
            }
            PStmt::GetElemPtr(n, x) => {
              let (v, t) = look(self, n, &out)?;
              let Some(Ty::Arr(b, _)) = t.deref() else { return rule("getelemptr of something else than a pointer to an array") };
              let x = val(self, x, &i32t, &out, &mut look)?;
              mk(ptr((**b).clone()), MOp::GetElemPtr(v, x))
            }
            PStmt::Bin(o, l, r) => {
              let l = val(self, l, &i32t, &out, &mut look)?;
              let r = val(self, r, &i32t, &out, &mut look)?;
              mk(Ty::I32, MOp::Bin(*o, l, r))
            }
            PStmt::Call(f, a) => {
              let Some(c) = self.fns.get(f).copied() else { return rule("undefined function") };
              let cf = self.prog.funcs[c].clone();
              if cf.params.len() != a.len() {
                return rule("wrong number of arguments");
              }
              if name.is_some() && cf.ret == Ty::Unit {
                return rule("a name for a result of type unit");
              }
              let a =
                a.iter().zip(&cf.params).map(|(a, (_, t))| val(self, a, t, &out, &mut look)).collect::<PR<Vec<_>>>()?;
              mk(cf.ret.clone(), MOp::Call(c, a))
            }
            PStmt::Ret(v) => {
              if v.is_some() != (ret != Ty::Unit) {
                return rule("wrong return");
              }
              let v = v.as_ref().map(|v| val(self, v, &ret, &out, &mut look)).transpose()?;
              mk(Ty::Unit, MOp::Ret(v))
            }
          })
        })();
        match r {
          Ok(x) => out[b].insts.push(x),
          Err(Why::Rule(s)) if s == "\0" => {
            // a use ahead of its definition in this order: unspecified, and
            // the type is not known here
            self.unspec("a symbol is not defined on every path to its use");
            return Ok(());
          }
          Err(e) => return Err(e),
        }
      }
    }
    // blocks that cannot be reached may or may not be checked
    if order.len() != bs.len() {
      self.unreachable(p, &params, &ret, bs, &seen, &bidx, &names, &defs, &out)?;
    }
    self.prog.funcs[fi].bbs = Some(out);
    Ok(())
  }

  fn targets_ok(
    &mut self,
    t: &str,
    args: &[PVal],
    bs: &[PBlock],
    bidx: &HashMap<&str, usize>,
    vt: &dyn Fn(&PVal, &Ty, &mut E) -> bool,
  ) -> bool {
    let Some(x) = bidx.get(t) else { return false };
    if *x == 0 || bs[*x].params.len() != args.len() {
      return false;
    }
    bs[*x].params.iter().zip(args).all(|((_, pt), a)| match self.ty(pt) {
      Ok(t) => vt(a, &t, self),
      Err(_) => false,
    })
  }

  /// Whether anything in the unreachable blocks could be objected to.
  #[allow(clippy::too_many_arguments)]
  fn unreachable(
    &mut self,
    _p: &[(String, PTy)],
    params: &[(String, Ty)],
    ret: &Ty,
    bs: &[PBlock],
    seen: &[bool],
    bidx: &HashMap<&str, usize>,
    names: &HashSet<String>,
    _defs: &HashMap<String, (usize, i64)>,
    _out: &[MBlock],
  ) -> PR<()> {
    let mut names = names.clone();
    let mut clean = true;
    for (i, b) in bs.iter().enumerate() {
      if seen[i] {
        continue;
      }
      let mut tys: HashMap<String, Ty> = params.iter().cloned().collect();
      for (n, g) in &self.gvars {
        tys.insert(n.clone(), self.gtys[*g].clone());
      }
      for (n, t) in &b.params {
        clean &= names.insert(n.clone()) && !self.gvars.contains_key(n);
        match self.ty(t) {
          Ok(t) => {
            tys.insert(n.clone(), t);
          }
          Err(_) => clean = false,
        }
      }
      for (n, s) in &b.stmts {
        if let Some(n) = n {
          clean &= names.insert(n.clone()) && !self.gvars.contains_key(n);
        }
        let vt = |v: &PVal, t: &Ty, s: &mut E| match v {
          PVal::Sym(n) => tys.get(n) == Some(t),
          PVal::Init(i) => s.init(i, t).is_ok(),
        };
        let mut def = None;
        clean &= match s {
          PStmt::Alloc(t) => match self.ty(t) {
            Ok(t) => {
              def = Some(ptr(t));
              true
            }
            Err(_) => false,
          },
          PStmt::Load(n) => {
            def = tys.get(n).and_then(|t| t.deref()).cloned();
            def.is_some()
          }
          PStmt::GetPtr(n, v) => {
            def = tys.get(n).cloned();
            def.as_ref().is_some_and(|t| t.deref().is_some()) && vt(v, &Ty::I32, self)
          }
          PStmt::GetElemPtr(n, v) => {
            def = match tys.get(n).and_then(|t| t.deref()) {
              Some(Ty::Arr(b, _)) => Some(ptr((**b).clone())),
              _ => None,
            };
            def.is_some() && vt(v, &Ty::I32, self)
          }
          PStmt::Bin(_, l, r) => {
            def = Some(Ty::I32);
            vt(l, &Ty::I32, self) && vt(r, &Ty::I32, self)
          }
          PStmt::Call(f, a) => match self.fns.get(f).copied() {
            None => false,
            Some(c) => {
              let cf = self.prog.funcs[c].clone();
              def = Some(cf.ret.clone());
              cf.params.len() == a.len()
                && a.iter().zip(&cf.params).all(|(a, (_, t))| vt(a, t, self))
                && !(n.is_some() && cf.ret == Ty::Unit)
            }
          },
          PStmt::Store(v, d) => match tys.get(d).and_then(|t| t.deref()) {
            Some(t) => vt(v, t, self),
            None => false,
          },
          PStmt::Br(c, t, ta, f, fa) => {
            vt(c, &Ty::I32, self)
              && (t != f || ta.is_empty() && fa.is_empty())
              && self.targets_ok(t, ta, bs, bidx, &vt)
              && self.targets_ok(f, fa, bs, bidx, &vt)
          }
          PStmt::Jump(t, a) => self.targets_ok(t, a, bs, bidx, &vt),
          PStmt::Ret(v) => match v {
            Some(v) => *ret != Ty::Unit && vt(v, ret, self),
            None => *ret == Ty::Unit,
          },
        };
        if let (Some(n), Some(t)) = (n, def) {
          tys.insert(n.clone(), t);
        }
      }
    }
    // a block that is never reached but leads to reachable ones adds paths on
    // which nothing is defined; it is not counted as a path
    if !clean {
      self.unspec("something is wrong in a block that cannot be reached");
    }
    self.locals.extend(names);
    Ok(())
  }
}

/// Nesting an implementation must at least support.
pub const NESTING: usize = 128;

fn nesting(t: &[T]) -> usize {
  let (mut d, mut m, mut stars) = (0usize, 0usize, 0usize);
  for k in t {
    match k.k {
      K::Ch(b'*') => {
        stars += 1;
        m = m.max(d + stars);
        continue;
      }
      K::Ch(b'[' | b'{' | b'(') => d += 1 + stars,
      K::Ch(b']' | b'}' | b')') => d = d.saturating_sub(1),
      _ => {}
    }
    stars = 0;
    m = m.max(d);
  }
  m
}

fn elab() -> E {
  E { prog: MProg::default(), gvars: HashMap::new(), gtys: vec![], fns: HashMap::new(), unspec: None, locals: HashSet::new() }
}

/// For a text with a syntactic fault: whether nothing before the fault can be
/// objected to, so that the fault is the first thing to report.
pub fn prefix_clean(b: &[u8]) -> bool {
  let Ok(toks) = lex(b) else { return false };
  let mut p = P { t: toks, i: 0 };
  let mut e = elab();
  while p.cur().k != K::End {
    let start = p.i;
    match p.item() {
      Ok(it) => {
        if e.item(&it).is_err() || e.unspec.is_some() {
          return false;
        }
      }
      Err(_) => {
        // lengths are checked along with the syntax
        return !p.t[start..p.i.max(start)]
          .windows(2)
          .any(|w| matches!(w[0].k, K::Int(n) if n < 1) && w[1].k == K::Ch(b']') || matches!(w[1].k, K::Int(n) if n < 1) && w[0].k == K::Ch(b','));
      }
    }
  }
  false
}

/// For a syntactically valid text that breaks a rule: where the first
/// definition or declaration that breaks one begins, and where it ends.
pub fn faulty_item(b: &[u8]) -> Option<((u32, u32), (u32, u32))> {
  let toks = lex(b).ok()?;
  let mut p = P { t: toks, i: 0 };
  let mut items = vec![];
  while p.cur().k != K::End {
    let start = p.i;
    let it = p.item().ok()?;
    items.push((it, start, p.i));
  }
  let mut e = elab();
  for (it, a, z) in &items {
    let bad = e.item(it).is_err();
    if e.unspec.is_some() {
      return None;
    }
    if bad {
      return Some(((p.t[*a].line, p.t[*a].col), (p.t[*z].line, p.t[*z].col)));
    }
  }
  None
}

pub fn read(b: &[u8]) -> Verdict {
  let toks = match lex(b) {
    Ok(t) => t,
    Err(e) => return Verdict::Unspecified(e),
  };
  if nesting(&toks) > NESTING {
    return Verdict::Unspecified("deep nesting".into());
  }
  let mut p = P { t: toks, i: 0 };
  let mut items = vec![];
  while p.cur().k != K::End {
    match p.item() {
      Ok(i) => items.push(i),
      Err(e) => return Verdict::Reject(e),
    }
  }
  let mut e = elab();
  for it in &items {
    if let Err(w) = e.item(it) {
      return Verdict::Reject(w);
    }
  }
  match e.unspec {
    Some(s) => Verdict::Unspecified(s),
    None => Verdict::Accept(e.prog),
  }
}
