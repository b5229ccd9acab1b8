//! The abstract programs the checks compare against. Nothing here uses the
//! code under test.
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Ty {
  I32,
  Unit,
  Arr(Box<Ty>, usize),
  Ptr(Box<Ty>),
  Fun(Vec<Ty>, Box<Ty>),
}

pub fn arr(t: Ty, n: usize) -> Ty {
  Ty::Arr(Box::new(t), n)
}
pub fn ptr(t: Ty) -> Ty {
  Ty::Ptr(Box::new(t))
}

impl Ty {
  pub fn deref(&self) -> Option<&Ty> {
    match self {
      Ty::Ptr(b) => Some(b),
      _ => None,
    }
  }
  pub fn has_fun(&self) -> bool {
    match self {
      Ty::I32 | Ty::Unit => false,
      Ty::Arr(b, _) | Ty::Ptr(b) => b.has_fun(),
      Ty::Fun(..) => true,
    }
  }
  pub fn size(&self, p: usize) -> usize {
    match self {
      Ty::I32 => 4,
      Ty::Unit => 0,
      Ty::Arr(b, n) => b.size(p) * n,
      Ty::Ptr(_) | Ty::Fun(..) => p,
    }
  }
}

/// Koopa's documented notation.
impl fmt::Display for Ty {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    match self {
      Ty::I32 => write!(f, "i32"),
      Ty::Unit => write!(f, "unit"),
      Ty::Arr(b, n) => write!(f, "[{b}, {n}]"),
      Ty::Ptr(b) => write!(f, "*{b}"),
      Ty::Fun(p, r) => {
        write!(f, "(")?;
        for (i, t) in p.iter().enumerate() {
          if i > 0 {
            write!(f, ", ")?;
          }
          write!(f, "{t}")?;
        }
        write!(f, ")")?;
        if **r != Ty::Unit {
          write!(f, ": {r}")?;
        }
        Ok(())
      }
    }
  }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum MConst {
  Int(i32),
  Zero(Ty),
  Undef(Ty),
  Agg(Vec<MConst>),
}

impl MConst {
  pub fn ty(&self) -> Ty {
    match self {
      MConst::Int(_) => Ty::I32,
      MConst::Zero(t) | MConst::Undef(t) => t.clone(),
      MConst::Agg(v) => arr(v[0].ty(), v.len()),
    }
  }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum MVal {
  Const(MConst),
  Global(usize),
  Param(usize),
  BParam(usize, usize),
  Inst(usize, usize),
}

pub const BINOPS: [&str; 17] =
  ["ne", "eq", "gt", "lt", "ge", "le", "add", "sub", "mul", "div", "mod", "and", "or", "xor", "shl", "shr", "sar"];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum MOp {
  Alloc(Ty),
  Load(MVal),
  /// value, destination
  Store(MVal, MVal),
  GetPtr(MVal, MVal),
  GetElemPtr(MVal, MVal),
  /// index into BINOPS
  Bin(usize, MVal, MVal),
  Br(MVal, usize, Vec<MVal>, usize, Vec<MVal>),
  Jump(usize, Vec<MVal>),
  Call(usize, Vec<MVal>),
  Ret(Option<MVal>),
}

impl MOp {
  pub fn vals(&self) -> Vec<&MVal> {
    match self {
      MOp::Alloc(_) => vec![],
      MOp::Load(a) => vec![a],
      MOp::Store(a, b) | MOp::GetPtr(a, b) | MOp::GetElemPtr(a, b) | MOp::Bin(_, a, b) => vec![a, b],
      MOp::Br(c, _, a, _, b) => std::iter::once(c).chain(a).chain(b).collect(),
      MOp::Jump(_, a) | MOp::Call(_, a) => a.iter().collect(),
      MOp::Ret(v) => v.iter().collect(),
    }
  }
  pub fn vals_mut(&mut self) -> Vec<&mut MVal> {
    match self {
      MOp::Alloc(_) => vec![],
      MOp::Load(a) => vec![a],
      MOp::Store(a, b) | MOp::GetPtr(a, b) | MOp::GetElemPtr(a, b) | MOp::Bin(_, a, b) => vec![a, b],
      MOp::Br(c, _, a, _, b) => std::iter::once(c).chain(a).chain(b).collect(),
      MOp::Jump(_, a) | MOp::Call(_, a) => a.iter_mut().collect(),
      MOp::Ret(v) => v.iter_mut().collect(),
    }
  }
  pub fn bbs(&self) -> Vec<usize> {
    match self {
      MOp::Br(_, t, _, f, _) => vec![*t, *f],
      MOp::Jump(t, _) => vec![*t],
      _ => vec![],
    }
  }
  pub fn is_term(&self) -> bool {
    matches!(self, MOp::Br(..) | MOp::Jump(..) | MOp::Ret(_))
  }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MInst {
  pub name: Option<String>,
  pub ty: Ty,
  pub op: MOp,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MBlock {
  pub name: Option<String>,
  pub params: Vec<(Option<String>, Ty)>,
  pub insts: Vec<MInst>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MFunc {
  pub name: String,
  pub params: Vec<(Option<String>, Ty)>,
  pub ret: Ty,
  /// None for a declaration
  pub bbs: Option<Vec<MBlock>>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MGlobal {
  pub name: Option<String>,
  pub init: MConst,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct MProg {
  pub globals: Vec<MGlobal>,
  pub funcs: Vec<MFunc>,
}

impl MFunc {
  pub fn fty(&self) -> Ty {
    Ty::Fun(self.params.iter().map(|p| p.1.clone()).collect(), Box::new(self.ret.clone()))
  }
  /// Breadth-first order from the first block, true target first.
  pub fn bfs(&self) -> Vec<usize> {
    let Some(b) = &self.bbs else { return vec![] };
    let mut seen = vec![false; b.len()];
    let mut q = vec![];
    if !b.is_empty() {
      q.push(0);
      seen[0] = true;
    }
    let mut i = 0;
    while i < q.len() {
      if let Some(l) = b[q[i]].insts.last() {
        for t in l.op.bbs() {
          if !seen[t] {
            seen[t] = true;
            q.push(t);
          }
        }
      }
      i += 1;
    }
    q
  }
  /// Blocks in breadth-first order, unreachable ones dropped.
  pub fn canon(&self) -> MFunc {
    let Some(b) = &self.bbs else { return self.clone() };
    let order = self.bfs();
    let mut map = vec![usize::MAX; b.len()];
    for (n, o) in order.iter().enumerate() {
      map[*o] = n;
    }
    let bbs = order
      .iter()
      .map(|o| {
        let mut blk = b[*o].clone();
        for i in &mut blk.insts {
          match &mut i.op {
            MOp::Br(_, t, _, f, _) => {
              *t = map[*t];
              *f = map[*f];
            }
            MOp::Jump(t, _) => *t = map[*t],
            _ => {}
          }
          for v in i.op.vals_mut() {
            match v {
              MVal::Inst(x, _) | MVal::BParam(x, _) => *x = map[*x],
              _ => {}
            }
          }
        }
        blk
      })
      .collect();
    MFunc { bbs: Some(bbs), ..self.clone() }
  }
  pub fn val_ty(&self, p: &MProg, v: &MVal) -> Ty {
    match v {
      MVal::Const(c) => c.ty(),
      MVal::Global(g) => ptr(p.globals[*g].init.ty()),
      MVal::Param(i) => self.params[*i].1.clone(),
      MVal::BParam(b, i) => self.bbs.as_ref().unwrap()[*b].params[*i].1.clone(),
      MVal::Inst(b, i) => self.bbs.as_ref().unwrap()[*b].insts[*i].ty.clone(),
    }
  }
}

impl MProg {
  pub fn canon(&self) -> MProg {
    MProg { globals: self.globals.clone(), funcs: self.funcs.iter().map(|f| f.canon()).collect() }
  }
  /// Forgets names (they are compared separately).
  pub fn anon(&self) -> MProg {
    let mut p = self.clone();
    for g in &mut p.globals {
      g.name = None;
    }
    for f in &mut p.funcs {
      f.name.clear();
      for q in &mut f.params {
        q.0 = None;
      }
      for b in f.bbs.iter_mut().flatten() {
        b.name = None;
        for q in &mut b.params {
          q.0 = None;
        }
        for i in &mut b.insts {
          i.name = None;
        }
      }
    }
    p
  }
  pub fn hash(&self) -> u64 {
    crate::sup::hash64(format!("{self:?}").as_bytes())
  }
}

/// First difference between two programs, for reports.
pub fn diff(a: &MProg, b: &MProg) -> Option<String> {
  if a == b {
    return None;
  }
  if a.globals.len() != b.globals.len() {
    return Some(format!("{} globals instead of {}", b.globals.len(), a.globals.len()));
  }
  for (i, (x, y)) in a.globals.iter().zip(&b.globals).enumerate() {
    if x != y {
      return Some(format!("global {i}: expected {x:?}, got {y:?}"));
    }
  }
  if a.funcs.len() != b.funcs.len() {
    return Some(format!("{} functions instead of {}", b.funcs.len(), a.funcs.len()));
  }
  for (i, (x, y)) in a.funcs.iter().zip(&b.funcs).enumerate() {
    if x == y {
      continue;
    }
    if (&x.name, &x.params, &x.ret) != (&y.name, &y.params, &y.ret) {
      return Some(format!(
        "function {i}: expected {:?} {:?}: {}, got {:?} {:?}: {}",
        x.name, x.params, x.ret, y.name, y.params, y.ret
      ));
    }
    match (&x.bbs, &y.bbs) {
      (Some(p), Some(q)) => {
        if p.len() != q.len() {
          return Some(format!("function {i}: {} blocks instead of {}", q.len(), p.len()));
        }
        for (j, (s, t)) in p.iter().zip(q).enumerate() {
          if (&s.name, &s.params) != (&t.name, &t.params) {
            return Some(format!("function {i} block {j}: expected {:?}{:?}, got {:?}{:?}", s.name, s.params, t.name, t.params));
          }
          if s.insts.len() != t.insts.len() {
            return Some(format!("function {i} block {j}: {} instructions instead of {}", t.insts.len(), s.insts.len()));
          }
          for (k, (u, v)) in s.insts.iter().zip(&t.insts).enumerate() {
            if u != v {
              return Some(format!("function {i} block {j} instruction {k}: expected {u:?}, got {v:?}"));
            }
          }
        }
      }
      (s, t) => return Some(format!("function {i}: body expected {}, got {}", s.is_some(), t.is_some())),
    }
  }
  Some("differ".into())
}
