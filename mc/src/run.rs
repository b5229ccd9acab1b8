//! Two interpreters over one memory model: of model programs, by the meaning
//! the language gives them, and of parsed LLVM modules, by LLVM's.
use crate::llvm::{LMod, LTy, LVal};
use crate::model::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
  I(i32),
  B(bool),
  /// object, byte offset
  P(usize, i64),
  Null,
  Undef,
  Agg(Vec<V>),
}

/// Why a run has no result.
#[derive(Debug, PartialEq)]
pub enum Stop {
  /// the program's meaning is not defined here
  Undefined(&'static str),
  Steps,
  /// a construct this interpreter does not know
  Unknown(String),
}
type R<T> = Result<T, Stop>;
const MAX_OBJ: usize = 1 << 16;

#[derive(Clone, Default)]
pub struct Mem {
  /// one cell per four bytes; a pointer fills two
  pub objs: Vec<Vec<V>>,
}

impl Mem {
  pub fn alloc(&mut self, t: &LTy) -> R<usize> {
    let n = t.size() / 4;
    if n > MAX_OBJ || self.objs.len() > 4000 {
      return Err(Stop::Steps);
    }
    self.objs.push(vec![V::Undef; n]);
    Ok(self.objs.len() - 1)
  }
  pub fn load(&self, p: &V, t: &LTy) -> R<V> {
    let (o, off) = self.check(p, t)?;
    Ok(self.get(o, off, t))
  }
  pub fn store(&mut self, p: &V, t: &LTy, v: &V) -> R<()> {
    let (o, off) = self.check(p, t)?;
    self.put(o, off, t, v);
    Ok(())
  }
  fn check(&self, p: &V, t: &LTy) -> R<(usize, usize)> {
    match p {
      V::P(o, off) => {
        let n = self.objs[*o].len() as i64 * 4;
        if *off < 0 || off % 4 != 0 || off + t.size() as i64 > n {
          return Err(Stop::Undefined("access outside an object"));
        }
        Ok((*o, *off as usize / 4))
      }
      V::Null => Err(Stop::Undefined("access through null")),
      V::Undef => Err(Stop::Undefined("access through undef")),
      _ => Err(Stop::Unknown(format!("access through {p:?}"))),
    }
  }
  fn get(&self, o: usize, at: usize, t: &LTy) -> V {
    match t {
      LTy::Arr(b, n) => V::Agg((0..*n).map(|i| self.get(o, at + i * b.size() / 4, b)).collect()),
      _ => self.objs[o][at].clone(),
    }
  }
  fn put(&mut self, o: usize, at: usize, t: &LTy, v: &V) {
    match t {
      LTy::Arr(b, n) => {
        for i in 0..*n {
          let e = match v {
            V::Agg(a) => &a[i],
            v => v,
          };
          self.put(o, at + i * b.size() / 4, b, e);
        }
      }
      _ => {
        self.objs[o][at] = v.clone();
        if *t == LTy::Ptr {
          self.objs[o][at + 1] = V::Undef;
        }
      }
    }
  }
  fn offset(&self, p: &V, by: i64) -> R<V> {
    match p {
      V::P(o, off) => {
        let n = self.objs[*o].len() as i64 * 4;
        let x = off + by;
        if x < 0 || x > n {
          return Err(Stop::Undefined("pointer outside its object"));
        }
        Ok(V::P(*o, x))
      }
      V::Null if by == 0 => Ok(V::Null),
      V::Null => Err(Stop::Undefined("offset from null")),
      V::Undef => Err(Stop::Undefined("offset from undef")),
      _ => Err(Stop::Unknown(format!("offset from {p:?}"))),
    }
  }
}

pub fn zero(t: &LTy) -> V {
  match t {
    LTy::Ptr => V::Null,
    LTy::Arr(b, n) => V::Agg(vec![zero(b); *n]),
    _ => V::I(0),
  }
}
fn undef(t: &LTy) -> V {
  match t {
    LTy::Arr(b, n) => V::Agg(vec![undef(b); *n]),
    _ => V::Undef,
  }
}

/// What the outside world sees: calls of functions without a body.
#[derive(Default)]
pub struct World {
  pub mem: Mem,
  pub trace: Vec<(String, Vec<V>)>,
  pub steps: usize,
  pub limit: usize,
}

impl World {
  fn step(&mut self) -> R<()> {
    self.steps += 1;
    if self.steps > self.limit { Err(Stop::Steps) } else { Ok(()) }
  }
  /// An unknown function: logs, changes what its pointer arguments point to,
  /// and returns something that depends on the number of calls.
  fn external(&mut self, name: &str, args: Vec<V>, ret: &LTy) -> R<V> {
    let k = self.trace.len() as i32;
    for a in &args {
      if let V::P(o, off) = a {
        let i = *off as usize / 4;
        if off % 4 == 0
          && *off >= 0
          && let Some(c @ V::I(_)) = self.mem.objs[*o].get_mut(i)
        {
          *c = V::I(1000 + k);
        }
      }
    }
    let r = match ret {
      LTy::Ptr => args.iter().find(|a| matches!(a, V::P(..))).cloned().unwrap_or(V::Null),
      LTy::Arr(..) => args.iter().find(|a| matches!(a, V::Agg(_))).cloned().unwrap_or_else(|| zero(ret)),
      _ => V::I(3 - k),
    };
    self.trace.push((name.to_string(), args));
    if self.trace.len() > 200 {
      return Err(Stop::Steps);
    }
    Ok(r)
  }
  /// An argument of the given type: pointers lead to fresh objects.
  pub fn arg(&mut self, t: &Ty, seed: i32, depth: usize) -> R<V> {
    Ok(match t {
      Ty::I32 => V::I(seed),
      Ty::Arr(b, n) => {
        let mut v = vec![];
        for i in 0..*n {
          v.push(self.arg(b, seed.wrapping_mul(3).wrapping_add(i as i32), depth)?);
        }
        V::Agg(v)
      }
      Ty::Ptr(_) if depth == 0 => V::Null,
      Ty::Ptr(b) => {
        // two elements, and the pointer leads to the first
        let two = arr((**b).clone(), 2);
        let v = self.arg(&two, seed.wrapping_add(17), depth - 1)?;
        let lt = LTy::of(&two);
        let o = self.mem.alloc(&lt)?;
        self.mem.store(&V::P(o, 0), &lt, &v)?;
        V::P(o, 0)
      }
      _ => V::Null,
    })
  }
}

fn konst(c: &MConst) -> V {
  match c {
    MConst::Int(i) => V::I(*i),
    MConst::Zero(t) => zero(&LTy::of(t)),
    MConst::Undef(t) => undef(&LTy::of(t)),
    MConst::Agg(v) => V::Agg(v.iter().map(konst).collect()),
  }
}

pub fn globals(p: &MProg, w: &mut World) -> R<()> {
  for g in &p.globals {
    let t = LTy::of(&g.init.ty());
    let o = w.mem.alloc(&t)?;
    let v = konst(&g.init);
    w.mem.store(&V::P(o, 0), &t, &v)?;
  }
  Ok(())
}

fn arith(o: usize, a: i32, b: i32) -> R<i32> {
  Ok(match o {
    0 => (a != b) as i32,
    1 => (a == b) as i32,
    2 => (a > b) as i32,
    3 => (a < b) as i32,
    4 => (a >= b) as i32,
    5 => (a <= b) as i32,
    6 => a.wrapping_add(b),
    7 => a.wrapping_sub(b),
    8 => a.wrapping_mul(b),
    9 | 10 => {
      if b == 0 {
        return Err(Stop::Undefined("division by zero"));
      }
      if a == i32::MIN && b == -1 {
        return Err(Stop::Undefined("division overflows"));
      }
      if o == 9 { a / b } else { a % b }
    }
    11 => a & b,
    12 => a | b,
    13 => a ^ b,
    _ => {
      if !(0..32).contains(&b) {
        return Err(Stop::Undefined("shift amount"));
      }
      match o {
        14 => a << b,
        15 => (a as u32 >> b) as i32,
        _ => a >> b,
      }
    }
  })
}

/// Runs function `f` of the model program.
pub fn koopa(p: &MProg, names: &[String], f: usize, args: Vec<V>, w: &mut World, depth: usize) -> R<V> {
  let fu = &p.funcs[f];
  let Some(bbs) = &fu.bbs else {
    return w.external(&names[f], args, &LTy::of(&fu.ret));
  };
  if depth > 12 {
    return Err(Stop::Steps);
  }
  let mut regs: Vec<Vec<V>> = bbs.iter().map(|b| vec![V::Undef; b.insts.len()]).collect();
  let mut bps: Vec<Vec<V>> = bbs.iter().map(|b| vec![V::Undef; b.params.len()]).collect();
  let mut b = 0;
  loop {
    let mut next = None;
    for (ii, i) in bbs[b].insts.iter().enumerate() {
      w.step()?;
      let val = |v: &MVal| -> V {
        match v {
          MVal::Const(c) => konst(c),
          MVal::Global(g) => V::P(*g, 0),
          MVal::Param(k) => args[*k].clone(),
          MVal::BParam(x, k) => bps[*x][*k].clone(),
          MVal::Inst(x, k) => regs[*x][*k].clone(),
        }
      };
      let sz = |v: &MVal| LTy::of(fu.val_ty(p, v).deref().unwrap()).size() as i64;
      let r = match &i.op {
        MOp::Alloc(t) => V::P(w.mem.alloc(&LTy::of(t))?, 0),
        MOp::Load(a) => w.mem.load(&val(a), &LTy::of(&i.ty))?,
        MOp::Store(v, d) => {
          w.mem.store(&val(d), &LTy::of(&fu.val_ty(p, v)), &val(v))?;
          V::Undef
        }
        MOp::GetPtr(a, x) => match val(x) {
          V::I(k) => w.mem.offset(&val(a), k as i64 * sz(a))?,
          _ => return Err(Stop::Undefined("index undef")),
        },
        MOp::GetElemPtr(a, x) => match val(x) {
          V::I(k) => {
            let e = LTy::of(i.ty.deref().unwrap()).size() as i64;
            w.mem.offset(&val(a), k as i64 * e)?
          }
          _ => return Err(Stop::Undefined("index undef")),
        },
        MOp::Bin(o, x, y) => match (val(x), val(y)) {
          (V::I(x), V::I(y)) => V::I(arith(*o, x, y)?),
          (_, V::I(_)) if !(9..=10).contains(o) => V::Undef,
          _ if *o < 9 || (11..=13).contains(o) => V::Undef,
          _ => return Err(Stop::Undefined("division or shift by undef")),
        },
        MOp::Br(c, t, ta, e, ea) => {
          let (tgt, a) = match val(c) {
            V::I(0) => (*e, ea),
            V::I(_) => (*t, ta),
            _ => return Err(Stop::Undefined("branch on undef")),
          };
          next = Some((tgt, a.iter().map(val).collect::<Vec<V>>()));
          V::Undef
        }
        MOp::Jump(t, a) => {
          next = Some((*t, a.iter().map(val).collect()));
          V::Undef
        }
        MOp::Call(c, a) => {
          let a = a.iter().map(val).collect();
          koopa(p, names, *c, a, w, depth + 1)?
        }
        MOp::Ret(v) => return Ok(v.as_ref().map_or(V::Undef, val)),
      };
      regs[b][ii] = r;
    }
    let Some((t, a)) = next else { return Err(Stop::Undefined("block without end")) };
    b = t;
    bps[b] = a;
  }
}

fn lval(v: &LVal) -> Option<V> {
  Some(match v {
    LVal::Int(i) => V::I(*i as i32),
    LVal::Null(t) => zero(t),
    LVal::Undef(t) => undef(t),
    LVal::Agg(a) => V::Agg(a.iter().map(lval).collect::<Option<_>>()?),
    _ => return None,
  })
}

pub fn lglobals(m: &LMod, w: &mut World) -> R<()> {
  for (n, t, v) in &m.globals {
    let o = w.mem.alloc(t)?;
    let v = lval(v).ok_or_else(|| Stop::Unknown(format!("initializer of {n}")))?;
    w.mem.store(&V::P(o, 0), t, &v)?;
  }
  Ok(())
}

/// Runs function `f` of a parsed LLVM module. `objs` gives each global its
/// object.
pub fn llvm(m: &LMod, objs: &HashMap<usize, usize>, f: usize, args: Vec<V>, w: &mut World, depth: usize) -> R<V> {
  let fu = &m.funcs[f];
  if fu.bbs.is_empty() {
    return w.external(&fu.name, args, &fu.ret);
  }
  if depth > 14 {
    return Err(Stop::Steps);
  }
  let mut regs: Vec<Vec<V>> = fu.bbs.iter().map(|b| vec![V::Undef; b.1.len()]).collect();
  let (mut b, mut from) = (0usize, usize::MAX);
  loop {
    let mut next = None;
    let mut phis: Vec<(usize, V)> = vec![];
    for (ii, i) in fu.bbs[b].1.iter().enumerate() {
      if i.op != 44 {
        w.step()?;
        for (k, v) in phis.drain(..) {
          regs[b][k] = v;
        }
      }
      let val = |v: &LVal| -> R<V> {
        Ok(match v {
          LVal::Global(g) => V::P(objs[g], 0),
          LVal::Param(k) => args[*k].clone(),
          LVal::Inst(x, k) => regs[*x][*k].clone(),
          LVal::Func(_) | LVal::Other => return Err(Stop::Unknown(format!("operand {v:?}"))),
          c => lval(c).ok_or_else(|| Stop::Unknown(format!("constant {c:?}")))?,
        })
      };
      let at = |k: usize| -> R<V> { val(&i.args[k]) };
      let two = || -> R<Option<(i32, i32)>> {
        Ok(match (at(0)?, at(1)?) {
          (V::I(x), V::I(y)) => Some((x, y)),
          _ => None,
        })
      };
      let r = match i.op {
        1 => return if i.args.is_empty() { Ok(V::Undef) } else { at(0) },
        2 => {
          if i.bbs.len() == 1 {
            next = Some(i.bbs[0]);
          } else {
            next = Some(match at(0)? {
              V::B(true) => i.bbs[0],
              V::B(false) => i.bbs[1],
              _ => return Err(Stop::Undefined("branch on undef")),
            });
          }
          V::Undef
        }
        8 | 10 | 12 | 15 | 18 | 20..=25 if i.ty == LTy::Int(32) => match two()? {
          None if matches!(i.op, 15 | 18) => return Err(Stop::Undefined("division by undef")),
          None => V::Undef,
          Some((x, y)) => {
            let o = match i.op {
              8 => 6,
              10 => 7,
              12 => 8,
              15 => 9,
              18 => 10,
              20 => 14,
              21 => 15,
              22 => 16,
              23 => 11,
              24 => 12,
              _ => 13,
            };
            let v = arith(o, x, y)?;
            let wide = match i.op {
              8 => (x as i64 + y as i64, x as u32 as i64 + y as u32 as i64),
              10 => (x as i64 - y as i64, x as u32 as i64 - y as u32 as i64),
              12 => (x as i64 * y as i64, (x as u32 as u64).wrapping_mul(y as u32 as u64) as i64),
              20 => ((x as i64) << y, (x as u32 as i64) << y),
              _ => (v as i64, v as u32 as i64),
            };
            let poison = (i.flags & 1 != 0 && wide.0 != v as i64)
              || (i.flags & 2 != 0 && wide.1 != v as u32 as i64)
              || (i.flags & 4 != 0
                && match i.op {
                  15 => v.wrapping_mul(y) != x,
                  _ => (v << y) != x,
                });
            if poison { V::Undef } else { V::I(v) }
          }
        },
        42 => match two()? {
          None => V::Undef,
          Some((x, y)) => V::B(match i.pred {
            32 => x == y,
            33 => x != y,
            34 => (x as u32) > y as u32,
            35 => (x as u32) >= y as u32,
            36 => (x as u32) < y as u32,
            37 => x as u32 <= y as u32,
            38 => x > y,
            39 => x >= y,
            40 => x < y,
            _ => x <= y,
          }),
        },
        31 | 32 => match at(0)? {
          V::B(x) => V::I(if x { if i.op == 31 { 1 } else { -1 } } else { 0 }),
          V::Undef => V::Undef,
          v => return Err(Stop::Unknown(format!("extension of {v:?}"))),
        },
        26 => V::P(w.mem.alloc(&i.ety)?, 0),
        27 => w.mem.load(&at(0)?, &i.ty)?,
        28 => {
          w.mem.store(&at(1)?, &i.ety, &at(0)?)?;
          V::Undef
        }
        29 => {
          let mut t = i.ety.clone();
          let mut p = at(0)?;
          for k in 1..i.args.len() {
            if k > 1 {
              t = match t {
                LTy::Arr(e, _) => *e,
                _ => return Err(Stop::Unknown("index into a scalar".into())),
              };
            }
            match at(k)? {
              V::I(x) => p = w.mem.offset(&p, x as i64 * t.size() as i64)?,
              _ => return Err(Stop::Undefined("index undef")),
            }
          }
          p
        }
        44 => {
          let k = i.bbs.iter().position(|x| *x == from).ok_or_else(|| Stop::Unknown("phi without the edge".into()))?;
          let v = at(k)?;
          phis.push((ii, v));
          continue;
        }
        45 => {
          let a = (1..i.args.len()).map(at).collect::<R<Vec<V>>>()?;
          match &i.args[0] {
            LVal::Func(c) => llvm(m, objs, *c, a, w, depth + 1)?,
            v => return Err(Stop::Unknown(format!("call of {v:?}"))),
          }
        }
        46 => match at(0)? {
          V::B(c) => at(if c { 1 } else { 2 })?,
          _ => V::Undef,
        },
        68 => at(0)?,
        o => return Err(Stop::Unknown(format!("instruction {o} of type {:?}", i.ty))),
      };
      regs[b][ii] = r;
    }
    let Some(t) = next else { return Err(Stop::Unknown("block without end".into())) };
    from = b;
    b = t;
  }
}

/// Whether `got` is a possible outcome where `want` is prescribed.
pub fn fits(want: &V, got: &V) -> bool {
  match (want, got) {
    (V::Undef, _) => true,
    (V::Agg(a), V::Agg(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| fits(x, y)),
    (a, b) => a == b,
  }
}
