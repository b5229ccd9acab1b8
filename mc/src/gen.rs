//! Exhaustive enumerators of valid model programs. Each takes a consumer that
//! returns false to stop early.
use crate::model::*;

pub type Out<'a> = &'a mut dyn FnMut(&MProg);

pub fn int(i: i32) -> MVal {
  MVal::Const(MConst::Int(i))
}
pub fn undef(t: Ty) -> MVal {
  MVal::Const(MConst::Undef(t))
}
pub fn zero(t: Ty) -> MVal {
  MVal::Const(MConst::Zero(t))
}

pub struct PB {
  pub p: MProg,
}

impl PB {
  pub fn new() -> PB {
    PB { p: MProg::default() }
  }
  pub fn global(&mut self, n: Option<&str>, init: MConst) -> MVal {
    self.p.globals.push(MGlobal { name: n.map(|s| s.into()), init });
    MVal::Global(self.p.globals.len() - 1)
  }
  pub fn decl(&mut self, n: &str, params: &[Ty], ret: Ty) -> usize {
    self.p.funcs.push(MFunc { name: n.into(), params: params.iter().map(|t| (None, t.clone())).collect(), ret, bbs: None });
    self.p.funcs.len() - 1
  }
  pub fn fun(&mut self, n: &str, params: &[(Option<&str>, Ty)], ret: Ty) -> usize {
    self.p.funcs.push(MFunc {
      name: n.into(),
      params: params.iter().map(|(n, t)| (n.map(|s| s.to_string()), t.clone())).collect(),
      ret,
      bbs: Some(vec![]),
    });
    self.p.funcs.len() - 1
  }
  pub fn f(&mut self, f: usize) -> &mut MFunc {
    &mut self.p.funcs[f]
  }
  pub fn block(&mut self, f: usize, n: Option<&str>, params: &[(Option<&str>, Ty)]) -> usize {
    let b = self.p.funcs[f].bbs.as_mut().unwrap();
    b.push(MBlock {
      name: n.map(|s| s.into()),
      params: params.iter().map(|(n, t)| (n.map(|s| s.to_string()), t.clone())).collect(),
      insts: vec![],
    });
    b.len() - 1
  }
  pub fn inst(&mut self, f: usize, b: usize, n: Option<&str>, op: MOp) -> MVal {
    let ty = op_ty(&self.p, &self.p.funcs[f], &op);
    let i = &mut self.p.funcs[f].bbs.as_mut().unwrap()[b].insts;
    i.push(MInst { name: n.map(|s| s.into()), ty, op });
    MVal::Inst(b, i.len() - 1)
  }
}

pub fn op_ty(p: &MProg, f: &MFunc, op: &MOp) -> Ty {
  match op {
    MOp::Alloc(t) => ptr(t.clone()),
    MOp::Load(a) => f.val_ty(p, a).deref().unwrap().clone(),
    MOp::GetPtr(a, _) => f.val_ty(p, a),
    MOp::GetElemPtr(a, _) => match f.val_ty(p, a).deref().unwrap() {
      Ty::Arr(b, _) => ptr((**b).clone()),
      _ => panic!(),
    },
    MOp::Bin(..) => Ty::I32,
    MOp::Call(c, _) => p.funcs[*c].ret.clone(),
    _ => Ty::Unit,
  }
}

/// All types built with at most `d` constructors around the leaves.
pub fn types(d: usize, fun: bool) -> Vec<Ty> {
  let mut lvl: Vec<Vec<Ty>> = vec![vec![Ty::I32]];
  for _ in 0..d {
    let mut n = vec![];
    for t in lvl.last().unwrap() {
      n.push(ptr(t.clone()));
      n.push(arr(t.clone(), 1));
      n.push(arr(t.clone(), 3));
      if fun {
        n.push(Ty::Fun(vec![], Box::new(t.clone())));
        n.push(Ty::Fun(vec![t.clone()], Box::new(Ty::Unit)));
        n.push(Ty::Fun(vec![t.clone(), Ty::I32], Box::new(t.clone())));
      }
    }
    if fun && lvl.len() == 1 {
      n.push(Ty::Fun(vec![], Box::new(Ty::Unit)));
    }
    lvl.push(n);
  }
  lvl.concat()
}

/// Constants of a type: every shape down to depth `d`.
pub fn consts(t: &Ty, d: usize) -> Vec<MConst> {
  let mut v = vec![MConst::Zero(t.clone()), MConst::Undef(t.clone())];
  match t {
    Ty::I32 => v.extend([0, 1, -1, i32::MAX, i32::MIN, 10, -2147483647].map(MConst::Int)),
    Ty::Arr(b, n) if d > 0 => {
      let es = consts(b, d - 1);
      // all equal, and every element in every position next to a fixed one
      for e in &es {
        v.push(MConst::Agg(vec![e.clone(); *n]));
      }
      if *n > 1 {
        for k in 0..*n {
          for e in &es[1..] {
            let mut a = vec![es[0].clone(); *n];
            a[k] = e.clone();
            v.push(MConst::Agg(a));
          }
        }
        let mixed: Vec<MConst> = (0..*n).map(|i| es[i % es.len()].clone()).collect();
        v.push(MConst::Agg(mixed));
      }
    }
    _ => {}
  }
  v.dedup();
  v
}

/// Globals: every constant of every small type, plus pairs of globals.
pub fn globals(depth: usize, fun: bool, out: Out) {
  for t in types(depth, fun) {
    for c in consts(&t, depth) {
      let mut p = PB::new();
      p.global(Some("@g"), c.clone());
      out(&p.p);
    }
    for (i, c) in consts(&t, 1).into_iter().enumerate() {
      let mut p = PB::new();
      p.global(if i % 2 == 0 { None } else { Some("%a") }, c.clone());
      p.global(Some("@b"), MConst::Int(i as i32));
      p.global(None, c);
      out(&p.p);
    }
  }
}

/// Values of type `t` a one-block function with the usual environment offers.
fn pool(t: &Ty, p: &PB, f: usize, b: usize) -> Vec<MVal> {
  let mut v: Vec<MVal> = vec![];
  let fu = &p.p.funcs[f];
  for (i, x) in fu.params.iter().enumerate() {
    if x.1 == *t {
      v.push(MVal::Param(i));
    }
  }
  for (i, g) in p.p.globals.iter().enumerate() {
    if ptr(g.init.ty()) == *t {
      v.push(MVal::Global(i));
    }
  }
  for (bi, bb) in fu.bbs.as_ref().unwrap().iter().enumerate().take(b + 1) {
    for (i, x) in bb.params.iter().enumerate() {
      if x.1 == *t && bi == b {
        v.push(MVal::BParam(bi, i));
      }
    }
    for (i, x) in bb.insts.iter().enumerate() {
      if x.ty == *t && *t != Ty::Unit {
        v.push(MVal::Inst(bi, i));
      }
    }
  }
  v
}

/// Every instruction kind at every type of a universe with every operand form.
pub fn matrix(depth: usize, fun: bool, out: Out) {
  let env = |t: &Ty| -> (PB, usize, usize) {
    let mut p = PB::new();
    p.global(Some("@gi"), MConst::Int(7));
    p.global(Some("@gt"), MConst::Zero(t.clone()));
    p.decl("@ext", std::slice::from_ref(t), t.clone());
    p.decl("@ext0", &[], Ty::Unit);
    let f = p.fun("@f", &[(Some("@x"), Ty::I32), (None, t.clone()), (Some("%q"), ptr(t.clone()))], t.clone());
    let b = p.block(f, Some("%entry"), &[]);
    (p, f, b)
  };
  let fin = |mut p: PB, f: usize, b: usize, t: &Ty, v: Option<MVal>| -> PB {
    let v = v.unwrap_or(undef(t.clone()));
    p.inst(f, b, None, MOp::Ret(Some(v)));
    p
  };
  for t in types(depth, fun) {
    let isum = |p: &PB, f, b| {
      let mut v = pool(&Ty::I32, p, f, b);
      v.extend([0, 1, -1, i32::MAX, i32::MIN].map(int));
      v.push(undef(Ty::I32));
      v
    };
    // ret of every form
    {
      let (p, f, b) = env(&t);
      let mut vs = pool(&t, &p, f, b);
      if t == Ty::I32 {
        vs.extend([0, -5].map(int));
      }
      for v in vs {
        let (p, f, b) = env(&t);
        out(&fin(p, f, b, &t, Some(v)).p);
      }
    }
    // alloc / store of every constant and value / load
    let (p0, f0, b0) = env(&t);
    let mut srcs: Vec<MVal> = consts(&t, 2).into_iter().map(MVal::Const).collect();
    srcs.extend(pool(&t, &p0, f0, b0));
    for s in &srcs {
      for (di, nm) in [(0, Some("%p")), (1, None), (2, None)] {
        let (mut p, f, b) = env(&t);
        let d = match di {
          0 => p.inst(f, b, nm, MOp::Alloc(t.clone())),
          1 => MVal::Global(1),
          _ => MVal::Param(2),
        };
        p.inst(f, b, None, MOp::Store(s.clone(), d.clone()));
        let l = p.inst(f, b, if di == 1 { Some("@l") } else { None }, MOp::Load(d));
        out(&fin(p, f, b, &t, Some(l)).p);
      }
    }
    // getptr, getelemptr with every index form
    for base in [MVal::Param(2), MVal::Global(1), MVal::Inst(0, 0)] {
      let mk = || {
        let (mut p, f, b) = env(&t);
        p.inst(f, b, None, MOp::Alloc(t.clone()));
        (p, f, b)
      };
      let (p1, f1, b1) = mk();
      for ix in isum(&p1, f1, b1) {
        let (mut p, f, b) = mk();
        let g = p.inst(f, b, None, MOp::GetPtr(base.clone(), ix.clone()));
        let l = p.inst(f, b, None, MOp::Load(g));
        out(&fin(p, f, b, &t, Some(l)).p);
        if let Ty::Arr(e, _) = &t {
          let (mut p, f, b) = mk();
          let g = p.inst(f, b, Some("%e"), MOp::GetElemPtr(base.clone(), ix.clone()));
          let l = p.inst(f, b, None, MOp::Load(g.clone()));
          p.inst(f, b, None, MOp::Store(l, g.clone()));
          if let Ty::Arr(..) = &**e {
            let g2 = p.inst(f, b, None, MOp::GetElemPtr(g, ix.clone()));
            p.inst(f, b, None, MOp::Load(g2));
          }
          out(&fin(p, f, b, &t, None).p);
        }
      }
    }
    // call: every argument form; result named, unnamed, returned
    {
      let mut args: Vec<MVal> = pool(&t, &p0, f0, b0);
      args.push(undef(t.clone()));
      if t == Ty::I32 {
        args.extend([0, -1].map(int));
      }
      for a in args {
        for n in [None, Some("%r"), Some("@r")] {
          let (mut p, f, b) = env(&t);
          let r = p.inst(f, b, n, MOp::Call(0, vec![a.clone()]));
          p.inst(f, b, None, MOp::Call(1, vec![]));
          out(&fin(p, f, b, &t, Some(r)).p);
        }
      }
    }
    // block parameters of that type through jump and both branch arms
    for form in 0..4 {
      for (ai, src) in [MVal::Param(1), undef(t.clone())].into_iter().enumerate() {
        let (mut p, f, b) = env(&t);
        let n = if ai == 0 { Some("%bp") } else { None };
        let b1 = p.block(f, if form % 2 == 0 { Some("%next") } else { None }, &[(n, t.clone()), (None, Ty::I32)]);
        let b2 = p.block(f, Some("@other"), &[]);
        let op = match form {
          0 => MOp::Jump(b1, vec![src.clone(), MVal::Param(0)]),
          1 => MOp::Br(MVal::Param(0), b1, vec![src.clone(), int(3)], b2, vec![]),
          2 => MOp::Br(int(1), b2, vec![], b1, vec![src.clone(), undef(Ty::I32)]),
          _ => MOp::Br(undef(Ty::I32), b2, vec![], b2, vec![]),
        };
        p.inst(f, b, None, op);
        p.inst(f, b1, None, MOp::Ret(Some(MVal::BParam(b1, 0))));
        if form == 3 {
          p.inst(f, b2, None, MOp::Jump(b1, vec![src.clone(), int(0)]));
        } else {
          p.inst(f, b2, None, MOp::Ret(Some(undef(t.clone()))));
        }
        out(&p.p);
      }
    }
  }
  // binary: every operator with every pair of operand forms
  for o in 0..17 {
    let forms = [MVal::Param(0), MVal::Param(1), int(0), int(-1), int(i32::MIN), int(31), undef(Ty::I32)];
    for a in &forms {
      for b in &forms {
        let mut p = PB::new();
        let f = p.fun("@f", &[(Some("@x"), Ty::I32), (None, Ty::I32)], Ty::I32);
        let e = p.block(f, None, &[]);
        let r = p.inst(f, e, None, MOp::Bin(o, a.clone(), b.clone()));
        p.inst(f, e, None, MOp::Ret(Some(r)));
        out(&p.p);
      }
    }
  }
}

/// Every control-flow graph of `n` blocks whose blocks end in ret, jump or br
/// to any non-entry block, with `np` parameters per non-entry block; blocks
/// are in the given (arbitrary) layout order, reachable or not.
pub fn cfgs(n: usize, np: &dyn Fn(usize) -> usize, with_insts: bool, only_reachable: bool, out: Out) {
  let tm = 1 + (n - 1) + (n - 1) * (n - 1);
  let total = tm.pow(n as u32);
  for code in 0..total {
    let mut c = code;
    let mut p = PB::new();
    let g = p.global(Some("@g"), MConst::Int(0));
    let f = p.fun("@f", &[(Some("@x"), Ty::I32), (Some("@y"), Ty::I32)], Ty::I32);
    for b in 0..n {
      let ps: Vec<(Option<&str>, Ty)> = if b == 0 { vec![] } else { (0..np(b)).map(|_| (None, Ty::I32)).collect() };
      p.block(f, None, &ps);
    }
    // terminators first decide; values used as arguments: own params, own
    // instruction, function parameters, constants
    for b in 0..n {
      let t = c % tm;
      c /= tm;
      let mut vals = vec![MVal::Param(b % 2)];
      if b > 0 {
        for i in 0..np(b) {
          vals.insert(0, MVal::BParam(b, i));
        }
      }
      if with_insts {
        let v = p.inst(f, b, None, MOp::Bin(6, vals[0].clone(), int(b as i32 + 1)));
        vals.insert(0, v);
        p.inst(f, b, None, MOp::Store(vals[0].clone(), g.clone()));
      }
      vals.push(int(40 + b as i32));
      let args = |tgt: usize, k: usize| -> Vec<MVal> { (0..np(tgt)).map(|i| vals[(i + k) % vals.len()].clone()).collect() };
      let op = if t == 0 {
        MOp::Ret(Some(vals[0].clone()))
      } else if t < n {
        MOp::Jump(t, args(t, 0))
      } else {
        let (x, y) = ((t - n) / (n - 1) + 1, (t - n) % (n - 1) + 1);
        if x == y && np(x) > 0 {
          // the builders document this branch as illegal
          MOp::Jump(x, args(x, 1))
        } else {
          MOp::Br(MVal::Param(1 - b % 2), x, args(x, 0), y, args(y, 1))
        }
      };
      p.inst(f, b, None, op);
    }
    if only_reachable && p.p.funcs[f].bfs().len() != n {
      continue;
    }
    out(&p.p);
  }
}

/// All straight-line bodies of exactly `k` instructions over a menu, operands
/// ranging over everything in scope.
pub fn lines(k: usize, out: Out) {
  let at = arr(Ty::I32, 2);
  let mut p = PB::new();
  p.global(Some("@g"), MConst::Int(3));
  p.global(Some("@a"), MConst::Agg(vec![MConst::Int(1), MConst::Zero(Ty::I32)]));
  p.decl("@h", &[Ty::I32], Ty::I32);
  p.decl("@n", &[ptr(Ty::I32)], Ty::Unit);
  let f = p.fun("@f", &[(Some("@x"), Ty::I32)], Ty::I32);
  let b = p.block(f, Some("%e"), &[]);
  fn rec(p: &mut PB, f: usize, b: usize, k: usize, at: &Ty, out: Out) {
    if k == 0 {
      let vs = pool(&Ty::I32, p, f, b);
      p.inst(f, b, None, MOp::Ret(Some(vs.last().unwrap().clone())));
      out(&p.p);
      p.f(f).bbs.as_mut().unwrap()[b].insts.pop();
      return;
    }
    let is: Vec<MVal> = pool(&Ty::I32, p, f, b).into_iter().chain([int(-1)]).collect();
    let ps = pool(&ptr(Ty::I32), p, f, b);
    let aps = pool(&ptr(at.clone()), p, f, b);
    let mut ops = vec![MOp::Alloc(Ty::I32), MOp::Alloc(at.clone())];
    for q in ps.iter() {
      ops.push(MOp::Load(q.clone()));
      ops.push(MOp::GetPtr(q.clone(), is[0].clone()));
      for i in &is {
        ops.push(MOp::Store(i.clone(), q.clone()));
      }
      ops.push(MOp::Call(1, vec![q.clone()]));
    }
    for q in &aps {
      for i in &is {
        ops.push(MOp::GetElemPtr(q.clone(), i.clone()));
      }
      ops.push(MOp::Load(q.clone()));
      ops.push(MOp::Store(zero(at.clone()), q.clone()));
      ops.push(MOp::Store(MVal::Const(MConst::Agg(vec![MConst::Int(5), MConst::Undef(Ty::I32)])), q.clone()));
    }
    for i in &is {
      ops.push(MOp::Bin(7, i.clone(), is[0].clone()));
      ops.push(MOp::Call(0, vec![i.clone()]));
    }
    for op in ops {
      p.inst(f, b, None, op);
      rec(p, f, b, k - 1, at, out);
      p.f(f).bbs.as_mut().unwrap()[b].insts.pop();
    }
  }
  rec(&mut p, f, b, k, &at, out);
}

/// Modules of `n` functions, each a declaration or a definition, each
/// definition calling every combination of functions; `fwd` allows calls of
/// functions introduced later.
pub fn calls(n: usize, fwd: bool, out: Out) {
  // signature: 0: (): unit, 1: (i32): i32, 2: (i32, *i32), 3: (): i32 ; decl or def
  let kinds = 8usize;
  let mut code = 0usize;
  let total = kinds.pow(n as u32);
  while code < total {
    let mut c = code;
    code += 1;
    let mut sig = vec![];
    for _ in 0..n {
      sig.push((c % 4, (c / 4) % 2));
      c /= kinds;
    }
    if sig.iter().all(|s| s.1 == 0) {
      continue;
    }
    // which callees each definition calls: all subsets
    let defs: Vec<usize> = (0..n).filter(|i| sig[*i].1 == 1).collect();
    let sets = 1usize << n;
    let mut sel = vec![0usize; defs.len()];
    loop {
      let ok = fwd || defs.iter().zip(&sel).all(|(d, s)| (0..n).all(|j| s & (1 << j) == 0 || j <= *d));
      if ok {
        let mut p = PB::new();
        p.global(None, MConst::Int(2));
        for (i, s) in sig.iter().enumerate() {
          let name = format!("@f{i}");
          let (pt, ret) = match s.0 {
            0 => (vec![], Ty::Unit),
            1 => (vec![Ty::I32], Ty::I32),
            2 => (vec![Ty::I32, ptr(Ty::I32)], Ty::Unit),
            _ => (vec![], Ty::I32),
          };
          if s.1 == 0 {
            p.decl(&name, &pt, ret);
          } else {
            let ps: Vec<(Option<&str>, Ty)> = pt.iter().enumerate().map(|(k, t)| (if k == 0 { Some("@p") } else { None }, t.clone())).collect();
            p.fun(&name, &ps, ret);
          }
        }
        for (d, s) in defs.iter().zip(&sel) {
          let b = p.block(*d, Some("%entry"), &[]);
          let mut last = int(9);
          for j in 0..n {
            if s & (1 << j) != 0 {
              let args = match sig[j].0 {
                1 => vec![last.clone()],
                2 => vec![last.clone(), MVal::Global(0)],
                _ => vec![],
              };
              let r = p.inst(*d, b, None, MOp::Call(j, args));
              if sig[j].0 % 2 == 1 {
                last = r;
              }
            }
          }
          let rv = if sig[*d].0 % 2 == 1 { Some(last) } else { None };
          p.inst(*d, b, None, MOp::Ret(rv));
        }
        out(&p.p);
      }
      let mut k = 0;
      while k < sel.len() {
        sel[k] += 1;
        if sel[k] < sets {
          break;
        }
        sel[k] = 0;
        k += 1;
      }
      if k == sel.len() {
        break;
      }
    }
  }
}

/// One program, every assignment of names from `menu` to its slots.
/// Slots: global, function 2, param, block 1, block 2, block parameter,
/// instruction 1, instruction 2. (Duplicate names are not filtered.)
pub const NAME_SLOTS: usize = 9;
pub fn names(menu: &[Option<&str>], out: &mut dyn FnMut(&MProg, &[usize])) {
  let mut idx = [0usize; NAME_SLOTS];
  loop {
    let n = |i: usize| menu[idx[i]];
    let mut p = PB::new();
    p.global(n(0), MConst::Int(1));
    let d = p.decl("@d", &[Ty::I32], Ty::I32);
    let f = p.fun(n(1).unwrap_or("@f"), &[(n(2), Ty::I32), (n(3), ptr(Ty::I32))], Ty::I32);
    let b0 = p.block(f, n(4), &[]);
    let b1 = p.block(f, n(5), &[(n(6), Ty::I32)]);
    let l = p.inst(f, b0, n(7), MOp::Load(MVal::Global(0)));
    p.inst(f, b0, None, MOp::Store(l.clone(), MVal::Param(1)));
    p.inst(f, b0, None, MOp::Jump(b1, vec![MVal::Param(0)]));
    let c = p.inst(f, b1, n(8), MOp::Call(d, vec![MVal::BParam(b1, 0)]));
    let s = p.inst(f, b1, None, MOp::Bin(6, c, l));
    let h = p.inst(f, b1, None, MOp::Call(f, vec![s, MVal::Param(1)]));
    p.inst(f, b1, None, MOp::Ret(Some(h)));
    out(&p.p, &idx);
    let mut k = 0;
    while k < NAME_SLOTS {
      idx[k] += 1;
      if idx[k] < menu.len() {
        break;
      }
      idx[k] = 0;
      k += 1;
    }
    if k == NAME_SLOTS {
      return;
    }
  }
}

/// Sizes around which things may change.
const LARGE: [usize; 20] = [31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1025];

/// One dimension at a time grown through every size up to `max`, and through
/// some larger ones.
pub fn sweeps(max: usize, fun: bool, out: Out) {
  sweeps_at(&mut (0..=max).chain(LARGE.into_iter().filter(|n| *n > max)), fun, out)
}

pub fn sweeps_at(sizes: &mut dyn Iterator<Item = usize>, fun: bool, out: Out) {
  for n in sizes {
    // globals
    let mut p = PB::new();
    for i in 0..n {
      p.global(if i % 3 == 0 { None } else { Some(Box::leak(format!("@g{i}").into_boxed_str())) }, MConst::Int(i as i32 * 1001 - 7));
    }
    out(&p.p);
    // declarations with n parameters, functions with n parameters and a call
    let mut p = PB::new();
    let tys: Vec<Ty> = (0..n).map(|i| if i % 3 == 2 { ptr(Ty::I32) } else { Ty::I32 }).collect();
    let d = p.decl("@d", &tys, Ty::I32);
    let ps: Vec<(Option<&str>, Ty)> = tys.iter().enumerate().map(|(i, t)| (if i % 2 == 0 { None } else { Some(&*Box::leak(format!("@p{i}").into_boxed_str())) }, t.clone())).collect();
    let f = p.fun("@f", &ps, Ty::I32);
    let b = p.block(f, Some("%e"), &[]);
    let r = p.inst(f, b, None, MOp::Call(d, (0..n).map(MVal::Param).collect()));
    p.inst(f, b, None, MOp::Call(f, (0..n).map(MVal::Param).collect()));
    p.inst(f, b, None, MOp::Ret(Some(r)));
    out(&p.p);
    // n functions
    let mut p = PB::new();
    for i in 0..n {
      let f = p.fun(&format!("@f{i}"), &[], Ty::I32);
      let b = p.block(f, Some("%e"), &[]);
      let v = if i > 0 { p.inst(f, b, None, MOp::Call(i / 2, vec![])) } else { int(5) };
      p.inst(f, b, None, MOp::Ret(Some(v)));
    }
    out(&p.p);
    // a chain of n blocks with a value carried by a parameter, and used from
    // the first block
    let mut p = PB::new();
    let f = p.fun("@f", &[(Some("@x"), Ty::I32)], Ty::I32);
    p.block(f, None, &[]);
    let first = p.inst(f, 0, None, MOp::Bin(8, MVal::Param(0), int(3)));
    for i in 1..=n {
      p.block(f, if i % 3 == 0 { Some(Box::leak(format!("%b{i}").into_boxed_str())) } else { None }, &[(None, Ty::I32)]);
    }
    for i in 0..n {
      let v = p.inst(f, i, None, MOp::Bin(6, if i == 0 { first.clone() } else { MVal::BParam(i, 0) }, first.clone()));
      p.inst(f, i, None, MOp::Jump(i + 1, vec![v]));
    }
    p.inst(f, n, None, MOp::Ret(Some(first)));
    out(&p.p);
    // n predecessors of one block: a decision ladder
    let mut p = PB::new();
    let f = p.fun("@f", &[(Some("@x"), Ty::I32)], Ty::I32);
    p.block(f, Some("%entry"), &[]);
    let j = p.block(f, Some("%join"), &[(Some("%v"), Ty::I32)]);
    let mut prev = 0;
    for i in 0..n {
      let c = p.inst(f, prev, None, MOp::Bin(1, MVal::Param(0), int(i as i32)));
      let nx = p.block(f, None, &[]);
      p.inst(f, prev, None, MOp::Br(c, j, vec![int(i as i32 * 2)], nx, vec![]));
      prev = nx;
    }
    p.inst(f, prev, None, MOp::Jump(j, vec![MVal::Param(0)]));
    p.inst(f, j, None, MOp::Ret(Some(MVal::BParam(j, 0))));
    out(&p.p);
    // n block parameters
    let mut p = PB::new();
    let f = p.fun("@f", &[(Some("@x"), Ty::I32)], Ty::I32);
    p.block(f, None, &[]);
    let ps: Vec<(Option<&str>, Ty)> = (0..n).map(|_| (None, Ty::I32)).collect();
    let j = p.block(f, Some("%join"), &ps);
    let k = p.block(f, Some("%k"), &[]);
    p.inst(f, 0, None, MOp::Br(MVal::Param(0), j, (0..n).map(|i| int(i as i32)).collect(), k, vec![]));
    p.inst(f, k, None, MOp::Jump(j, (0..n).map(|i| if i % 2 == 0 { MVal::Param(0) } else { int(-(i as i32)) }).collect()));
    let rv = if n > 0 { MVal::BParam(j, n - 1) } else { int(0) };
    p.inst(f, j, None, MOp::Ret(Some(rv)));
    out(&p.p);
    // n instructions
    let mut p = PB::new();
    let f = p.fun("@f", &[(Some("@x"), Ty::I32)], Ty::I32);
    p.block(f, None, &[]);
    let mut v = MVal::Param(0);
    for i in 0..n {
      v = p.inst(f, 0, None, MOp::Bin(i % 17, v, int(i as i32 + 1)));
    }
    p.inst(f, 0, None, MOp::Ret(Some(v)));
    out(&p.p);
    // the same explicit name asked for n times
    let mut p = PB::new();
    let f = p.fun("@f", &[(Some("@x"), Ty::I32)], Ty::I32);
    p.block(f, None, &[]);
    let mut v = MVal::Param(0);
    for i in 0..n {
      v = p.inst(f, 0, Some(Box::leak(format!("%v{i}").into_boxed_str())), MOp::Bin(6, v, int(1)));
    }
    p.inst(f, 0, None, MOp::Ret(Some(v)));
    out(&p.p);
    if n > 0 {
      // long arrays, deep types, long names
      let mut p = PB::new();
      p.global(Some("@a"), MConst::Agg((0..n).map(|i| MConst::Int(i as i32)).collect()));
      p.global(Some("@z"), MConst::Zero(arr(Ty::I32, n.min(70) * n * 1000 + n)));
      out(&p.p);
      let mut t = Ty::I32;
      let mut pt = Ty::I32;
      let mut ft = Ty::I32;
      for i in 0..n.min(60) {
        t = arr(t, 1 + i % 2);
        pt = if i % 3 == 0 { arr(pt, 2) } else { ptr(pt) };
        ft = ptr(Ty::Fun(vec![ft.clone()], Box::new(Ty::I32)));
      }
      let mut p = PB::new();
      if n < 20 {
        p.global(Some("@t"), MConst::Zero(t));
      }
      p.global(Some("@p"), MConst::Undef(ptr(pt)));
      if fun {
        p.global(Some("@f"), MConst::Zero(ft));
      }
      out(&p.p);
      let mut c = MConst::Int(n as i32);
      for i in 0..n.min(60) {
        c = if i % 4 == 3 && n < 12 { MConst::Agg(vec![c.clone(), c]) } else { MConst::Agg(vec![c]) };
      }
      let mut p = PB::new();
      p.global(Some("@c"), c);
      out(&p.p);
      let mut p = PB::new();
      let nm: String = format!("@{}", "aZ_9".repeat(n));
      p.global(Some(&nm), MConst::Int(1));
      let f = p.fun(&format!("%{}", "b_".repeat(n)), &[(Some(&format!("%{}x", "c".repeat(n))), Ty::I32)], Ty::I32);
      p.block(f, Some(&format!("%{}", "_".repeat(n))), &[]);
      let v = p.inst(f, 0, Some(&format!("%{}y", "c".repeat(n))), MOp::Load(MVal::Global(0)));
      p.inst(f, 0, None, MOp::Ret(Some(v)));
      out(&p.p);
    }
  }
}

/// A few programs that use every feature at once; the seeds of mutations.
pub fn seeds() -> Vec<MProg> {
  let mut v = vec![];
  // 0: everything
  let at = arr(Ty::I32, 2);
  let mut p = PB::new();
  p.global(Some("@g"), MConst::Agg(vec![MConst::Int(-3), MConst::Undef(Ty::I32)]));
  p.global(None, MConst::Zero(ptr(Ty::I32)));
  let d = p.decl("@d", &[Ty::I32, ptr(Ty::I32)], Ty::I32);
  let u = p.decl("@u", &[], Ty::Unit);
  let f = p.fun("@f", &[(Some("@x"), Ty::I32), (Some("%y"), ptr(at.clone()))], Ty::I32);
  let e = p.block(f, Some("%entry"), &[]);
  let l = p.block(f, Some("%loop"), &[(Some("%i"), Ty::I32), (None, ptr(Ty::I32))]);
  let z = p.block(f, Some("%end"), &[]);
  let a = p.inst(f, e, Some("%a"), MOp::Alloc(at.clone()));
  p.inst(f, e, None, MOp::Store(zero(at.clone()), a.clone()));
  p.inst(f, e, None, MOp::Store(MVal::Const(MConst::Agg(vec![MConst::Int(1), MConst::Int(2)])), MVal::Param(1)));
  let q = p.inst(f, e, None, MOp::GetElemPtr(a, int(1)));
  p.inst(f, e, None, MOp::Jump(l, vec![MVal::Param(0), q]));
  let q2 = p.inst(f, l, None, MOp::GetPtr(MVal::BParam(l, 1), MVal::BParam(l, 0)));
  let ld = p.inst(f, l, None, MOp::Load(MVal::BParam(l, 1)));
  let s = p.inst(f, l, Some("%s"), MOp::Bin(7, ld, undef(Ty::I32)));
  let c = p.inst(f, l, None, MOp::Call(d, vec![s.clone(), q2.clone()]));
  p.inst(f, l, None, MOp::Call(u, vec![]));
  p.inst(f, l, None, MOp::Br(c, l, vec![s.clone(), q2], z, vec![]));
  let g = p.inst(f, z, None, MOp::GetElemPtr(MVal::Global(0), int(0)));
  p.inst(f, z, None, MOp::Store(s.clone(), g));
  p.inst(f, z, None, MOp::Ret(Some(s)));
  let h = p.fun("@h", &[], Ty::Unit);
  p.block(h, Some("%entry"), &[]);
  p.inst(h, 0, None, MOp::Call(f, vec![int(4), undef(ptr(at))]));
  p.inst(h, 0, None, MOp::Ret(None));
  v.push(p.p);
  // 1: small leaf function
  let mut p = PB::new();
  let f = p.fun("@f", &[(Some("@x"), Ty::I32)], Ty::I32);
  p.block(f, Some("%e"), &[]);
  let r = p.inst(f, 0, None, MOp::Bin(6, MVal::Param(0), int(1)));
  p.inst(f, 0, None, MOp::Ret(Some(r)));
  v.push(p.p);
  // 2: memory
  let mut p = PB::new();
  p.global(Some("@x"), MConst::Int(1));
  let f = p.fun("@main", &[], Ty::Unit);
  p.block(f, Some("%entry"), &[]);
  let x = p.inst(f, 0, None, MOp::Load(MVal::Global(0)));
  p.inst(f, 0, None, MOp::Store(x, MVal::Global(0)));
  p.inst(f, 0, None, MOp::Ret(None));
  v.push(p.p);
  // 3: branches
  let mut p = PB::new();
  let f = p.fun("@f", &[(Some("@c"), Ty::I32)], Ty::I32);
  for n in ["%entry", "%t", "%f"] {
    p.block(f, Some(n), &[]);
  }
  let j = p.block(f, Some("%j"), &[(Some("%v"), Ty::I32)]);
  p.inst(f, 0, None, MOp::Br(MVal::Param(0), 1, vec![], 2, vec![]));
  p.inst(f, 1, None, MOp::Jump(j, vec![int(1)]));
  p.inst(f, 2, None, MOp::Jump(j, vec![MVal::Param(0)]));
  p.inst(f, j, None, MOp::Ret(Some(MVal::BParam(j, 0))));
  v.push(p.p);
  // 4: function types and calls
  let mut p = PB::new();
  let ft = Ty::Fun(vec![Ty::I32, ptr(Ty::I32)], Box::new(Ty::I32));
  p.global(Some("@fp"), MConst::Zero(ptr(ft.clone())));
  let d = p.decl("@take", &[ptr(ft.clone()), Ty::Fun(vec![], Box::new(Ty::Unit))], Ty::Unit);
  let f = p.fun("@f", &[(Some("@u"), Ty::Fun(vec![], Box::new(Ty::Unit)))], Ty::Unit);
  p.block(f, Some("%e"), &[]);
  let l = p.inst(f, 0, None, MOp::Load(MVal::Global(0)));
  p.inst(f, 0, None, MOp::Call(d, vec![l, MVal::Param(0)]));
  p.inst(f, 0, None, MOp::Ret(None));
  v.push(p.p);
  // 5: two functions, every name its own
  let mut p = PB::new();
  let f = p.fun("@f", &[(Some("%p"), Ty::I32)], Ty::I32);
  p.block(f, Some("%a"), &[]);
  let b = p.block(f, Some("%b"), &[(Some("%q"), Ty::I32)]);
  let c = p.block(f, Some("%c"), &[]);
  p.inst(f, 0, None, MOp::Br(MVal::Param(0), b, vec![MVal::Param(0)], c, vec![]));
  let x = p.inst(f, b, Some("%v"), MOp::Bin(6, MVal::BParam(b, 0), int(1)));
  p.inst(f, b, None, MOp::Ret(Some(x)));
  p.inst(f, c, None, MOp::Ret(Some(MVal::Param(0))));
  let g = p.fun("@g", &[(Some("%r"), Ty::I32)], Ty::I32);
  p.block(g, Some("%s"), &[]);
  let t = p.block(g, Some("%t"), &[(Some("%w"), Ty::I32)]);
  let x = p.inst(g, 0, Some("%u"), MOp::Call(f, vec![MVal::Param(0)]));
  p.inst(g, 0, None, MOp::Jump(t, vec![x]));
  p.inst(g, t, None, MOp::Ret(Some(MVal::BParam(t, 0))));
  v.push(p.p);
  v
}
