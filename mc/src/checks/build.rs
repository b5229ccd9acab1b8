//! I03 (builders), I04 (types), I05 (value comparison), O01 (passes).
use crate::extract::{OPS, operands};
use crate::r#gen;
use crate::mk;
use crate::model::{BINOPS, Ty, arr, ptr};
use crate::sup::{CheckDef, Ctx, guarded, hash64};
use koopa::front::Driver;
use koopa::ir::builder_traits::*;
use koopa::ir::dfg::DataFlowGraph;
use koopa::ir::entities::{ValueData, ValueKind};
use koopa::ir::{BasicBlock, Function, FunctionData, Program, Type, TypeKind, Value};
use koopa::opt::{FunctionPass, ModulePass, Pass, PassManager};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub fn defs() -> Vec<CheckDef> {
  vec![
    CheckDef {
      id: "I03",
      level: "exploration",
      rule: "every builder method with every tuple of arguments from a pool covering every type and constness, absent values and blocks included, as a new value and as a replacement; every list of names and types for functions and blocks; distinct = distinct calls",
      run: i03,
      assumptions: &[
        "what a builder leaves behind after its documented panic is not looked at",
      ],
    },
    CheckDef {
      id: "I04",
      level: "exploration",
      rule: "every type up to a size built in many histories, all pairs compared, printed, read back and measured; distinct = distinct types and histories",
      run: i04,
      assumptions: &["array lengths are positive (the constructor refuses zero)", "types with unit anywhere but as a result have no notation in the language and are not read back"],
    },
    CheckDef {
      id: "I05",
      level: "exploration",
      rule: "every pair of values from a set closed under every kind over a pool of operands, compared with a structural reference; distinct = distinct structures compared",
      run: i05,
      assumptions: &["operands form no cycles"],
    },
    CheckDef {
      id: "O01",
      level: "model_checking",
      rule: "states: remaining passes and the functions of the program with their marks; transitions: one pass from an alphabet of recording, adding, removing, renaming and marking passes; all pass lists up to the length on all initial programs, run once or twice, logs compared with a sequential reference",
      run: o01,
      assumptions: &["the order in which a function pass visits functions is left open"],
    },
  ]
}

// ---- I03 ----

struct World {
  p: Program,
  f: Function,
  /// label, type (None: absent), constant
  vals: Vec<(String, Option<Ty>, bool, Value)>,
  /// parameter types (None: absent)
  bbs: Vec<(String, Option<Vec<Ty>>, BasicBlock)>,
  funcs: Vec<(String, Option<(Vec<Ty>, Ty)>, Function)>,
  gvals: Vec<(String, Option<Ty>, bool, Value)>,
}

fn world() -> World {
  let mut p = Program::new();
  let i = Ty::I32;
  let pi = ptr(Ty::I32);
  let at = arr(Ty::I32, 2);
  let ft = Ty::Fun(vec![], Box::new(Ty::Unit));
  let ps = vec![i.clone(), pi.clone(), ptr(at.clone()), ptr(pi.clone()), ft.clone(), ptr(ft.clone()), at.clone()];
  let c0 = p.new_func_decl("@c0".into(), vec![], Type::get_unit());
  let c1 = p.new_func_decl("@c1".into(), vec![mk::ty(&i)], Type::get_i32());
  let c2 = p.new_func_def("@c2".into(), vec![mk::ty(&i), mk::ty(&pi)], mk::ty(&pi));
  let f = p.new_func_def("@f".into(), ps.iter().map(mk::ty).collect(), Type::get_i32());
  let gone = p.new_func_def("@gone".into(), vec![], Type::get_unit());
  p.remove_func(gone);
  let mut gvals = vec![];
  let g1 = p.new_value().integer(5);
  gvals.push(("gint".to_string(), Some(i.clone()), true, g1));
  let g2 = p.new_value().zero_init(mk::ty(&at));
  gvals.push(("gzero".into(), Some(at.clone()), true, g2));
  let g3 = p.new_value().undef(mk::ty(&pi));
  gvals.push(("gundef".into(), Some(pi.clone()), true, g3));
  let g4 = p.new_value().global_alloc(g1);
  gvals.push(("galloc".into(), Some(pi.clone()), false, g4));
  let g5 = p.new_value().global_alloc(g2);
  gvals.push(("galloc2".into(), Some(ptr(at.clone())), false, g5));
  let g6 = p.new_value().integer(0);
  p.remove_value(g6);
  let mut vals: Vec<(String, Option<Ty>, bool, Value)> =
    gvals.iter().filter(|g| g.0 != "gundef" && g.0 != "galloc2").cloned().collect();
  for (n, (v, t)) in p.func(f).params().to_vec().into_iter().zip(&ps).enumerate() {
    vals.push((format!("param{n}"), Some(t.clone()), false, v));
  }
  let other = p.func(c2).params()[0];
  let d = p.func_mut(c2).dfg_mut();
  let obb = d.new_bb().basic_block(None);
  let d = p.func_mut(f).dfg_mut();
  let b0 = d.new_bb().basic_block(None);
  let b1 = d.new_bb().basic_block_with_params(None, vec![mk::ty(&i)]);
  let b2 = d.new_bb().basic_block_with_params(None, vec![mk::ty(&pi), mk::ty(&i)]);
  let bx = d.new_bb().basic_block(None);
  d.remove_bb(bx);
  let mut add = |n: &str, t: Ty, c: bool, v: Value| vals.push((n.to_string(), Some(t), c, v));
  let int = d.new_value().integer(1);
  add("int", i.clone(), true, int);
  let z = d.new_value().zero_init(mk::ty(&pi));
  add("zero", pi.clone(), true, z);
  let u = d.new_value().undef(mk::ty(&at));
  add("undef", at.clone(), true, u);
  let a = d.new_value().aggregate(vec![int, int]);
  add("agg", at.clone(), true, a);
  add("bparam", i.clone(), false, d.bb(b1).params()[0]);
  let call = d.new_value().call(c0, vec![]);
  add("unit call", Ty::Unit, false, call);
  let al = d.new_value().alloc(mk::ty(&i));
  add("alloc", pi.clone(), false, al);
  let dead = d.new_value().integer(9);
  d.remove_value(dead);
  vals.push(("removed".into(), None, true, dead));
  vals.push(("of another function".into(), None, false, other));
  let loc = vals.iter().find(|v| v.0 == "int").unwrap().3;
  gvals.push(("removed".into(), None, true, g6));
  gvals.push(("local".into(), None, true, loc));
  World {
    p,
    f,
    vals,
    bbs: vec![
      ("b0".into(), Some(vec![]), b0),
      ("b1".into(), Some(vec![i.clone()]), b1),
      ("b2".into(), Some(vec![pi.clone(), i.clone()]), b2),
      ("removed".into(), None, bx),
      ("of another function".into(), None, obb),
    ],
    funcs: vec![
      ("c0".into(), Some((vec![], Ty::Unit)), c0),
      ("c1".into(), Some((vec![i.clone()], i.clone())), c1),
      ("c2".into(), Some((vec![i.clone(), pi.clone()], pi.clone())), c2),
      ("f".into(), Some((ps, i.clone())), f),
      ("removed".into(), None, gone),
    ],
    gvals,
  }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Call {
  Int(i32),
  Zero(Ty),
  Undef(Ty),
  Agg(Vec<usize>),
  Alloc(Ty),
  Load(usize),
  Store(usize, usize),
  GetPtr(usize, usize),
  GetElem(usize, usize),
  Bin(usize, usize, usize),
  Branch(usize, usize, usize),
  BranchA(usize, usize, usize, Vec<usize>, Vec<usize>),
  Jump(usize),
  JumpA(usize, Vec<usize>),
  Call(usize, Vec<usize>),
  Ret(Option<usize>),
}

impl World {
  /// The type of the new value, or None where the documentation announces a panic.
  fn expect(&self, c: &Call) -> Option<Ty> {
    let t = |v: &usize| self.vals[*v].1.clone();
    let tys = |vs: &[usize]| vs.iter().map(t).collect::<Option<Vec<Ty>>>();
    let nonunit = |t: &Ty| if *t == Ty::Unit { None } else { Some(()) };
    let int = |v: &usize| (t(v)? == Ty::I32).then_some(());
    match c {
      Call::Int(_) => Some(Ty::I32),
      Call::Zero(x) | Call::Undef(x) => {
        nonunit(x)?;
        Some(x.clone())
      }
      Call::Agg(es) => {
        let ts = tys(es)?;
        if ts.is_empty() || !es.iter().all(|e| self.vals[*e].2) || ts.iter().any(|x| *x != ts[0]) {
          return None;
        }
        nonunit(&ts[0])?;
        Some(arr(ts[0].clone(), ts.len()))
      }
      Call::Alloc(x) => {
        nonunit(x)?;
        Some(ptr(x.clone()))
      }
      Call::Load(a) => t(a)?.deref().cloned(),
      Call::Store(a, b) => (ptr(t(a)?) == t(b)?).then_some(Ty::Unit),
      Call::GetPtr(a, b) => {
        int(b)?;
        t(a)?.deref()?;
        t(a)
      }
      Call::GetElem(a, b) => {
        int(b)?;
        match t(a)?.deref()? {
          Ty::Arr(x, _) => Some(ptr((**x).clone())),
          _ => None,
        }
      }
      Call::Bin(_, a, b) => {
        int(a)?;
        int(b)?;
        Some(Ty::I32)
      }
      Call::Branch(a, x, y) => {
        int(a)?;
        (self.bbs[*x].1.as_ref()?.is_empty() && self.bbs[*y].1.as_ref()?.is_empty()).then_some(Ty::Unit)
      }
      Call::BranchA(a, x, y, s, u) => {
        int(a)?;
        let (p, q) = (self.bbs[*x].1.clone()?, self.bbs[*y].1.clone()?);
        if x == y && !p.is_empty() {
          return None;
        }
        (tys(s)? == p && tys(u)? == q).then_some(Ty::Unit)
      }
      Call::Jump(x) => self.bbs[*x].1.as_ref()?.is_empty().then_some(Ty::Unit),
      Call::JumpA(x, s) => (tys(s)? == self.bbs[*x].1.clone()?).then_some(Ty::Unit),
      Call::Call(f, s) => {
        let (p, r) = self.funcs[*f].1.clone()?;
        (tys(s)? == p).then_some(r)
      }
      Call::Ret(None) => Some(Ty::Unit),
      Call::Ret(Some(v)) => {
        nonunit(&t(v)?)?;
        Some(Ty::Unit)
      }
    }
  }
  fn make<B: LocalInstBuilder>(&self, b: B, c: &Call) -> Value {
    let v = |x: &usize| self.vals[*x].3;
    let vs = |x: &[usize]| x.iter().map(v).collect::<Vec<_>>();
    let bb = |x: &usize| self.bbs[*x].2;
    match c {
      Call::Int(i) => b.integer(*i),
      Call::Zero(t) => b.zero_init(mk::ty(t)),
      Call::Undef(t) => b.undef(mk::ty(t)),
      Call::Agg(e) => b.aggregate(vs(e)),
      Call::Alloc(t) => b.alloc(mk::ty(t)),
      Call::Load(a) => b.load(v(a)),
      Call::Store(a, d) => b.store(v(a), v(d)),
      Call::GetPtr(a, d) => b.get_ptr(v(a), v(d)),
      Call::GetElem(a, d) => b.get_elem_ptr(v(a), v(d)),
      Call::Bin(o, a, d) => b.binary(OPS[*o], v(a), v(d)),
      Call::Branch(a, x, y) => b.branch(v(a), bb(x), bb(y)),
      Call::BranchA(a, x, y, s, u) => b.branch_with_args(v(a), bb(x), bb(y), vs(s), vs(u)),
      Call::Jump(x) => b.jump(bb(x)),
      Call::JumpA(x, s) => b.jump_with_args(bb(x), vs(s)),
      Call::Call(f, s) => b.call(self.funcs[*f].2, vs(s)),
      Call::Ret(x) => b.ret(x.as_ref().map(v)),
    }
  }
  /// Is the data what the call asked for?
  fn verify(&self, c: &Call, t: &Ty, d: &ValueData) -> Result<(), String> {
    let v = |x: &usize| self.vals[*x].3;
    let bb = |x: &usize| self.bbs[*x].2;
    if d.ty().to_string() != t.to_string() || *d.ty() != mk::ty(t) {
      return Err(format!("type {} instead of {t}", d.ty()));
    }
    let (ops, bbs): (Vec<Value>, Vec<BasicBlock>) = match c {
      Call::Int(_) | Call::Zero(_) | Call::Undef(_) | Call::Alloc(_) => (vec![], vec![]),
      Call::Agg(e) => (e.iter().map(v).collect(), vec![]),
      Call::Load(a) => (vec![v(a)], vec![]),
      Call::Store(a, b) | Call::GetPtr(a, b) | Call::GetElem(a, b) | Call::Bin(_, a, b) => (vec![v(a), v(b)], vec![]),
      Call::Branch(a, x, y) => (vec![v(a)], vec![bb(x), bb(y)]),
      Call::BranchA(a, x, y, s, u) => (std::iter::once(a).chain(s).chain(u).map(v).collect(), vec![bb(x), bb(y)]),
      Call::Jump(x) => (vec![], vec![bb(x)]),
      Call::JumpA(x, s) => (s.iter().map(v).collect(), vec![bb(x)]),
      Call::Call(_, s) => (s.iter().map(v).collect(), vec![]),
      Call::Ret(x) => (x.iter().map(v).collect(), vec![]),
    };
    if operands(d.kind()) != (ops.clone(), bbs.clone()) || d.kind().value_uses().collect::<Vec<_>>() != ops || d.kind().bb_uses().collect::<Vec<_>>() != bbs {
      return Err(format!("operands differ: {:?}", d.kind()));
    }
    let ok = match (c, d.kind()) {
      (Call::Int(i), ValueKind::Integer(x)) => x.value() == *i,
      (Call::Zero(_), ValueKind::ZeroInit(_))
      | (Call::Undef(_), ValueKind::Undef(_))
      | (Call::Agg(_), ValueKind::Aggregate(_))
      | (Call::Alloc(_), ValueKind::Alloc(_))
      | (Call::Load(_), ValueKind::Load(_))
      | (Call::Store(..), ValueKind::Store(_))
      | (Call::GetPtr(..), ValueKind::GetPtr(_))
      | (Call::GetElem(..), ValueKind::GetElemPtr(_))
      | (Call::Branch(..), ValueKind::Branch(_))
      | (Call::Jump(_) | Call::JumpA(..), ValueKind::Jump(_))
      | (Call::Ret(_), ValueKind::Return(_)) => true,
      (Call::BranchA(_, _, _, s, _), ValueKind::Branch(x)) => x.true_args().len() == s.len(),
      (Call::Bin(o, ..), ValueKind::Binary(x)) => x.op() == OPS[*o] && x.op().to_string() == BINOPS[*o],
      (Call::Call(f, _), ValueKind::Call(x)) => x.callee() == self.funcs[*f].2,
      _ => false,
    };
    if !ok {
      return Err(format!("the kind is {:?}", d.kind()));
    }
    let konst = matches!(c, Call::Int(_) | Call::Zero(_) | Call::Undef(_) | Call::Agg(_));
    if (d.kind().is_const(), d.kind().is_global_alloc(), d.kind().is_local_inst()) != (konst, false, !konst) {
      return Err(format!("taken for another sort of value: {:?}", d.kind()));
    }
    Ok(())
  }
}

fn lists(pool: &[usize], n: usize) -> Vec<Vec<usize>> {
  let mut v = vec![vec![]];
  let mut last = vec![vec![]];
  for _ in 0..n {
    let mut next = vec![];
    for l in &last {
      for x in pool {
        let mut m: Vec<usize> = l.clone();
        m.push(*x);
        next.push(m);
      }
    }
    v.extend(next.iter().cloned());
    last = next;
  }
  v
}

fn calls(w: &World, deep: bool) -> Vec<Call> {
  let n = w.vals.len();
  let id = |s: &str| w.vals.iter().position(|v| v.0 == s).unwrap();
  let mut v = vec![];
  for i in [0, 1, -1, i32::MAX, i32::MIN] {
    v.push(Call::Int(i));
  }
  for t in r#gen::types(2, true).into_iter().chain([Ty::Unit, ptr(Ty::Unit), arr(Ty::Unit, 2)]) {
    v.push(Call::Zero(t.clone()));
    v.push(Call::Undef(t.clone()));
    v.push(Call::Alloc(t));
  }
  let pool: Vec<usize> = (0..n).collect();
  v.extend(lists(&pool, 2).into_iter().map(Call::Agg));
  let cs: Vec<usize> = ["int", "gint", "agg", "undef", "zero", "param0"].iter().map(|s| id(s)).collect();
  v.extend(lists(&cs, if deep { 5 } else { 4 }).into_iter().filter(|l| l.len() > 2).map(Call::Agg));
  for a in 0..n {
    v.push(Call::Load(a));
    v.push(Call::Ret(Some(a)));
    for b in 0..n {
      v.push(Call::Store(a, b));
      v.push(Call::GetPtr(a, b));
      v.push(Call::GetElem(a, b));
      for o in 0..17 {
        if deep || o % 5 == 0 || a < 8 {
          v.push(Call::Bin(o, a, b));
        }
      }
    }
    for x in 0..w.bbs.len() {
      for y in 0..w.bbs.len() {
        v.push(Call::Branch(a, x, y));
      }
    }
  }
  v.push(Call::Ret(None));
  let args: Vec<usize> = ["int", "param1", "bparam", "zero", "param4", "removed"].iter().map(|s| id(s)).collect();
  let l2 = lists(&args, 2);
  let l3 = lists(&args, 3);
  for x in 0..w.bbs.len() {
    v.push(Call::Jump(x));
    for l in &l3 {
      v.push(Call::JumpA(x, l.clone()));
    }
    for y in 0..w.bbs.len() {
      for c in ["int", "param0", "param1"] {
        for s in if deep { &l2 } else { &l2[..7 + 12] } {
          for u in &l2 {
            v.push(Call::BranchA(id(c), x, y, s.clone(), u.clone()));
          }
        }
      }
    }
  }
  for f in 0..w.funcs.len() {
    for l in &l3 {
      v.push(Call::Call(f, l.clone()));
    }
  }
  // the whole signature, right and with each argument replaced
  let right: Vec<usize> = (0..7).map(|i| id(&format!("param{i}"))).collect();
  v.push(Call::Call(3, right.clone()));
  for i in 0..7 {
    for x in 0..n {
      let mut l = right.clone();
      l[i] = x;
      v.push(Call::Call(3, l));
    }
  }
  let mut seen = HashSet::new();
  v.retain(|c| seen.insert(c.clone()));
  v
}

fn i03(ctx: &mut Ctx) {
  let w0 = world();
  let all = calls(&w0, true);
  let show = |c: &Call| format!("{c:?} with {:?}", w0.vals.iter().map(|v| &v.0).enumerate().collect::<Vec<_>>());
  for chunk in all.chunks(500) {
    ctx.case(
      || show(&chunk[0]),
      |ctx| {
        for c in chunk {
          ctx.count("evaluations", 2);
          ctx.note(hash64(format!("{c:?}").as_bytes()));
          for replace in [false, true] {
            let mut w = world();
            let f = w.f;
            let mut p = std::mem::take(&mut w.p);
            let want = w.expect(c);
            let d = p.func_mut(f).dfg_mut();
            // the replaced value has users and operands of its own
            let (a, i) = (w.vals.iter().find(|v| v.0 == "alloc").unwrap().3, w.vals.iter().find(|v| v.0 == "int").unwrap().3);
            let old = d.new_value().load(a);
            let user = d.new_value().ret(Some(old));
            let before = d.values().len();
            let r = guarded(|| if replace { w.make(d.replace_value_with(old), c) } else { w.make(d.new_value(), c) });
            let _ = i;
            let say = |e: &str| Err(format!("{} {c:?} ({}): {e}", if replace { "replacing by" } else { "creating" }, w.describe(c)));
            match (want, r) {
              (None, Err(_)) => {}
              (None, Ok(_)) => return say("accepted against the documentation"),
              (Some(_), Err(e)) => return say(&format!("refused: {e}")),
              (Some(t), Ok(v)) => {
                if replace && v != old {
                  return say("the handle changed");
                }
                if d.values().len() != before + (!replace) as usize {
                  return say("other values appeared or vanished");
                }
                if v.is_global() {
                  return say("a local value calls itself global");
                }
                if let Err(e) = w.verify(c, &t, d.value(v)) {
                  return say(&e);
                }
                let users: HashSet<Value> = if replace { HashSet::from([user]) } else { HashSet::new() };
                if *d.value(v).used_by() != users {
                  return say("wrong users");
                }
                if !replace && d.value(v).name().is_some() {
                  return say("the new value has a name");
                }
              }
            }
          }
        }
        Ok(())
      },
    );
  }
  // global values
  let gn = w0.gvals.len();
  let pool: Vec<usize> = (0..gn).collect();
  for l in lists(&pool, 3) {
    for alloc in [false, true] {
      if alloc && l.len() != 1 {
        continue;
      }
      ctx.case(
        || format!("global {} of {:?}", if alloc { "alloc" } else { "aggregate" }, l.iter().map(|x| &w0.gvals[*x].0).collect::<Vec<_>>()),
        |ctx| {
          ctx.count("evaluations", 1);
          ctx.note(hash64(format!("g {alloc} {l:?}").as_bytes()));
          let mut w = world();
          let vs: Vec<Value> = l.iter().map(|x| w.gvals[*x].3).collect();
          let ts: Option<Vec<Ty>> = l.iter().map(|x| w.gvals[*x].1.clone()).collect();
          let want = if alloc {
            ts.map(|t| ptr(t[0].clone()))
          } else {
            ts.filter(|t| !t.is_empty() && t.iter().all(|x| *x == t[0]) && l.iter().all(|x| w.gvals[*x].2)).map(|t| arr(t[0].clone(), t.len()))
          };
          let before = w.p.inst_layout().to_vec();
          let r = guarded(|| if alloc { w.p.new_value().global_alloc(vs[0]) } else { w.p.new_value().aggregate(vs.clone()) });
          match (want, r) {
            (None, Err(_)) => Ok(()),
            (None, Ok(_)) => Err("accepted against the documentation".into()),
            (Some(_), Err(e)) => Err(format!("refused: {e}")),
            (Some(t), Ok(v)) => {
              let d = w.p.borrow_value(v);
              if d.ty().to_string() != t.to_string() || operands(d.kind()).0 != vs || !v.is_global() || d.name().is_some() {
                return Err(format!("{:?} of type {}", d.kind(), d.ty()));
              }
              if d.kind().is_global_alloc() != alloc || d.kind().is_const() == alloc || d.kind().is_local_inst() {
                return Err("the wrong kind".into());
              }
              let mut now = before.clone();
              if alloc {
                now.push(v);
              }
              if w.p.inst_layout() != now {
                return Err("the list of globals is wrong".into());
              }
              Ok(())
            }
          }
        },
      );
    }
  }
  for t in r#gen::types(2, true).into_iter().chain([Ty::Unit, ptr(Ty::Unit)]) {
    ctx.case(
      || format!("global zero, undef of {t}; local likewise"),
      |ctx| {
        ctx.count("evaluations", 2);
        ctx.note(hash64(format!("gz {t}").as_bytes()));
        let mut p = Program::new();
        for z in [true, false] {
          let r = guarded(|| if z { p.new_value().zero_init(mk::ty(&t)) } else { p.new_value().undef(mk::ty(&t)) });
          match (t == Ty::Unit, r) {
            (true, Err(_)) => {}
            (false, Ok(v)) => {
              let d = p.borrow_value(v);
              let kind = if z { matches!(d.kind(), ValueKind::ZeroInit(_)) } else { matches!(d.kind(), ValueKind::Undef(_)) };
              if d.ty().to_string() != t.to_string() || !kind {
                return Err(format!("{:?} of type {}", d.kind(), d.ty()));
              }
            }
            (u, _) => return Err(if u { "unit accepted".into() } else { "refused".into() }),
          }
        }
        Ok(())
      },
    );
  }
  // names
  let names = ["@f", "%f", "", "f", "@@", "%@x", "@1", "%0", " @f", "1@", "-%", "@long_name_0", "é@", "@é", "@", "%"];
  // a prefix and at least one character, as the message of the panic says
  let good = |n: &str| n.len() > 1 && (n.starts_with('@') || n.starts_with('%'));
  let tys: Vec<Vec<Ty>> = {
    let t = [Ty::I32, ptr(Ty::I32), Ty::Unit, ptr(Ty::Unit), Ty::Fun(vec![Ty::I32], Box::new(Ty::Unit)), arr(Ty::I32, 3)];
    lists(&(0..t.len()).collect::<Vec<_>>(), 3).into_iter().map(|l| l.into_iter().map(|i| t[i].clone()).collect()).collect()
  };
  for n in names {
    for ts in &tys {
      ctx.case(
        || format!("functions and blocks called {n:?} with parameters {ts:?}"),
        |ctx| {
          ctx.note(hash64(format!("f {n} {ts:?}").as_bytes()));
          for ret in [Ty::Unit, Ty::I32, ptr(Ty::I32)] {
            for how in 0..3 {
              ctx.count("evaluations", 1);
              let mut p = Program::new();
              p.new_func_decl("@f".into(), vec![], Type::get_unit());
              let pn = |i: usize| [Some("@x".to_string()), None, Some("%1".to_string())][i % 3].clone();
              let rt: Vec<Type> = ts.iter().map(mk::ty).collect();
              let r = guarded(|| match how {
                0 => p.new_func_def(n.into(), rt.clone(), mk::ty(&ret)),
                1 => p.new_func_def_with_param_names(n.into(), rt.iter().cloned().enumerate().map(|(i, t)| (pn(i), t)).collect(), mk::ty(&ret)),
                _ => p.new_func_decl(n.into(), rt.clone(), mk::ty(&ret)),
              });
              let ok = good(n) && !ts.contains(&Ty::Unit);
              let f = match (ok, r) {
                (false, Err(_)) => continue,
                (true, Ok(f)) => f,
                (true, Err(e)) => return Err(format!("refused: {e}")),
                (false, Ok(_)) => return Err("accepted against the documentation".into()),
              };
              let d = p.func(f);
              let want = Ty::Fun(ts.clone(), Box::new(ret.clone()));
              if d.name() != n || *d.ty() != mk::ty(&want) || p.func_layout().last() != Some(&f) || p.func_layout().len() != 2 {
                return Err(format!("function {} of type {}", d.name(), d.ty()));
              }
              let np = if how == 2 { 0 } else { ts.len() };
              if d.params().len() != np {
                return Err(format!("{} parameters", d.params().len()));
              }
              for (i, v) in d.params().iter().enumerate() {
                let vd = d.dfg().value(*v);
                let name = if how == 1 { pn(i) } else { None };
                if *vd.name() != name || *vd.ty() != mk::ty(&ts[i]) || !matches!(vd.kind(), ValueKind::FuncArgRef(a) if a.index() == i) {
                  return Err(format!("parameter {i} is {:?} {:?} {}", vd.name(), vd.kind(), vd.ty()));
                }
              }
            }
          }
          for how in 0..3 {
            if how == 0 && !ts.is_empty() {
              continue;
            }
            for named in [true, false] {
              ctx.count("evaluations", 1);
              let mut p = Program::new();
              let f = p.new_func_def("@f".into(), vec![], Type::get_unit());
              let d = p.func_mut(f).dfg_mut();
              let name = if named { Some(n.to_string()) } else { None };
              let pn = |i: usize| [None, Some("%p".to_string()), Some("@q".to_string())][i % 3].clone();
              let rt: Vec<Type> = ts.iter().map(mk::ty).collect();
              let r = guarded(|| match how {
                0 => d.new_bb().basic_block(name.clone()),
                1 => d.new_bb().basic_block_with_params(name.clone(), rt.clone()),
                _ => d.new_bb().basic_block_with_param_names(name.clone(), rt.iter().cloned().enumerate().map(|(i, t)| (pn(i), t)).collect()),
              });
              let ok = (!named || good(n)) && !ts.contains(&Ty::Unit);
              let b = match (ok, r) {
                (false, Err(_)) => continue,
                (true, Ok(b)) => b,
                (true, Err(e)) => return Err(format!("block refused: {e}")),
                (false, Ok(_)) => return Err("block accepted against the documentation".into()),
              };
              let bd = d.bb(b);
              if *bd.name() != name || bd.params().len() != ts.len() || !bd.used_by().is_empty() {
                return Err(format!("block {:?} with {} parameters", bd.name(), bd.params().len()));
              }
              for (i, v) in bd.params().iter().enumerate() {
                let vd = d.value(*v);
                let want = if how == 2 { pn(i) } else { None };
                if *vd.name() != want || *vd.ty() != mk::ty(&ts[i]) || !matches!(vd.kind(), ValueKind::BlockArgRef(a) if a.index() == i) {
                  return Err(format!("block parameter {i} is {:?} {:?} {}", vd.name(), vd.kind(), vd.ty()));
                }
              }
            }
          }
          // naming values, and parameters by name
          if ts.len() <= 1 {
            let mut p = Program::new();
            let f = p.new_func_def("@f".into(), vec![], Type::get_unit());
            let g = p.new_value().integer(1);
            let v = p.func_mut(f).dfg_mut().new_value().integer(1);
            let r = [
              guarded(|| p.set_value_name(g, Some(n.into()))).is_ok(),
              guarded(|| p.func_mut(f).dfg_mut().set_value_name(v, Some(n.into()))).is_ok(),
              guarded(|| p.new_func_def_with_param_names("@g".into(), vec![(Some(n.into()), Type::get_i32())], Type::get_unit())).is_ok(),
              guarded(|| p.func_mut(f).dfg_mut().new_bb().basic_block_with_param_names(None, vec![(Some(n.into()), Type::get_i32())])).is_ok(),
            ];
            if r != [good(n); 4] {
              return Err(format!("as a value or parameter name: {r:?}"));
            }
            if good(n) && (p.borrow_value(g).name().as_deref() != Some(n) || p.func(f).dfg().value(v).name().as_deref() != Some(n)) {
              return Err("the value has another name".into());
            }
            p.set_value_name(g, None);
            p.func_mut(f).dfg_mut().set_value_name(v, None);
            if p.borrow_value(g).name().is_some() || p.func(f).dfg().value(v).name().is_some() {
              return Err("the name was not taken away".into());
            }
          }
          Ok(())
        },
      );
    }
  }
}

impl World {
  fn describe(&self, c: &Call) -> String {
    let v = |x: &usize| format!("{}: {}", self.vals[*x].0, self.vals[*x].1.as_ref().map_or("absent".into(), |t| t.to_string()));
    let l = |x: &[usize]| x.iter().map(v).collect::<Vec<_>>().join(", ");
    match c {
      Call::Agg(e) => l(e),
      Call::Load(a) | Call::Ret(Some(a)) => v(a),
      Call::Store(a, b) | Call::GetPtr(a, b) | Call::GetElem(a, b) | Call::Bin(_, a, b) => l(&[*a, *b]),
      Call::Branch(a, x, y) => format!("{}; {} {}", v(a), self.bbs[*x].0, self.bbs[*y].0),
      Call::BranchA(a, x, y, s, t) => format!("{}; {}({}) {}({})", v(a), self.bbs[*x].0, l(s), self.bbs[*y].0, l(t)),
      Call::Jump(x) => self.bbs[*x].0.clone(),
      Call::JumpA(x, s) => format!("{}({})", self.bbs[*x].0, l(s)),
      Call::Call(f, s) => format!("{}({})", self.funcs[*f].0, l(s)),
      _ => String::new(),
    }
  }
}

// ---- I04 ----

/// All types with at most `n` constructors.
fn types_of_size(n: usize, lens: &[usize]) -> Vec<Ty> {
  let mut by: Vec<Vec<Ty>> = vec![vec![], vec![Ty::I32, Ty::Unit]];
  for s in 2..=n {
    let mut v = vec![];
    for t in &by[s - 1] {
      v.push(ptr(t.clone()));
      for l in lens {
        v.push(arr(t.clone(), *l));
      }
    }
    // functions: parameters and a result of total size s - 1
    fn parts(by: &[Vec<Ty>], left: usize, cur: &mut Vec<Ty>, out: &mut Vec<Ty>) {
      if left >= 1 {
        for r in &by[left] {
          out.push(Ty::Fun(cur.clone(), Box::new(r.clone())));
        }
      }
      for first in 1..left {
        for t in by[first].clone() {
          cur.push(t);
          parts(by, left - first, cur, out);
          cur.pop();
        }
      }
    }
    parts(&by, s - 1, &mut vec![], &mut v);
    by.push(v);
  }
  by.concat()
}

/// The same type through the other constructor.
fn raw_ty(t: &Ty) -> Type {
  match t {
    Ty::I32 => Type::get(TypeKind::Int32),
    Ty::Unit => Type::get(TypeKind::Unit),
    Ty::Arr(b, n) => Type::get(TypeKind::Array(raw_ty(b), *n)),
    Ty::Ptr(b) => Type::get(TypeKind::Pointer(raw_ty(b))),
    Ty::Fun(p, r) => {
      let r = raw_ty(r);
      Type::get(TypeKind::Function(p.iter().rev().map(raw_ty).collect::<Vec<_>>().into_iter().rev().collect(), r))
    }
  }
}

fn hash_of(t: &Type) -> u64 {
  use std::hash::{Hash, Hasher};
  let mut h = std::collections::hash_map::DefaultHasher::new();
  t.hash(&mut h);
  h.finish()
}

fn unit_inside(t: &Ty) -> bool {
  match t {
    Ty::Unit => true,
    Ty::I32 => false,
    Ty::Arr(b, _) | Ty::Ptr(b) => unit_inside(b),
    Ty::Fun(p, r) => p.iter().any(unit_inside) || (**r != Ty::Unit && unit_inside(r)),
  }
}

fn kind_matches(t: &Type, m: &Ty) -> bool {
  match (t.kind(), m) {
    (TypeKind::Int32, Ty::I32) => t.is_i32() && !t.is_unit(),
    (TypeKind::Unit, Ty::Unit) => t.is_unit() && !t.is_i32(),
    (TypeKind::Array(b, n), Ty::Arr(c, k)) => n == k && !t.is_i32() && !t.is_unit() && kind_matches(b, c),
    (TypeKind::Pointer(b), Ty::Ptr(c)) => !t.is_i32() && !t.is_unit() && kind_matches(b, c),
    (TypeKind::Function(p, r), Ty::Fun(q, s)) => {
      !t.is_i32() && !t.is_unit() && p.len() == q.len() && p.iter().zip(q).all(|(a, b)| kind_matches(a, b)) && kind_matches(r, s)
    }
    _ => false,
  }
}

fn in_fresh_thread<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
  std::thread::scope(|s| s.spawn(f).join()).map_err(|_| "panic in a fresh thread".to_string())
}

fn i04(ctx: &mut Ctx) {
  let all = types_of_size(ctx.pick(5, 6), &[1, 2, 10]);
  let real: Vec<Type> = all.iter().map(mk::ty).collect();
  let printed: Vec<String> = all.iter().map(|t| t.to_string()).collect();
  {
    // the reference notation itself is unambiguous
    let mut s = HashSet::new();
    assert!(printed.iter().all(|p| s.insert(p.clone())), "reference notation");
  }
  // every type against every other
  for (i, m) in all.iter().enumerate() {
    ctx.case(
      || format!("type {m} against all others"),
      |ctx| {
        ctx.note(hash64(printed[i].as_bytes()));
        let again = if i % 2 == 0 { raw_ty(m) } else { mk::ty(m) };
        let raw = raw_ty(m);
        if !kind_matches(&again, m) {
          return Err(format!("the type is {again}"));
        }
        for t in [&again, &raw] {
          if t.to_string() != printed[i] || format!("{t:?}").is_empty() {
            return Err(format!("printed as {t}"));
          }
        }
        for (j, r) in real.iter().enumerate() {
          ctx.count("evaluations", 1);
          if (again == *r) != (i == j) || (*r == again) != (i == j) || (raw == *r) != (i == j) || (again != *r) != (i != j) {
            return Err(format!("comparison with {} is wrong", printed[j]));
          }
          if (again.kind() == r.kind()) != (i == j) {
            return Err(format!("comparison of the kinds with {} is wrong", printed[j]));
          }
        }
        if hash_of(&again) != hash_of(&real[i]) || hash_of(&raw) != hash_of(&real[i]) {
          return Err("equal types hash differently".into());
        }
        let mut map: HashMap<Type, usize> = HashMap::new();
        map.insert(real[i].clone(), i);
        if map.get(&again) != Some(&i) {
          return Err("not found under an equal key".into());
        }
        for ps in [8usize, 4, 1, 2, 16] {
          Type::set_ptr_size(ps);
          if again.size() != m.size(ps) {
            let s = again.size();
            Type::set_ptr_size(8);
            return Err(format!("size {s} instead of {} for pointers of {ps}", m.size(ps)));
          }
        }
        Type::set_ptr_size(8);
        if !unit_inside(m) {
          ctx.count("read_back", 1);
          for text in [format!("decl @f({m})"), format!("decl @f(): {m}"), format!("decl @f(i32, {m}, i32)"), format!("global @g = alloc *{m}, zeroinit")] {
            let d = Driver::from(text.as_str());
            let p = d.generate_program().map_err(|_| format!("{text} is not accepted"))?;
            let t = match p.func_layout().first() {
              None => match p.borrow_value(p.inst_layout()[0]).ty().kind() {
                TypeKind::Pointer(b) => match b.kind() {
                  TypeKind::Pointer(b) => b.clone(),
                  _ => return Err("no pointer".into()),
                },
                _ => return Err("no pointer".into()),
              },
              Some(f) => match p.func(*f).ty().kind() {
                TypeKind::Function(ps, r) => match ps.len() {
                  0 => r.clone(),
                  1 => ps[0].clone(),
                  _ => ps[1].clone(),
                },
                _ => return Err("no function type".into()),
              },
            };
            if t != again {
              return Err(format!("{text} reads back as {t}"));
            }
          }
        }
        Ok(())
      },
    );
  }
  big_types(ctx);
  // histories: on a fresh thread, every sequence of creations and drops
  let pool: Vec<Ty> = vec![
    Ty::I32,
    ptr(Ty::I32),
    arr(Ty::I32, 2),
    arr(Ty::I32, 3),
    ptr(arr(Ty::I32, 2)),
    Ty::Fun(vec![Ty::I32], Box::new(Ty::Unit)),
    Ty::Fun(vec![], Box::new(Ty::I32)),
    Ty::Fun(vec![Ty::I32], Box::new(Ty::I32)),
  ];
  let depth = ctx.pick(5, 6);
  for seq in lists(&(0..pool.len()).collect::<Vec<_>>(), depth).into_iter().filter(|l| l.len() >= 2) {
    // many histories in one case: whether each creation is dropped at once
    ctx.case(
      || format!("on a fresh thread: {}", seq.iter().map(|i| pool[*i].to_string()).collect::<Vec<_>>().join("; ")),
      |ctx| {
        ctx.note(hash64(format!("h {seq:?}").as_bytes()));
        let n = seq.len();
        ctx.count("evaluations", 1 << (n - 1));
        in_fresh_thread(|| {
          for drops in 0..(1u32 << (n - 1)) {
            let mut kept: Vec<(usize, Type)> = vec![];
            for (k, i) in seq.iter().enumerate() {
              let t = if k % 2 == 0 { mk::ty(&pool[*i]) } else { raw_ty(&pool[*i]) };
              if t.to_string() != pool[*i].to_string() {
                return Err(format!("printed as {t}"));
              }
              for (j, o) in &kept {
                if (*o == t) != (i == j) || (t == *o) != (i == j) {
                  return Err(format!("{o} compared with {t}"));
                }
                if i == j && hash_of(o) != hash_of(&t) {
                  return Err(format!("two {t} hash differently"));
                }
              }
              if k + 1 == n || drops >> k & 1 == 0 {
                kept.push((*i, t));
              }
            }
          }
          Ok(())
        })?
      },
    );
  }
}

/// The size, if it is within the address space.
fn checked_size(t: &Ty, ps: usize) -> Option<usize> {
  match t {
    Ty::Arr(t, n) => checked_size(t, ps)?.checked_mul(*n),
    _ => Some(t.size(ps)),
  }
}

/// Long, wide and deep types, and many at once.
fn big_types(ctx: &mut Ctx) {
  let mut fams: Vec<(&str, Vec<Ty>)> = vec![];
  let mut lens: Vec<usize> = vec![usize::MAX];
  for b in [4u32, 7, 8, 15, 16, 24, 31, 32, 33, 40, 48, 62, 63] {
    lens.extend([(1usize << b) - 1, 1 << b, (1 << b) + 1]);
  }
  fams.push(("array lengths", lens.iter().flat_map(|n| [arr(Ty::I32, *n), ptr(arr(ptr(Ty::I32), *n)), arr(arr(Ty::I32, *n), 3), arr(arr(Ty::I32, 3), *n)]).collect()));
  let ns: Vec<usize> = (0..20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]).collect();
  let mut v = vec![];
  for n in &ns {
    for odd in [None, Some(0), Some(n / 2), Some(n.saturating_sub(2)), Some(n.saturating_sub(1))] {
      if odd.is_some_and(|o| o >= *n) {
        continue;
      }
      let ps: Vec<Ty> = (0..*n).map(|i| if Some(i) == odd { ptr(Ty::I32) } else { Ty::I32 }).collect();
      v.push(Ty::Fun(ps.clone(), Box::new(Ty::I32)));
      v.push(Ty::Fun(ps, Box::new(Ty::Unit)));
    }
  }
  fams.push(("parameter lists", v));
  let mut v = vec![];
  for n in &ns {
    for base in [Ty::I32, ptr(Ty::I32)] {
      for how in 0..4 {
        let mut t = base.clone();
        for i in 0..*n {
          t = match (how, i % 2) {
            (0, _) | (3, 0) => ptr(t),
            (1, _) | (3, _) => arr(t, 1),
            _ => Ty::Fun(vec![t], Box::new(Ty::I32)),
          };
        }
        v.push(t);
      }
    }
  }
  fams.push(("nesting", v));
  fams.push(("many lengths", (1..ctx.pick(3000, 20000)).map(|n| arr(Ty::I32, n)).collect()));
  for (what, mut v) in fams {
    let mut seen = HashSet::new();
    v.retain(|t| seen.insert(t.to_string()));
    for part in 0..16 {
      ctx.case(
        || format!("{what}: {} types, part {part} of 16 against all", v.len()),
        |ctx| {
          in_fresh_thread(|| {
            let real: Vec<Type> = v.iter().map(mk::ty).collect();
            let names: Vec<String> = real.iter().map(|t| t.to_string()).collect();
            let many = v.len() > 2000;
            for (i, m) in v.iter().enumerate().filter(|x| x.0 % 16 == part) {
              let again = if i % 32 < 16 { raw_ty(m) } else { mk::ty(m) };
              let short = |s: &str| s.chars().take(300).collect::<String>();
              if again.to_string() != m.to_string() || names[i] != m.to_string() || !kind_matches(&again, m) {
                return Err(format!("{} is built as {}", short(&m.to_string()), short(&again.to_string())));
              }
              for (j, r) in real.iter().enumerate() {
                if (again == *r) != (i == j) || (*r == again) != (i == j) || (!many && (again.kind() == r.kind()) != (i == j)) {
                  return Err(format!("{} compared with {}", short(&names[i]), short(&names[j])));
                }
              }
              if hash_of(&again) != hash_of(&real[i]) {
                return Err(format!("two {} hash differently", short(&names[i])));
              }
              // sizes beyond the address space are left open
              for ps in [4, 8] {
                Type::set_ptr_size(ps);
                if let Some(size) = checked_size(m, ps)
                  && again.size() != size
                {
                  return Err(format!("{} has the size {} instead of {size}", short(&names[i]), again.size()));
                }
              }
            }
            Ok(())
          })
          .and_then(|x| x)?;
          ctx.count("evaluations", (v.len() / 16 * v.len()) as u64);
          v.iter().skip(part).step_by(16).for_each(|t| {
            ctx.note(hash64(t.to_string().as_bytes()));
          });
          Ok(())
        },
      );
    }
  }
  for t in r#gen::types(2, true) {
    ctx.case(
      || format!("an array of no {t}"),
      |ctx| {
        ctx.count("evaluations", 1);
        let b = mk::ty(&t);
        if guarded(|| Type::get_array(b.clone(), 0)).is_ok() {
          return Err("is not refused".into());
        }
        Ok(())
      },
    );
  }
}

// ---- I05 ----

fn i05(ctx: &mut Ctx) {
  i05_big(ctx);
  i05_deep(ctx);
  let thorough = ctx.thorough();
  let (p, f, set) = value_set(thorough);
  let n = set.len();
  for i in 0..n {
    ctx.case(
      || format!("value {i}: {} against all {n} values", set[i].1),
      |ctx| {
        let d = p.func(f).dfg();
        ctx.note(hash64(set[i].1.as_bytes()));
        let data = |v: Value| if v.is_global() { p.borrow_value(v).clone() } else { d.value(v).clone() };
        let mine = data(set[i].0);
        for (j, (v, key)) in set.iter().enumerate() {
          ctx.count("evaluations", 1);
          let want = *key == set[i].1;
          let got = d.value_eq(set[i].0, *v);
          if got != want {
            return Err(format!("value {i} {} and value {j} {key} are reported {}", set[i].1, if got { "equal" } else { "different" }));
          }
          if d.value_eq(*v, set[i].0) != want {
            return Err(format!("value {i} {} and value {j} {key}: not symmetric", set[i].1));
          }
          if d.data_eq(&mine, &data(*v)) != want {
            return Err(format!("value {i} {} and value {j} {key}: the data compare otherwise", set[i].1));
          }
        }
        Ok(())
      },
    );
  }
}

/// Long lists of operands, and deep chains.
fn i05_big(ctx: &mut Ctx) {
  let sizes: &[usize] = if ctx.quick() { &[4, 5, 8, 9, 16, 17, 32, 33, 65, 129, 257, 300] } else { &[4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1025] };
  for &n in sizes {
    for tag in ["aggregate", "call", "jump", "true arguments", "false arguments", "sums to the left", "sums to the right", "doubled sums", "doubled aggregates", "nested aggregates", "pointers"] {
      ctx.case(
        || format!("{tag} of {n}"),
        |ctx| {
          let mut p = Program::new();
          let ti = Type::get_i32();
          let c = p.new_func_decl("@c".into(), vec![ti.clone()], ti.clone());
          let f = p.new_func_def("@f".into(), vec![], ti.clone());
          let d = p.func_mut(f).dfg_mut();
          let b = d.new_bb().basic_block(None);
          let b2 = d.new_bb().basic_block(None);
          let mut set: Vec<(Value, String)> = vec![];
          let at: std::collections::BTreeSet<usize> = [0, 1, n / 2, n - 2, n - 1].into_iter().collect();
          let odd: Vec<Option<usize>> = std::iter::once(None).chain(at.into_iter().map(Some)).collect();
          let lens = [n - 1, n, n + 1];
          for twice in 0..2 {
            for len in lens {
              for o in &odd {
                if o.is_some_and(|o| o >= len) {
                  continue;
                }
                let shared = d.new_value().integer(0);
                let mut elem = |d: &mut koopa::ir::dfg::DataFlowGraph, i: usize| {
                  if Some(i) == *o {
                    d.new_value().integer(1)
                  } else if twice == 0 {
                    shared
                  } else {
                    d.new_value().integer(0)
                  }
                };
                let key = format!("{len} {o:?}");
                let v = match tag {
                  "aggregate" | "call" | "jump" | "true arguments" | "false arguments" => {
                    let l: Vec<Value> = (0..len).map(|i| elem(d, i)).collect();
                    if tag == "aggregate" {
                      d.new_value().aggregate(l)
                    } else {
                      let v = match tag {
                        "call" => d.new_value().call(c, vec![shared]),
                        "jump" => d.new_value().jump(b),
                        _ => d.new_value().branch(shared, b, b2),
                      };
                      d.update_value(v, |x| match x.kind_mut() {
                        ValueKind::Call(x) => *x.args_mut() = l,
                        ValueKind::Jump(x) => *x.args_mut() = l,
                        ValueKind::Branch(x) if tag == "true arguments" => *x.true_args_mut() = l,
                        ValueKind::Branch(x) => *x.false_args_mut() = l,
                        _ => unreachable!(),
                      });
                      v
                    }
                  }
                  "nested aggregates" => {
                    // deep, with the odd one at some depth
                    let mut v = elem(d, 0);
                    for i in 0..len {
                      v = if Some(i) == *o { d.new_value().aggregate(vec![v, v]) } else { d.new_value().aggregate(vec![v]) };
                    }
                    v
                  }
                  "doubled sums" | "doubled aggregates" => {
                    // every value uses the one before twice
                    let mut v = elem(d, usize::MAX);
                    for i in 0..len {
                      let odd = Some(i) == *o;
                      v = if tag == "doubled sums" {
                        d.new_value().binary(OPS[if odd { 7 } else { 6 }], v, v)
                      } else if i > 20 {
                        // the type would be too large
                        d.new_value().binary(OPS[if odd { 7 } else { 6 }], shared, v)
                      } else {
                        let e = d.new_value().integer(if odd { 2 } else { 0 });
                        let a = d.new_value().aggregate(vec![e, e]);
                        let q = d.new_value().alloc(ti.clone());
                        let u = d.new_value().store(e, q);
                        let call = d.new_value().call(c, vec![v]);
                        d.update_value(call, |x| match x.kind_mut() {
                          ValueKind::Call(x) => *x.args_mut() = vec![v, v, a, u],
                          _ => unreachable!(),
                        });
                        call
                      }
                    }
                    v
                  }
                  "pointers" => {
                    let mut v = d.new_value().alloc(ti.clone());
                    for i in 0..len {
                      let e = elem(d, i);
                      v = d.new_value().get_ptr(v, e);
                    }
                    v
                  }
                  _ => {
                    let mut v = elem(d, 0);
                    for i in 0..len {
                      let e = elem(d, i);
                      v = if tag == "sums to the left" { d.new_value().binary(OPS[6], v, e) } else { d.new_value().binary(OPS[6], e, v) };
                    }
                    v
                  }
                };
                set.push((v, key));
              }
            }
          }
          let d = p.func(f).dfg();
          for (v, kv) in &set {
            for (w, kw) in &set {
              ctx.beat();
              ctx.count("evaluations", 1);
              let want = kv == kw;
              if d.value_eq(*v, *w) != want || d.data_eq(&d.value(*v).clone(), &d.value(*w).clone()) != want {
                return Err(format!("length and odd element: {kv} and {kw} are reported {}", if want { "different" } else { "equal" }));
              }
            }
            ctx.note(hash64(format!("{tag} {kv}").as_bytes()));
          }
          Ok(())
        },
      );
    }
  }
}

/// Chains deeper than any stack, and values that use each other.
fn i05_deep(ctx: &mut Ctx) {
  for n in [10_000usize, 100_000, 300_000] {
    for left in [false, true] {
      ctx.case(
        || format!("sums of {n}, deep on the {}", if left { "left" } else { "right" }),
        |ctx| {
          let mut p = Program::new();
          let f = p.new_func_def("@f".into(), vec![], Type::get_unit());
          let d = p.func_mut(f).dfg_mut();
          let one = d.new_value().integer(1);
          let mut set = vec![];
          for odd in [usize::MAX, 0, n - 1, usize::MAX] {
            let mut v = d.new_value().integer(0);
            for i in 0..n {
              let op = OPS[if i == odd { 7 } else { 6 }];
              v = if left { d.new_value().binary(op, v, one) } else { d.new_value().binary(op, one, v) };
            }
            set.push((v, odd));
            ctx.beat();
          }
          for (v, a) in &set {
            for (w, b) in &set {
              ctx.beat();
              ctx.count("evaluations", 1);
              if d.value_eq(*v, *w) != (a == b) {
                return Err(format!("odd at {a} and {b}: reported {}", if a == b { "different" } else { "equal" }));
              }
            }
          }
          ctx.note(hash64(format!("deep {n} {left}").as_bytes()));
          Ok(())
        },
      );
    }
  }
  for n in 1..=4usize {
    ctx.case(
      || format!("{n} values that use each other"),
      |ctx| {
        // the operations of the values around the circle
        let ops = lists(&[6usize, 7], n);
        let ops: Vec<_> = ops.into_iter().filter(|o| o.len() == n).collect();
        let mut p = Program::new();
        let f = p.new_func_def("@f".into(), vec![], Type::get_unit());
        let d = p.func_mut(f).dfg_mut();
        let one = d.new_value().integer(1);
        let circles: Vec<Vec<Value>> = ops
          .iter()
          .map(|o| {
            let vs: Vec<Value> = o.iter().map(|o| d.new_value().binary(OPS[*o], one, one)).collect();
            for (i, v) in vs.iter().enumerate() {
              let next = vs[(i + 1) % n];
              d.update_value(*v, |x| match x.kind_mut() {
                ValueKind::Binary(b) => *b.rhs_mut() = next,
                _ => unreachable!(),
              });
            }
            vs
          })
          .collect();
        for (c, o) in circles.iter().zip(&ops) {
          for (c2, o2) in circles.iter().zip(&ops) {
            ctx.count("evaluations", 1);
            // what equals itself, and what differs at some distance; two
            // circles alike are left open
            if c == c2 && !c.iter().all(|v| d.value_eq(*v, *v) && d.data_eq(&d.value(*v).clone(), &d.value(*v).clone())) {
              return Err(format!("a value of the circle {o:?} differs from itself"));
            }
            if o != o2 && d.value_eq(c[0], c2[0]) {
              return Err(format!("circles {o:?} and {o2:?} are equal"));
            }
          }
          ctx.note(hash64(format!("circle {o:?}").as_bytes()));
        }
        Ok(())
      },
    );
  }
}

/// Values with keys that are equal exactly for structurally equal values.
fn value_set(thorough: bool) -> (Program, Function, Vec<(Value, String)>) {
  let mut p = Program::new();
  let ti = Type::get_i32();
  let tp = Type::get_pointer(ti.clone());
  let ta = Type::get_array(ti.clone(), 2);
  let c1 = p.new_func_decl("@c1".into(), vec![ti.clone()], ti.clone());
  let c2 = p.new_func_decl("@c2".into(), vec![ti.clone()], ti.clone());
  let c0 = p.new_func_decl("@c0".into(), vec![], Type::get_unit());
  let c3 = p.new_func_decl("@c3".into(), vec![ti.clone(), ti.clone()], ti.clone());
  let f = p.new_func_def("@f".into(), vec![ti.clone(), ti.clone(), tp.clone()], ti.clone());
  type S = Vec<(Value, String)>;
  let mut ints: S = vec![];
  let mut ptrs: S = vec![];
  let mut aptrs: S = vec![];
  let mut rest: S = vec![];
  for x in [0, 7] {
    let v = p.new_value().integer(x);
    ints.push((v, format!("int {x}")));
  }
  let g0 = p.new_value().integer(1);
  let g0b = p.new_value().integer(1);
  let z = p.new_value().zero_init(ti.clone());
  let za = p.new_value().zero_init(ta.clone());
  for (c, k) in [(g0, "int 1"), (g0b, "int 1"), (z, "zero i32")] {
    let v = p.new_value().global_alloc(c);
    ptrs.push((v, format!("galloc *i32 ({k})")));
  }
  let v = p.new_value().global_alloc(za);
  aptrs.push((v, "galloc *[i32, 2] (zero [i32, 2])".into()));
  p.set_value_name(v, Some("@named".into()));
  rest.push((za, "zero [i32, 2]".into()));
  let params = p.func(f).params().to_vec();
  ints.push((params[0], "arg i32 0".into()));
  ints.push((params[1], "arg i32 1".into()));
  ptrs.push((params[2], "arg *i32 2".into()));
  let d = p.func_mut(f).dfg_mut();
  let b0 = d.new_bb().basic_block(None);
  let b0b = d.new_bb().basic_block(None);
  let b1 = d.new_bb().basic_block_with_params(Some("%b".into()), vec![ti.clone(), ti.clone()]);
  let b2 = d.new_bb().basic_block_with_params(Some("%b".into()), vec![ti.clone(), tp.clone()]);
  let b3 = d.new_bb().basic_block_with_params(None, vec![ti.clone()]);
  let b3b = d.new_bb().basic_block_with_params(None, vec![ti.clone()]);
  for (b, i) in [(b1, 0), (b1, 1), (b2, 0)] {
    ints.push((d.bb(b).params()[i], format!("bparam i32 {i}")));
  }
  ptrs.push((d.bb(b2).params()[1], "bparam *i32 1".into()));
  for x in [0, 0, 1, -1] {
    let v = d.new_value().integer(x);
    ints.push((v, format!("int {x}")));
  }
  let consts: S = ints.iter().filter(|x| x.1.starts_with("int")).cloned().collect();
  let v = d.new_value().zero_init(ti.clone());
  ints.push((v, "zero i32".into()));
  for _ in 0..2 {
    let v = d.new_value().undef(ti.clone());
    ints.push((v, "undef i32".into()));
    let v = d.new_value().undef(tp.clone());
    ptrs.push((v, "undef *i32".into()));
    let v = d.new_value().zero_init(ta.clone());
    rest.push((v, "zero [i32, 2]".into()));
    let v = d.new_value().alloc(ti.clone());
    ptrs.push((v, "alloc *i32".into()));
    let v = d.new_value().alloc(ta.clone());
    aptrs.push((v, "alloc *[i32, 2]".into()));
  }
  let v = d.new_value().zero_init(tp.clone());
  ptrs.push((v, "zero *i32".into()));
  let v = d.new_value().alloc(tp.clone());
  rest.push((v, "alloc **i32".into()));
  let ks = |l: &[&(Value, String)]| l.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join("; ");
  let vs = |l: &[&(Value, String)]| l.iter().map(|x| x.0).collect::<Vec<_>>();
  // aggregates
  let mut aggs: S = vec![];
  for a in &consts {
    let v = d.new_value().aggregate(vec![a.0]);
    aggs.push((v, format!("agg 1 ({})", a.1)));
    for b in &consts {
      let v = d.new_value().aggregate(vec![a.0, b.0]);
      aggs.push((v, format!("agg 2 ({}; {})", a.1, b.1)));
    }
  }
  for l in [[0, 1, 1], [0, 1, 0], [0, 1, 2]] {
    let l: Vec<_> = l.iter().map(|i| &consts[*i]).collect();
    let v = d.new_value().aggregate(vs(&l));
    aggs.push((v, format!("agg 3 ({})", ks(&l))));
  }
  let two: S = aggs.iter().filter(|a| a.1.starts_with("agg 2")).take(6).cloned().chain(rest.iter().filter(|x| x.1 == "zero [i32, 2]").cloned()).collect();
  for a in &two {
    for b in &two {
      let v = d.new_value().aggregate(vec![a.0, b.0]);
      aggs.push((v, format!("agg 22 ({}; {})", a.1, b.1)));
    }
  }
  // one level of instructions over a pool, then another over a selection
  let mut level: (S, S, S) = (ints.clone(), ptrs.clone(), aptrs.clone());
  let mut done: S = [ints, ptrs, aptrs, rest, aggs].concat();
  for round in 0..2 {
    let (is, ps, aps) = &level;
    let (mut ni, mut np): (S, S) = (vec![], vec![]);
    let mut out: S = vec![];
    for x in ps {
      let v = d.new_value().load(x.0);
      ni.push((v, format!("load ({})", x.1)));
      for i in is {
        let v = d.new_value().store(i.0, x.0);
        out.push((v, format!("store ({}; {})", i.1, x.1)));
        let v = d.new_value().get_ptr(x.0, i.0);
        np.push((v, format!("getptr ({}; {})", x.1, i.1)));
      }
    }
    for x in aps {
      let v = d.new_value().load(x.0);
      out.push((v, format!("load a ({})", x.1)));
      for i in is {
        let v = d.new_value().get_ptr(x.0, i.0);
        out.push((v, format!("getptr ({}; {})", x.1, i.1)));
        let v = d.new_value().get_elem_ptr(x.0, i.0);
        np.push((v, format!("getelemptr ({}; {})", x.1, i.1)));
      }
    }
    for a in is {
      for b in is {
        for o in if thorough { vec![0, 1, 3, 6, 7, 16] } else { vec![6, 7] } {
          let v = d.new_value().binary(OPS[o], a.0, b.0);
          ni.push((v, format!("bin {o} ({}; {})", a.1, b.1)));
        }
        let v = d.new_value().call(c3, vec![a.0, b.0]);
        ni.push((v, format!("call c3 ({}; {})", a.1, b.1)));
        let v = d.new_value().jump_with_args(b1, vec![a.0, b.0]);
        out.push((v, format!("jump b1 ({}; {})", a.1, b.1)));
      }
      for (c, n) in [(c1, "c1"), (c2, "c2")] {
        let v = d.new_value().call(c, vec![a.0]);
        ni.push((v, format!("call {n} ({})", a.1)));
      }
      for (b, n) in [(b3, "b3"), (b3b, "b3b")] {
        let v = d.new_value().jump_with_args(b, vec![a.0]);
        out.push((v, format!("jump {n} ({})", a.1)));
      }
      let v = d.new_value().ret(Some(a.0));
      out.push((v, format!("ret ({})", a.1)));
      for (x, y, n) in [(b0, b0b, "b0 b0b"), (b0b, b0, "b0b b0"), (b0, b0, "b0 b0")] {
        let v = d.new_value().branch(a.0, x, y);
        out.push((v, format!("br {n} ({})", a.1)));
      }
      let o = &is[(is.len() - 1) / 2];
      // the same operands split differently between the two targets
      let v = d.new_value().branch_with_args(o.0, b1, b3, vec![a.0, o.0], vec![o.0]);
      out.push((v, format!("br b1 b3 2 1 ({}; {}; {}; {})", o.1, a.1, o.1, o.1)));
      let v = d.new_value().branch_with_args(o.0, b3, b1, vec![a.0], vec![o.0, o.0]);
      out.push((v, format!("br b3 b1 1 2 ({}; {}; {}; {})", o.1, a.1, o.1, o.1)));
      let v = d.new_value().branch_with_args(o.0, b3, b3b, vec![a.0], vec![o.0]);
      out.push((v, format!("br b3 b3b 1 1 ({}; {}; {})", o.1, a.1, o.1)));
      let v = d.new_value().branch_with_args(o.0, b3, b3b, vec![o.0], vec![a.0]);
      out.push((v, format!("br b3 b3b 1 1 ({}; {}; {})", o.1, o.1, a.1)));
    }
    if round == 0 {
      for (op, n) in (0..17).map(|o| (o, &is[4])) {
        let v = d.new_value().binary(OPS[op], n.0, is[0].0);
        ni.push((v, format!("bin {op} ({}; {})", n.1, is[0].1)));
      }
      for _ in 0..2 {
        let v = d.new_value().ret(None);
        out.push((v, "ret".into()));
        let v = d.new_value().call(c0, vec![]);
        out.push((v, "call c0".into()));
        let v = d.new_value().jump(b0);
        out.push((v, "jump b0".into()));
        let v = d.new_value().jump(b0b);
        out.push((v, "jump b0b".into()));
      }
      // made equal and made different by an update
      let x = &is[is.len() - 1];
      let y = &is[0];
      let v = d.new_value().binary(OPS[6], x.0, x.0);
      d.update_value(v, |d| {
        if let ValueKind::Binary(b) = d.kind_mut() {
          *b.lhs_mut() = y.0
        }
      });
      d.set_value_name(v, Some("%updated".into()));
      ni.push((v, format!("bin 6 ({}; {})", y.1, x.1)));
    }
    // a selection for the next round: some equal pairs, some nearly equal ones
    let pick = |s: &S, n: usize| -> S {
      let step = (s.len() / n).max(1);
      s.iter().step_by(step).take(n).cloned().collect()
    };
    done.extend(ni.iter().cloned());
    done.extend(np.iter().cloned());
    done.extend(out);
    let m = if thorough { 10 } else { 6 };
    level = (pick(&ni, m), pick(&np, m / 2), vec![]);
    let dup = level.0[0].clone();
    level.0.push(dup);
  }
  // everything an update can change, including what no builder makes
  let pool: S = vec![consts[0].clone(), level.0[0].clone(), consts[3].clone(), consts[2].clone()];
  let mut lists: Vec<Vec<&(Value, String)>> = vec![vec![]];
  for n in 0..3 {
    for l in lists.iter().filter(|l| l.len() == n).cloned().collect::<Vec<_>>() {
      for x in &pool[..if thorough { 4 } else { 3 }] {
        let mut l = l.clone();
        l.push(x);
        lists.push(l);
      }
    }
  }
  for l in &lists {
    let args = if l.is_empty() { String::new() } else { format!(" ({})", ks(l)) };
    for (b, n) in [(b0, "b0"), (b3, "b3"), (b1, "b1")] {
      let v = d.new_value().jump(b0b);
      d.update_value(v, |d| {
        if let ValueKind::Jump(j) = d.kind_mut() {
          *j.args_mut() = vs(l);
          *j.target_mut() = b;
        }
      });
      done.push((v, format!("jump {n}{args}")));
    }
    for (c, n) in [(c1, "c1"), (c2, "c2"), (c3, "c3")] {
      let v = d.new_value().call(c1, vec![pool[0].0]);
      d.update_value(v, |d| {
        if let ValueKind::Call(j) = d.kind_mut() {
          *j.args_mut() = vs(l);
          *j.callee_mut() = c;
        }
      });
      done.push((v, format!("call {n}{args}")));
    }
    for n in 1..3 {
      let v = d.new_value().aggregate(vec![consts[0].0; n]);
      d.update_value(v, |d| {
        if let ValueKind::Aggregate(a) = d.kind_mut() {
          *a.elems_mut() = vs(l);
        }
      });
      done.push((v, if l.is_empty() { format!("agg {n}") } else { format!("agg {n} ({})", ks(l)) }));
    }
    for l2 in &lists {
      if l.len() + l2.len() > 3 || !thorough && l.len() + l2.len() == 3 && lists.len() > 8 && l.iter().chain(l2).any(|x| x.1 == pool[2].1) {
        continue;
      }
      for (t, e, n) in [(b3, b3b, "b3 b3b"), (b1, b3, "b1 b3")] {
        let v = d.new_value().branch(pool[0].0, b0, b0b);
        d.update_value(v, |d| {
          if let ValueKind::Branch(b) = d.kind_mut() {
            *b.true_args_mut() = vs(l);
            *b.false_args_mut() = vs(l2);
            *b.true_bb_mut() = t;
            *b.false_bb_mut() = e;
          }
        });
        let mut all = vec![&pool[0]];
        all.extend(l.iter().chain(l2));
        done.push((v, format!("br {n} {} {} ({})", l.len(), l2.len(), ks(&all))));
      }
    }
  }
  for x in &pool {
    for y in &pool {
      for op in [0, 6, 7] {
        let v = d.new_value().binary(OPS[0], pool[0].0, pool[0].0);
        d.update_value(v, |d| {
          if let ValueKind::Binary(b) = d.kind_mut() {
            *b.op_mut() = OPS[op];
            *b.lhs_mut() = x.0;
            *b.rhs_mut() = y.0;
          }
        });
        done.push((v, format!("bin {op} ({}; {})", x.1, y.1)));
      }
    }
    let v = d.new_value().ret(None);
    d.update_value(v, |d| {
      if let ValueKind::Return(b) = d.kind_mut() {
        *b.value_mut() = Some(x.0);
      }
    });
    done.push((v, format!("ret ({})", x.1)));
    d.update_value(v, |d| {
      if let ValueKind::Return(b) = d.kind_mut() {
        *b.value_mut() = None;
      }
    });
    done.last_mut().unwrap().1 = "ret".into();
    let v = d.new_value().ret(None);
    d.update_value(v, |d| {
      if let ValueKind::Return(b) = d.kind_mut() {
        *b.value_mut() = Some(x.0);
      }
    });
    done.push((v, format!("ret ({})", x.1)));
  }
  for x in [-1, 0, 1, i32::MIN, i32::MAX] {
    let v = d.new_value().integer(5);
    d.update_value(v, |d| {
      if let ValueKind::Integer(i) = d.kind_mut() {
        *i.value_mut() = x;
      }
    });
    done.push((v, format!("int {x}")));
  }
  let b4 = d.new_bb().basic_block_with_params(None, vec![ti.clone(), ti.clone(), tp.clone()]);
  for (k, v) in d.bb(b4).params().to_vec().into_iter().enumerate() {
    d.update_value(v, |d| {
      if let ValueKind::BlockArgRef(i) = d.kind_mut() {
        *i.index_mut() = 1 - k % 2;
      }
    });
    done.push((v, format!("bparam {} {}", if k == 2 { "*i32" } else { "i32" }, 1 - k % 2)));
  }
  (p, f, done)
}

// ---- O01 ----

type Log = Rc<RefCell<Vec<(usize, String)>>>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum PK {
  /// module pass that only looks
  Look,
  /// function pass that only looks
  LookF,
  /// function pass that adds a mark (a value) to each function
  MarkF,
  /// adds a function definition
  Add,
  /// removes the first function
  Remove,
  /// appends to every name
  Rename,
  /// function pass: appends to its function's name
  RenameF,
}

const PKS: [PK; 7] = [PK::Look, PK::LookF, PK::MarkF, PK::Add, PK::Remove, PK::Rename, PK::RenameF];

struct Rec {
  id: usize,
  kind: PK,
  log: Log,
  runs: usize,
}

fn marks(d: &DataFlowGraph) -> Vec<i32> {
  let mut v: Vec<i32> = d.values().values().filter_map(|x| if let ValueKind::Integer(i) = x.kind() { Some(i.value()) } else { None }).collect();
  v.sort();
  v
}

fn look(f: &FunctionData) -> String {
  format!("{} {:?}", f.name(), marks(f.dfg()))
}

impl ModulePass for Rec {
  fn run_on(&mut self, p: &mut Program) {
    self.runs += 1;
    let all: Vec<String> = p.func_layout().iter().map(|f| look(p.func(*f))).collect();
    self.log.borrow_mut().push((self.id, format!("module {} {all:?}", self.runs)));
    match self.kind {
      PK::Add => {
        p.new_func_def(format!("@n{}_{}", self.id, self.runs), vec![], Type::get_unit());
      }
      PK::Remove => {
        if let Some(f) = p.func_layout().first().copied() {
          p.remove_func(f);
        }
      }
      PK::Rename => {
        for f in p.funcs_mut().values_mut() {
          let n = format!("{}m", f.name());
          f.set_name(n);
        }
      }
      _ => {}
    }
  }
}

struct RecF {
  rec: Rec,
  handles: Rc<RefCell<HashMap<Function, usize>>>,
}

impl FunctionPass for RecF {
  fn run_on(&mut self, f: Function, d: &mut FunctionData) {
    self.rec.runs += 1;
    let h = self.handles.borrow().get(&f).copied();
    self.rec.log.borrow_mut().push((self.rec.id, format!("function {h:?} {}", look(d))));
    match self.rec.kind {
      PK::MarkF => {
        d.dfg_mut().new_value().integer(self.rec.id as i32);
      }
      PK::RenameF => {
        let n = format!("{}f", d.name());
        d.set_name(n)
      }
      _ => {}
    }
  }
}

fn o01(ctx: &mut Ctx) {
  let max = ctx.pick(5, 6);
  let all = lists(&(0..PKS.len()).collect::<Vec<_>>(), max);
  for passes in all {
    let kinds: Vec<PK> = passes.iter().map(|i| PKS[*i]).collect();
    ctx.case(
      || format!("passes {kinds:?}"),
      |ctx| {
        for nf in 0..=3usize {
          for from in [false, true] {
            ctx.count("traces", 1);
            run_passes(ctx, &kinds, nf, from).map_err(|e| format!("{e}, {nf} functions, {}", if from { "From<Vec>" } else { "register" }))?;
          }
        }
        Ok(())
      },
    );
  }
  // many passes and functions
  for n in [6usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100] {
    for (ki, _) in PKS.iter().enumerate() {
      for alt in 0..PKS.len() {
        let kinds: Vec<PK> = (0..n).map(|i| if i % 2 == 0 { PKS[ki] } else { PKS[alt] }).collect();
        ctx.case(
          || format!("{n} passes, {:?} and {:?} in turn", PKS[ki], PKS[alt]),
          |ctx| {
            for nf in [3usize, 5] {
              ctx.count("traces", 1);
              run_passes(ctx, &kinds, nf, n % 2 == 0).map_err(|e| format!("{e}, {nf} functions"))?;
            }
            Ok(())
          },
        );
      }
    }
  }
  for nf in [4usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 256, 257, 300] {
    for a in PKS {
      for b in PKS {
        ctx.case(
          || format!("passes {a:?}, {b:?} on {nf} functions"),
          |ctx| {
            ctx.count("traces", 1);
            run_passes(ctx, &[a, b], nf, nf % 2 == 0)
          },
        );
      }
    }
  }
}

fn run_passes(ctx: &mut Ctx, kinds: &[PK], nf: usize, from: bool) -> Result<(), String> {
  let log: Log = Default::default();
  let handles: Rc<RefCell<HashMap<Function, usize>>> = Default::default();
  let mut p = Program::new();
  let mut model: Vec<(String, Vec<i32>)> = vec![];
  for i in 0..nf {
    if i == 1 {
      p.new_func_decl(format!("@f{i}"), vec![], Type::get_unit());
    } else {
      p.new_func_def(format!("@f{i}"), vec![Type::get_i32()], Type::get_unit());
    }
    model.push((format!("@f{i}"), vec![]));
  }
  let made: Vec<Pass> = kinds
    .iter()
    .enumerate()
    .map(|(id, k)| {
      let rec = Rec { id, kind: *k, log: log.clone(), runs: 0 };
      match k {
        PK::Look | PK::Add | PK::Remove | PK::Rename => Pass::Module(Box::new(rec)),
        _ => Pass::Function(Box::new(RecF { rec, handles: handles.clone() })),
      }
    })
    .collect();
  let mut man = if from {
    PassManager::from(made)
  } else {
    let mut m = PassManager::new();
    made.into_iter().for_each(|x| m.register(x));
    m
  };
  let mut runs = vec![0; kinds.len()];
  for round in 0..2 {
    log.borrow_mut().clear();
    // functions may come and go during the run, so the handle is looked up by
    // name afterwards; here only whether it belongs to the program
    handles.borrow_mut().clear();
    man.run_passes(&mut p);
    let got = log.borrow().clone();
    let mut at = 0;
    let show = |m: &(String, Vec<i32>)| format!("{} {:?}", m.0, m.1);
    for (id, k) in kinds.iter().enumerate() {
      ctx.count("transitions", 1);
      ctx.note(hash64(format!("{:?} {model:?}", &kinds[id..]).as_bytes()));
      let n = match k {
        PK::Look | PK::Add | PK::Remove | PK::Rename => 1,
        _ => model.len(),
      };
      if got.len() < at + n {
        return Err(format!("round {round}: pass {id} ({k:?}) left {} of {n} traces", got.len() - at));
      }
      let mut mine: Vec<(usize, String)> = got[at..at + n].to_vec();
      at += n;
      if mine.iter().any(|m| m.0 != id) {
        return Err(format!("round {round}: instead of pass {id} ({k:?}), ran {mine:?}"));
      }
      match k {
        PK::Look | PK::Add | PK::Remove | PK::Rename => {
          runs[id] += 1;
          let want = format!("module {} {:?}", runs[id], model.iter().map(show).collect::<Vec<_>>());
          if mine[0].1 != want {
            return Err(format!("round {round}: pass {id} ({k:?}) saw {} instead of {want}", mine[0].1));
          }
        }
        _ => {
          let mut want: Vec<String> = model.iter().map(|m| format!("function None {}", show(m))).collect();
          want.sort();
          mine.sort();
          let mine: Vec<String> = mine.into_iter().map(|m| m.1).collect();
          if mine != want {
            return Err(format!("round {round}: pass {id} ({k:?}) saw {mine:?} instead of {want:?}"));
          }
        }
      }
      match k {
        PK::Add => model.push((format!("@n{id}_{}", runs[id]), vec![])),
        PK::Remove => {
          if !model.is_empty() {
            model.remove(0);
          }
        }
        PK::Rename => model.iter_mut().for_each(|m| m.0.push('m')),
        PK::RenameF => model.iter_mut().for_each(|m| m.0.push('f')),
        PK::MarkF => model.iter_mut().for_each(|m| {
          m.1.push(id as i32);
          m.1.sort();
        }),
        _ => {}
      }
    }
    if at != got.len() {
      return Err(format!("round {round}: {} runs too many: {:?}", got.len() - at, &got[at..]));
    }
    let end: Vec<String> = p.func_layout().iter().map(|f| look(p.func(*f))).collect();
    if end != model.iter().map(show).collect::<Vec<_>>() {
      return Err(format!("round {round}: the program ends as {end:?}"));
    }
    // each function pass got the handle that goes with the data
    let want: HashSet<Function> = p.func_layout().iter().copied().collect();
    let seen: Rc<RefCell<Vec<(Function, String)>>> = Default::default();
    struct H(Rc<RefCell<Vec<(Function, String)>>>);
    impl FunctionPass for H {
      fn run_on(&mut self, f: Function, d: &mut FunctionData) {
        self.0.borrow_mut().push((f, d.name().to_string()));
      }
    }
    let mut hm = PassManager::new();
    hm.register(Pass::Function(Box::new(H(seen.clone()))));
    hm.run_passes(&mut p);
    let seen = seen.borrow();
    if seen.len() != want.len() || !seen.iter().all(|(f, n)| want.contains(f) && p.func(*f).name() == n) {
      return Err("a function pass got a handle that does not go with its data".into());
    }
  }
  Ok(())
}
