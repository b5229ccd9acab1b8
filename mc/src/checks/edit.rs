//! I01 (use lists) and I07 (programs as collections): operation sequences on
//! the real data structures against plain reference structures.
use super::front;
use crate::extract::{OPS, check_uses, operands};
use crate::render;
use crate::sup::{CheckDef, Ctx, guarded, hash64};
use koopa::ir::builder_traits::*;
use koopa::ir::entities::{ValueData, ValueKind};
use koopa::ir::{BasicBlock, Function, FunctionData, Program, Type, Value};
use std::collections::{BTreeSet, HashSet};

pub fn defs() -> Vec<CheckDef> {
  vec![
    CheckDef {
      id: "I01",
      level: "model_checking",
      rule: "states: which values and blocks exist, the kind, operands and targets of each, by order of creation; transitions: one creation, replacement, update or removal with every choice of operands from a small pool; all sequences up to the depth from several initial programs are executed on the real structures and every use list compared after every step",
      run: i01,
      assumptions: &["an update leaves a value whose operands exist", "a value that is its own operand is not removed"],
    },
    CheckDef {
      id: "I07",
      level: "model_checking",
      rule: "states: the lists of globals and functions with names, types and uses; transitions: one addition, renaming, use or removal; all sequences up to the depth are executed on a real program and everything it answers is compared after every step",
      run: i07,
      assumptions: &["a function or global that others still mention may be removed only where the documentation allows it (functions always, globals when unused)"],
    },
  ]
}

// ---- I01 ----

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum R {
  L(usize),
  G(usize),
}

/// What a value is: a tag, operands, targets. `split`: number of arguments
/// for the true target of a branch.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct K {
  tag: &'static str,
  ops: Vec<R>,
  bbs: Vec<usize>,
  split: usize,
  /// the type stays when only the kind is changed
  ty: char,
}

fn k(tag: &'static str, ops: Vec<R>) -> K {
  let ty = match tag {
    "int" | "load" | "bin" | "call" | "param" | "bparam" => 'i',
    "alloc" | "galloc" | "gp" | "gep" => 'p',
    "aalloc" => 'q',
    "agg" => 'a',
    _ => 'u',
  };
  K { tag, ops, bbs: vec![], split: 0, ty }
}

#[derive(Clone, Hash, Debug, Default)]
struct W {
  globals: Vec<Option<K>>,
  locals: Vec<Option<K>>,
  /// parameters (locals), or removed
  blocks: Vec<Option<Vec<usize>>>,
}

#[derive(Clone, Debug)]
enum Op {
  NewG(K),
  DelG(usize),
  New(K),
  /// with `raw` and a clone of another value's data
  Raw(R),
  Replace(usize, K),
  /// operand number := value
  SetOp(usize, usize, R),
  SetBB(usize, usize, usize),
  /// arguments (of a jump, call, aggregate, true branch, false branch) := values
  SetArgs(usize, usize, Vec<R>),
  SetRet(usize, Option<R>),
  /// kind := clone of another value's kind
  SetKind(usize, R),
  /// data := clone of another value's data
  SetData(usize, R),
  /// an update that changes nothing
  Nop(usize),
  Del(usize),
  NewBB(usize),
  DelBB(usize),
}

fn ty_of(k: &K) -> char {
  k.ty
}

impl W {
  fn get(&self, r: R) -> Option<&K> {
    match r {
      R::L(i) => self.locals[i].as_ref(),
      R::G(i) => self.globals[i].as_ref(),
    }
  }
  fn users(&self, r: R) -> BTreeSet<R> {
    let mut s = BTreeSet::new();
    for (i, k) in self.globals.iter().enumerate() {
      if k.as_ref().is_some_and(|k| k.ops.contains(&r)) {
        s.insert(R::G(i));
      }
    }
    for (i, k) in self.locals.iter().enumerate() {
      if k.as_ref().is_some_and(|k| k.ops.contains(&r)) {
        s.insert(R::L(i));
      }
    }
    s
  }
  fn bb_users(&self, b: usize) -> BTreeSet<usize> {
    (0..self.locals.len()).filter(|i| self.locals[*i].as_ref().is_some_and(|k| k.bbs.contains(&b))).collect()
  }
  fn of_ty(&self, t: char, n: usize) -> Vec<R> {
    // the first and the latest ones
    let mut v: Vec<R> = (0..self.globals.len())
      .map(R::G)
      .chain((0..self.locals.len()).map(R::L))
      .filter(|r| self.get(*r).is_some_and(|k| ty_of(k) == t))
      .collect();
    if v.len() > n {
      let tail = v.split_off(v.len() - (n - 1));
      v.truncate(1);
      v.extend(tail);
    }
    v
  }
  fn live_bbs(&self) -> Vec<usize> {
    (0..self.blocks.len()).filter(|b| self.blocks[*b].is_some()).collect()
  }
  fn step(&mut self, op: &Op) {
    match op {
      Op::NewG(k) => self.globals.push(Some(k.clone())),
      Op::DelG(i) => self.globals[*i] = None,
      Op::New(k) => self.locals.push(Some(k.clone())),
      Op::Raw(r) => {
        let k = self.get(*r).unwrap().clone();
        self.locals.push(Some(k))
      }
      Op::Replace(v, k) => self.locals[*v] = Some(k.clone()),
      Op::SetOp(v, n, r) => self.locals[*v].as_mut().unwrap().ops[*n] = *r,
      Op::SetBB(v, n, b) => self.locals[*v].as_mut().unwrap().bbs[*n] = *b,
      Op::SetArgs(v, which, a) => {
        let k = self.locals[*v].as_mut().unwrap();
        match (k.tag, which) {
          ("br", 0) => {
            k.ops.splice(1..1 + k.split, a.iter().copied());
            k.split = a.len();
          }
          ("br", _) => {
            k.ops.truncate(1 + k.split);
            k.ops.extend(a);
          }
          _ => k.ops = a.clone(),
        }
      }
      Op::SetRet(v, r) => self.locals[*v].as_mut().unwrap().ops = r.iter().copied().collect(),
      Op::SetData(v, r) => self.locals[*v] = self.get(*r).cloned(),
      Op::SetKind(v, r) => {
        let ty = self.locals[*v].as_ref().unwrap().ty;
        self.locals[*v] = Some(K { ty, ..self.get(*r).unwrap().clone() })
      }
      Op::Nop(_) => {}
      Op::Del(v) => self.locals[*v] = None,
      Op::NewBB(n) => {
        let ps = (0..*n).map(|i| self.locals.len() + i).collect();
        for _ in 0..*n {
          self.locals.push(Some(k("bparam", vec![])));
        }
        self.blocks.push(Some(ps));
      }
      Op::DelBB(b) => {
        for p in self.blocks[*b].take().unwrap() {
          self.locals[p] = None;
        }
      }
    }
  }
  fn kinds(&self, small: bool) -> Vec<K> {
    let ints = self.of_ty('i', if small { 2 } else { 3 });
    let ptrs = self.of_ty('p', 2);
    let mut v = vec![k("int", vec![]), k("alloc", vec![])];
    for p in &ptrs {
      v.push(k("load", vec![*p]));
      for i in &ints {
        v.push(k("store", vec![*i, *p]));
      }
      if let Some(i) = ints.last() {
        v.push(k("gp", vec![*p, *i]));
      }
    }
    for q in self.of_ty('q', 2) {
      for i in &ints {
        v.push(k("gep", vec![q, *i]));
      }
    }
    for a in &ints {
      for b in &ints {
        v.push(k("bin", vec![*a, *b]));
        v.push(k("call", vec![*a, *b]));
      }
      v.push(k("ret", vec![*a]));
    }
    v.push(k("ret", vec![]));
    let consts: Vec<R> = self.of_ty('i', 9).into_iter().filter(|r| self.get(*r).unwrap().tag == "int").collect();
    if !consts.is_empty() {
      v.push(k("agg", vec![consts[0], *consts.last().unwrap()]));
      v.push(k("agg", vec![consts[0], consts[0]]));
    }
    let bbs = self.live_bbs();
    let bbs: Vec<usize> = if bbs.len() > 3 { vec![bbs[0], bbs[1], bbs[bbs.len() - 1]] } else { bbs };
    let args = |b: usize, x: R| vec![x; self.blocks[b].as_ref().unwrap().len()];
    let bbs: Vec<usize> = if small { bbs.into_iter().rev().take(2).collect() } else { bbs };
    for b in &bbs {
      for x in &ints {
        v.push(K { tag: "jump", ops: args(*b, *x), bbs: vec![*b], split: 0, ty: 'u' });
        if args(*b, *x).is_empty() {
          break;
        }
      }
      for c in &bbs {
        if b == c && !self.blocks[*b].as_ref().unwrap().is_empty() {
          continue;
        }
        if ints.is_empty() {
          continue;
        }
        let (x, y) = (ints[0], *ints.last().unwrap());
        let (t, f) = (args(*b, x), args(*c, y));
        let split = t.len();
        v.push(K { tag: "br", ops: std::iter::once(y).chain(t).chain(f).collect(), bbs: vec![*b, *c], split, ty: 'u' });
      }
    }
    v
  }
  fn ops(&self, small: bool) -> Vec<Op> {
    let mut v = vec![];
    let kinds = self.kinds(small);
    let anyr: Vec<R> = {
      let mut a = self.of_ty('i', if small { 2 } else { 3 });
      a.extend(self.of_ty('p', if small { 1 } else { 2 }));
      a
    };
    for k in &kinds {
      v.push(Op::New(k.clone()));
    }
    // values to change: the latest few that are not parameters
    let vals: Vec<usize> = (0..self.locals.len())
      .rev()
      .filter(|i| self.locals[*i].as_ref().is_some_and(|k| !k.tag.ends_with("param")))
      .take(if small { 1 } else { 4 })
      .collect();
    let bbs = self.live_bbs();
    for x in &vals {
      let kd = self.locals[*x].as_ref().unwrap();
      for k in kinds.iter().filter(|k| !small || k.tag != kd.tag || k.ops != kd.ops) {
        v.push(Op::Replace(*x, k.clone()));
      }
      for n in 0..kd.ops.len() {
        for r in &anyr {
          v.push(Op::SetOp(*x, n, *r));
        }
      }
      for n in 0..kd.bbs.len() {
        for b in &bbs {
          v.push(Op::SetBB(*x, n, *b));
        }
      }
      let lists: Vec<Vec<R>> = match (anyr.first(), anyr.last()) {
        (Some(a), Some(b)) => vec![vec![], vec![*a], vec![*a, *b], vec![*b, *a, *b], vec![*b, *b]],
        _ => vec![vec![]],
      };
      match kd.tag {
        "jump" | "call" | "agg" => lists.iter().for_each(|l| v.push(Op::SetArgs(*x, 0, l.clone()))),
        "br" => lists.iter().for_each(|l| {
          v.push(Op::SetArgs(*x, 0, l.clone()));
          v.push(Op::SetArgs(*x, 1, l.clone()));
        }),
        "ret" => {
          v.push(Op::SetRet(*x, None));
          anyr.iter().for_each(|r| v.push(Op::SetRet(*x, Some(*r))));
        }
        _ => {}
      }
      for y in &vals {
        if x != y {
          v.push(Op::SetKind(*x, R::L(*y)));
          v.push(Op::SetData(*x, R::L(*y)));
        }
      }
      v.push(Op::Nop(*x));
      v.push(Op::Raw(R::L(*x)));
      if self.users(R::L(*x)).is_empty() {
        v.push(Op::Del(*x));
      }
    }
    // older unused values too
    for x in (0..self.locals.len()).filter(|i| !vals.contains(i)) {
      if self.locals[x].as_ref().is_some_and(|k| !k.tag.ends_with("param")) && self.users(R::L(x)).is_empty() {
        v.push(Op::Del(x));
      }
    }
    v.push(Op::NewBB(0));
    v.push(Op::NewBB(1));
    for b in bbs {
      let ps = self.blocks[b].as_ref().unwrap();
      if self.bb_users(b).is_empty() && ps.iter().all(|p| self.users(R::L(*p)).is_empty()) {
        v.push(Op::DelBB(b));
      }
    }
    for (i, g) in self.globals.iter().enumerate() {
      if g.is_some() && self.users(R::G(i)).is_empty() {
        v.push(Op::DelG(i));
      }
    }
    v.push(Op::NewG(k("int", vec![])));
    let gc: Vec<R> = (0..self.globals.len()).map(R::G).filter(|r| self.get(*r).is_some_and(|k| k.tag == "int")).collect();
    if let (Some(a), Some(b)) = (gc.first(), gc.last()) {
      v.push(Op::NewG(k("agg", vec![*a, *b])));
      v.push(Op::NewG(k("galloc", vec![*b])));
      v.push(Op::NewG(k("galloc", vec![*a])));
    }
    v
  }
}

struct Real {
  p: Program,
  f: Function,
  callee: Function,
  globals: Vec<Value>,
  locals: Vec<Value>,
  blocks: Vec<BasicBlock>,
}

impl Real {
  fn new() -> (Real, W) {
    let mut p = Program::new();
    let i = Type::get_i32();
    let callee = p.new_func_decl("@c".into(), vec![i.clone(), i.clone()], i.clone());
    let f = p.new_func_def("@f".into(), vec![i.clone()], i);
    let locals = p.func(f).params().to_vec();
    let w = W { globals: vec![], locals: vec![Some(k("param", vec![]))], blocks: vec![] };
    (Real { p, f, callee, globals: vec![], locals, blocks: vec![] }, w)
  }
  fn v(&self, r: R) -> Value {
    match r {
      R::L(i) => self.locals[i],
      R::G(i) => self.globals[i],
    }
  }
  fn data(&self, r: R) -> ValueData {
    match r {
      R::L(i) => self.p.func(self.f).dfg().value(self.locals[i]).clone(),
      R::G(i) => self.p.borrow_value(self.globals[i]).clone(),
    }
  }
  fn step(&mut self, op: &Op) {
    match op {
      Op::NewG(k) => {
        let ops: Vec<Value> = k.ops.iter().map(|r| self.v(*r)).collect();
        let b = self.p.new_value();
        let v = match k.tag {
          "int" => b.integer(3),
          "agg" => b.aggregate(ops),
          _ => b.global_alloc(ops[0]),
        };
        self.globals.push(v);
      }
      Op::DelG(i) => {
        self.p.remove_value(self.globals[*i]);
      }
      Op::New(k) => {
        let v = build(k, self, None);
        self.locals.push(v);
      }
      Op::Replace(x, k) => {
        let v = build(k, self, Some(self.locals[*x]));
        assert!(v == self.locals[*x], "replacing a value changed its handle");
      }
      Op::Raw(r) => {
        let d = self.data(*r);
        let v = self.p.func_mut(self.f).dfg_mut().new_value().raw(d);
        self.locals.push(v);
      }
      Op::SetOp(x, n, r) => {
        let t = self.v(*r);
        self.upd(*x, |d| match d.kind_mut() {
          ValueKind::Aggregate(a) => a.elems_mut()[*n] = t,
          ValueKind::Load(a) => *a.src_mut() = t,
          ValueKind::Store(a) if *n == 0 => *a.value_mut() = t,
          ValueKind::Store(a) => *a.dest_mut() = t,
          ValueKind::GetPtr(a) if *n == 0 => *a.src_mut() = t,
          ValueKind::GetPtr(a) => *a.index_mut() = t,
          ValueKind::GetElemPtr(a) if *n == 0 => *a.src_mut() = t,
          ValueKind::GetElemPtr(a) => *a.index_mut() = t,
          ValueKind::Binary(a) if *n == 0 => *a.lhs_mut() = t,
          ValueKind::Binary(a) => *a.rhs_mut() = t,
          ValueKind::Branch(a) => {
            let s = a.true_args().len();
            if *n == 0 {
              *a.cond_mut() = t
            } else if *n <= s {
              a.true_args_mut()[*n - 1] = t
            } else {
              a.false_args_mut()[*n - 1 - s] = t
            }
          }
          ValueKind::Jump(a) => a.args_mut()[*n] = t,
          ValueKind::Call(a) => a.args_mut()[*n] = t,
          ValueKind::Return(a) => *a.value_mut() = Some(t),
          _ => unreachable!(),
        })
      }
      Op::SetBB(x, n, b) => {
        let t = self.blocks[*b];
        self.upd(*x, |d| match d.kind_mut() {
          ValueKind::Branch(a) if *n == 0 => *a.true_bb_mut() = t,
          ValueKind::Branch(a) => *a.false_bb_mut() = t,
          ValueKind::Jump(a) => *a.target_mut() = t,
          _ => unreachable!(),
        })
      }
      Op::SetArgs(x, w, a) => {
        let vs: Vec<Value> = a.iter().map(|r| self.v(*r)).collect();
        self.upd(*x, |d| match d.kind_mut() {
          ValueKind::Aggregate(a) => *a.elems_mut() = vs,
          ValueKind::Jump(a) => *a.args_mut() = vs,
          ValueKind::Call(a) => *a.args_mut() = vs,
          ValueKind::Branch(a) if *w == 0 => *a.true_args_mut() = vs,
          ValueKind::Branch(a) => *a.false_args_mut() = vs,
          _ => unreachable!(),
        })
      }
      Op::SetRet(x, r) => {
        let t = r.map(|r| self.v(r));
        self.upd(*x, |d| match d.kind_mut() {
          ValueKind::Return(a) => *a.value_mut() = t,
          _ => unreachable!(),
        })
      }
      Op::SetKind(x, r) => {
        let o = self.data(*r);
        self.upd(*x, |d| *d.kind_mut() = o.kind().clone())
      }
      Op::SetData(x, r) => {
        let o = self.data(*r);
        self.upd(*x, |d| *d = o)
      }
      Op::Nop(x) => self.upd(*x, |_| {}),
      Op::Del(x) => {
        self.p.func_mut(self.f).dfg_mut().remove_value(self.locals[*x]);
      }
      Op::NewBB(n) => {
        let d = self.p.func_mut(self.f).dfg_mut();
        let b = if *n == 0 { d.new_bb().basic_block(None) } else { d.new_bb().basic_block_with_params(None, vec![Type::get_i32(); *n]) };
        self.locals.extend(d.bb(b).params());
        self.blocks.push(b);
      }
      Op::DelBB(b) => {
        self.p.func_mut(self.f).dfg_mut().remove_bb(self.blocks[*b]);
      }
    }
  }
  fn upd(&mut self, x: usize, f: impl FnOnce(&mut ValueData)) {
    let v = self.locals[x];
    self.p.func_mut(self.f).dfg_mut().update_value(v, f);
  }
  fn check(&self, w: &W) -> Result<(), String> {
    let fd = self.p.func(self.f);
    let vals = fd.dfg().values();
    if vals.len() != w.locals.iter().flatten().count() {
      return Err(format!("{} values instead of {}", vals.len(), w.locals.iter().flatten().count()));
    }
    let globals = self.p.borrow_values();
    if globals.len() != w.globals.iter().flatten().count() {
      return Err(format!("{} global values instead of {}", globals.len(), w.globals.iter().flatten().count()));
    }
    let all = (0..w.globals.len()).map(R::G).chain((0..w.locals.len()).map(R::L));
    for r in all {
      let real = match r {
        R::L(i) => vals.get(&self.locals[i]),
        R::G(i) => globals.get(&self.globals[i]),
      };
      let (d, k) = match (real, w.get(r)) {
        (None, None) => continue,
        (Some(d), Some(k)) => (d, k),
        (d, _) => return Err(format!("{r:?} {}", if d.is_some() { "still exists" } else { "is gone" })),
      };
      let want: Vec<Value> = k.ops.iter().map(|o| self.v(*o)).collect();
      let bbs: Vec<BasicBlock> = k.bbs.iter().map(|b| self.blocks[*b]).collect();
      if operands(d.kind()) != (want.clone(), bbs.clone()) {
        return Err(format!("{r:?} should be {k:?} but is {:?}", d.kind()));
      }
      let got: Vec<Value> = d.kind().value_uses().take(want.len() + 50).collect();
      if got != want {
        return Err(format!("value_uses of {r:?} ({k:?}) gives {got:?}"));
      }
      let got: Vec<BasicBlock> = d.kind().bb_uses().take(bbs.len() + 50).collect();
      if got != bbs {
        return Err(format!("bb_uses of {r:?} ({k:?}) gives {got:?}"));
      }
      let (konst, inst) = (matches!(k.tag, "int" | "agg"), !matches!(k.tag, "int" | "agg" | "galloc" | "param" | "bparam"));
      if (d.kind().is_const(), d.kind().is_global_alloc(), d.kind().is_local_inst()) != (konst, k.tag == "galloc", inst) {
        return Err(format!("{r:?} ({k:?}) is taken for another sort of value"));
      }
      let users: HashSet<Value> = w.users(r).into_iter().map(|u| self.v(u)).collect();
      if *d.used_by() != users {
        return Err(format!("recorded users of {r:?} ({k:?}): {} of them, actually {:?}", d.used_by().len(), w.users(r)));
      }
    }
    if fd.dfg().bbs().len() != w.live_bbs().len() {
      return Err("wrong number of blocks".into());
    }
    for b in w.live_bbs() {
      let d = fd.dfg().bb(self.blocks[b]);
      let users: HashSet<Value> = w.bb_users(b).into_iter().map(|u| self.locals[u]).collect();
      if *d.used_by() != users {
        return Err(format!("recorded users of block {b}: {} of them, actually {:?}", d.used_by().len(), w.bb_users(b)));
      }
      let ps: Vec<Value> = w.blocks[b].as_ref().unwrap().iter().map(|p| self.locals[*p]).collect();
      if d.params() != ps {
        return Err(format!("parameters of block {b} changed"));
      }
    }
    Ok(())
  }
}

fn build(k: &K, r: &mut Real, replace: Option<Value>) -> Value {
  let ops: Vec<Value> = k.ops.iter().map(|o| r.v(*o)).collect();
  let bbs: Vec<BasicBlock> = k.bbs.iter().map(|b| r.blocks[*b]).collect();
  let callee = r.callee;
  let split = k.split;
  let tag = k.tag;
  let d = r.p.func_mut(r.f).dfg_mut();
  fn go<B: LocalInstBuilder>(b: B, tag: &str, ops: Vec<Value>, bbs: Vec<BasicBlock>, split: usize, callee: Function) -> Value {
    match tag {
      "int" => b.integer(7),
      "alloc" => b.alloc(Type::get_i32()),
      "load" => b.load(ops[0]),
      "store" => b.store(ops[0], ops[1]),
      "gp" => b.get_ptr(ops[0], ops[1]),
      "gep" => b.get_elem_ptr(ops[0], ops[1]),
      "aalloc" => b.alloc(Type::get_array(Type::get_i32(), 2)),
      "bin" => b.binary(OPS[6], ops[0], ops[1]),
      "call" => b.call(callee, ops),
      "ret" => b.ret(ops.first().copied()),
      "agg" => b.aggregate(ops),
      "jump" if ops.is_empty() => b.jump(bbs[0]),
      "jump" => b.jump_with_args(bbs[0], ops),
      "br" if ops.len() == 1 => b.branch(ops[0], bbs[0], bbs[1]),
      "br" => b.branch_with_args(ops[0], bbs[0], bbs[1], ops[1..1 + split].to_vec(), ops[1 + split..].to_vec()),
      t => unreachable!("{t}"),
    }
  }
  match replace {
    None => go(d.new_value(), tag, ops, bbs, split, callee),
    Some(v) => go(d.replace_value_with(v), tag, ops, bbs, split, callee),
  }
}

fn initials() -> Vec<(&'static str, Vec<Op>)> {
  // locals: 0 param
  let base = vec![
    Op::NewG(k("int", vec![])),
    Op::NewG(k("galloc", vec![R::G(0)])),
    Op::NewBB(0),
    Op::NewBB(1), // local 1
    Op::New(k("int", vec![])), // 2
    Op::New(k("alloc", vec![])), // 3
  ];
  let with = |more: Vec<Op>| base.iter().cloned().chain(more).collect::<Vec<_>>();
  vec![
    ("empty function", vec![]),
    ("globals, blocks and leaves", base.clone()),
    (
      "shared operands",
      with(vec![
        Op::New(k("bin", vec![R::L(2), R::L(2)])), // 4
        Op::New(k("bin", vec![R::L(4), R::L(2)])), // 5
        Op::New(k("store", vec![R::L(5), R::G(1)])),
        Op::New(k("load", vec![R::G(1)])),
      ]),
    ),
    (
      "elements of an array",
      with(vec![
        Op::New(k("aalloc", vec![])), // 4
        Op::New(k("gep", vec![R::L(4), R::L(2)])), // 5
        Op::New(k("store", vec![R::L(2), R::L(5)])),
        Op::New(k("gep", vec![R::L(4), R::L(0)])), // 7
      ]),
    ),
    (
      "branch with arguments",
      with(vec![
        Op::NewBB(1), // local 4, block 2
        Op::New(K { tag: "br", ops: vec![R::L(0), R::L(2), R::L(2)], bbs: vec![1, 2], split: 1, ty: 'u' }),
      ]),
    ),
    (
      "two jumps to one block",
      with(vec![
        Op::New(K { tag: "jump", ops: vec![R::L(0)], bbs: vec![1], split: 0, ty: 'u' }),
        Op::New(K { tag: "jump", ops: vec![R::L(1)], bbs: vec![1], split: 0, ty: 'u' }),
      ]),
    ),
    (
      "call and return",
      with(vec![Op::New(k("call", vec![R::L(0), R::L(0)])), Op::New(k("ret", vec![R::L(4)])), Op::New(k("agg", vec![R::L(2), R::G(0)]))]),
    ),
    (
      "both targets the same",
      with(vec![Op::New(K { tag: "br", ops: vec![R::L(2)], bbs: vec![0, 0], split: 0, ty: 'u' }), Op::New(k("ret", vec![]))]),
    ),
    (
      "global users of globals",
      vec![
        Op::NewG(k("int", vec![])),
        Op::NewG(k("agg", vec![R::G(0), R::G(0)])),
        Op::NewG(K { ty: 'q', ..k("galloc", vec![R::G(1)]) }),
        Op::NewG(k("galloc", vec![R::G(0)])),
        Op::New(k("load", vec![R::G(3)])),
      ],
    ),
  ]
}

fn start(init: &[Op]) -> (Real, W) {
  let (mut r, mut w) = Real::new();
  for o in init {
    r.step(o);
    w.step(o);
  }
  (r, w)
}

/// What would leave a use of something absent is refused by panicking.
fn refusals(ctx: &mut Ctx, init: &[Op], ops: &[Op], w: &W) -> Result<(), String> {
  type Bad = Box<dyn Fn(&mut Real)>;
  let mut bad: Vec<(String, Bad)> = vec![];
  for (i, kd) in w.locals.iter().enumerate() {
    let Some(kd) = kd else {
      bad.push((format!("removing value {i} twice"), Box::new(move |r| r.step(&Op::Del(i)))));
      bad.push((format!("updating the removed value {i}"), Box::new(move |r| r.step(&Op::Nop(i)))));
      bad.push((format!("replacing the removed value {i}"), Box::new(move |r| {
        let v = r.locals[i];
        r.p.func_mut(r.f).dfg_mut().replace_value_with(v).integer(1);
      })));
      bad.push((format!("naming the removed value {i}"), Box::new(move |r| {
        let v = r.locals[i];
        r.p.func_mut(r.f).dfg_mut().set_value_name(v, None);
      })));
      bad.push((format!("returning the removed value {i}"), Box::new(move |r| {
        let v = r.locals[i];
        r.p.func_mut(r.f).dfg_mut().new_value().ret(Some(v));
      })));
      bad.push((format!("looking at the removed value {i}"), Box::new(move |r| {
        r.p.func(r.f).dfg().value(r.locals[i]);
      })));
      continue;
    };
    if !kd.tag.ends_with("param") && !w.users(R::L(i)).is_empty() {
      bad.push((format!("removing value {i}, which is used,"), Box::new(move |r| r.step(&Op::Del(i)))));
    }
  }
  for (i, kd) in w.globals.iter().enumerate() {
    if kd.is_none() {
      bad.push((format!("removing global {i} twice"), Box::new(move |r| r.step(&Op::DelG(i)))));
      bad.push((format!("naming the removed global {i}"), Box::new(move |r| {
        let v = r.globals[i];
        r.p.set_value_name(v, None);
      })));
      bad.push((format!("looking at the removed global {i}"), Box::new(move |r| {
        r.p.borrow_value(r.globals[i]);
      })));
      bad.push((format!("loading the removed global {i}"), Box::new(move |r| {
        let v = r.globals[i];
        r.p.func_mut(r.f).dfg_mut().new_value().load(v);
      })));
    } else if !w.users(R::G(i)).is_empty() {
      bad.push((format!("removing global {i}, which is used,"), Box::new(move |r| r.step(&Op::DelG(i)))));
    }
  }
  for (b, ps) in w.blocks.iter().enumerate() {
    let Some(ps) = ps else {
      bad.push((format!("removing block {b} twice"), Box::new(move |r| r.step(&Op::DelBB(b)))));
      bad.push((format!("jumping to the removed block {b}"), Box::new(move |r| {
        let t = r.blocks[b];
        r.p.func_mut(r.f).dfg_mut().new_value().jump(t);
      })));
      bad.push((format!("looking at the removed block {b}"), Box::new(move |r| {
        r.p.func(r.f).dfg().bb(r.blocks[b]);
      })));
      continue;
    };
    if !w.bb_users(b).is_empty() {
      bad.push((format!("removing block {b}, which is used,"), Box::new(move |r| r.step(&Op::DelBB(b)))));
    } else if ps.iter().any(|p| !w.users(R::L(*p)).is_empty()) {
      bad.push((format!("removing block {b}, whose parameters are used,"), Box::new(move |r| r.step(&Op::DelBB(b)))));
    }
  }
  for (what, f) in bad {
    let (mut r, _) = start(init);
    ops.iter().for_each(|o| r.step(o));
    ctx.count("refusals", 1);
    if guarded(|| f(&mut r)).is_ok() {
      return Err(format!("{what} was not refused, after {ops:?}"));
    }
  }
  Ok(())
}

/// Values with many operands, and values and blocks with many users: what to
/// begin with, and the steps tried on it.
fn big(n: usize) -> Vec<(String, Vec<Op>, Vec<Op>)> {
  let mut out = vec![];
  // 0 param, 1.. leaves
  let leaves = |m: usize| {
    let mut v = vec![Op::NewBB(0), Op::NewBB(1)]; // local 1
    v.push(Op::New(k("alloc", vec![]))); // 2
    v.extend((0..m).map(|_| Op::New(k("int", vec![])))); // 3..
    v
  };
  let at: BTreeSet<usize> = [0, 1, n / 2, n.saturating_sub(2), n - 1].into_iter().filter(|i| *i < n).collect();
  type Shape = (&'static str, Box<dyn Fn(usize) -> usize>, usize);
  let shapes: Vec<Shape> = vec![
    ("the same operand", Box::new(|_| 3), 3),
    ("two operands in turn", Box::new(|i| 3 + i % 2), 3),
    ("a different last operand", Box::new(move |i| if i == n - 1 { 4 } else { 3 }), 3),
    ("operands all different", Box::new(|i| 3 + i), n + 2),
  ];
  for (what, f, m) in shapes {
    let list: Vec<R> = (0..n).map(|i| R::L(f(i))).collect();
    for (tag, side) in [("call", 0), ("agg", 0), ("jump", 0), ("br", 0), ("br", 1)] {
      let mut init = leaves(m);
      let x = 3 + m;
      init.push(Op::New(match tag {
        "call" => k("call", vec![R::L(0), R::L(0)]),
        "agg" => k("agg", vec![R::L(3)]),
        "jump" => K { tag, ops: vec![], bbs: vec![0], split: 0, ty: 'u' },
        _ => K { tag, ops: vec![R::L(0)], bbs: vec![0, 0], split: 0, ty: 'u' },
      }));
      init.push(Op::SetArgs(x, side, list.clone()));
      if tag == "br" {
        init.push(Op::SetArgs(x, 1 - side, vec![R::L(0), R::L(4)]));
      }
      init.push(Op::New(k("ret", vec![]))); // x + 1
      let off = match (tag, side) {
        ("br", 0) => 1,
        ("br", _) => 3,
        _ => 0,
      };
      let mut ops = vec![];
      for i in &at {
        for r in [0, 3, 5] {
          ops.push(Op::SetOp(x, off + i, R::L(r)));
        }
      }
      for l in [vec![], list[..n - 1].to_vec(), list[1..].to_vec(), [&list[..], &[R::L(0)]].concat(), vec![R::L(0); n], list.iter().rev().copied().collect()] {
        ops.push(Op::SetArgs(x, side, l));
      }
      if tag == "br" {
        ops.push(Op::SetArgs(x, 1 - side, vec![]));
        ops.push(Op::SetArgs(x, 1 - side, list.clone()));
        ops.push(Op::SetOp(x, 0, R::L(3)));
      }
      ops.push(Op::Replace(x, k("int", vec![])));
      ops.push(Op::Replace(x, k("bin", vec![R::L(3), R::L(4)])));
      ops.push(Op::SetKind(x + 1, R::L(x)));
      ops.push(Op::SetData(x, R::L(x + 1)));
      ops.push(Op::Nop(x));
      ops.push(Op::Raw(R::L(x)));
      ops.push(Op::Del(x));
      out.push((format!("{tag} (list {side}) of {n}: {what}"), init, ops));
    }
  }
  // n users of value 3, of global 1 and of block 0
  let mut init = vec![Op::NewG(k("int", vec![])), Op::NewG(k("galloc", vec![R::G(0)]))];
  init.extend(leaves(3));
  for i in 0..n {
    init.push(Op::New(match i % 3 {
      0 => k("bin", vec![R::L(3), R::L(3)]),
      1 => k("store", vec![R::L(3), R::G(1)]),
      _ => K { tag: "br", ops: vec![R::L(3), R::L(3)], bbs: vec![1, 0], split: 1, ty: 'u' },
    }));
  }
  let mut ops = vec![];
  for i in &at {
    let x = 6 + i;
    ops.push(Op::Del(x));
    ops.push(Op::SetOp(x, 0, R::L(0)));
    ops.push(Op::Replace(x, k("ret", vec![R::L(4)])));
    ops.push(Op::SetData(x, R::L(6 + (i + 1) % n)));
    ops.push(Op::SetKind(x, R::L(6 + (i + 2) % n)));
    if i % 3 == 2 {
      ops.push(Op::SetBB(x, 0, 0));
      ops.push(Op::SetBB(x, 1, 0));
    }
    if i % 3 == 1 {
      ops.push(Op::SetOp(x, 1, R::L(2)));
    }
  }
  ops.push(Op::New(k("ret", vec![R::L(3)])));
  ops.push(Op::New(K { tag: "jump", ops: vec![R::L(3)], bbs: vec![1], split: 0, ty: 'u' }));
  out.push((format!("{n} users"), init.clone(), ops));
  // the same, all of them taken away again in some order
  for (order, f) in [("first to last", 0), ("last to first", 1), ("from the middle", 2)] {
    let mut down = init.clone();
    for j in 0..n {
      let i = match f {
        0 => j,
        1 => n - 1 - j,
        _ => (n / 2 + j) % n,
      };
      down.push(if j % 2 == 0 { Op::Del(6 + i) } else { Op::Replace(6 + i, k("int", vec![])) });
    }
    out.push((format!("{n} users taken away {order}"), down, vec![Op::Del(3), Op::DelBB(1), Op::DelBB(0), Op::DelG(1), Op::NewBB(1), Op::New(k("load", vec![R::G(1)]))]));
  }
  out
}

fn feasible(w: &W, o: &Op) -> bool {
  match o {
    Op::SetOp(x, n, r) => w.get(*r).is_some() && w.locals[*x].as_ref().is_some_and(|k| *n < k.ops.len() && (k.tag != "ret" || k.ops.len() == 1)),
    Op::SetArgs(x, _, l) => l.iter().all(|r| w.get(*r).is_some()) && w.locals[*x].as_ref().is_some_and(|k| matches!(k.tag, "jump" | "call" | "agg" | "br")),
    Op::SetBB(x, n, _) => w.locals[*x].as_ref().is_some_and(|k| *n < k.bbs.len()),
    Op::SetKind(x, r) | Op::SetData(x, r) => w.locals[*x].is_some() && w.get(*r).is_some(),
    Op::Replace(x, k) => w.locals[*x].is_some() && k.ops.iter().all(|r| w.get(*r).is_some()),
    Op::New(k) => k.ops.iter().all(|r| w.get(*r).is_some()) && k.bbs.iter().all(|b| w.blocks[*b].is_some()),
    Op::Nop(x) => w.locals[*x].is_some(),
    Op::Raw(r) => w.get(*r).is_some(),
    Op::Del(x) => w.locals[*x].is_some() && w.users(R::L(*x)).is_empty(),
    Op::DelBB(b) => w.blocks[*b].as_ref().is_some_and(|ps| w.bb_users(*b).is_empty() && ps.iter().all(|p| w.users(R::L(*p)).is_empty())),
    Op::DelG(g) => w.globals[*g].is_some() && w.users(R::G(*g)).is_empty(),
    _ => true,
  }
}

fn i01_big(ctx: &mut Ctx) {
  let sizes: &[usize] = if ctx.quick() { &[3, 9, 17, 33, 65, 129] } else { &[3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 513] };
  for n in sizes {
    for (what, init, ops) in big(*n) {
      ctx.case(
        || format!("{what}; every two steps"),
        |ctx| {
          let w0 = start(&init).1;
          let deep = ctx.thorough() || *n <= 9;
          for (i, a) in ops.iter().enumerate() {
            if !feasible(&w0, a) {
              continue;
            }
            let mut w1 = w0.clone();
            w1.step(a);
            // a second step only after some of the first ones when large
            let second: Vec<Option<&Op>> = std::iter::once(None).chain(ops.iter().enumerate().filter(|(j, _)| deep || (i + j) % 5 == 0).map(|(_, o)| Some(o))).collect();
            for b in second {
              let mut w = w1.clone();
              if let Some(b) = b {
                if !feasible(&w, b) {
                  continue;
                }
                w.step(b);
              }
              ctx.beat();
              let (mut r, _) = start(&init);
              for o in std::iter::once(a).chain(b) {
                guarded(|| r.step(o)).map_err(|e| format!("panic in {o:?} of {a:?}, {b:?}: {e}"))?;
              }
              guarded(|| r.check(&w)).map_err(|e| format!("panic: {e}")).and_then(|x| x).map_err(|e| format!("{e}, after {a:?}, {b:?}"))?;
              ctx.count("transitions", 1);
              ctx.count("traces", 1);
              ctx.note(hash64(format!("{w:?}").as_bytes()));
            }
          }
          Ok(())
        },
      );
    }
  }
}

fn i01(ctx: &mut Ctx) {
  i01_big(ctx);
  // (depth, small alphabet)
  let plans: Vec<(usize, bool)> = if ctx.quick() { vec![(2, false), (3, true)] } else { vec![(3, false)] };
  for (depth, small) in plans {
    for (name, init) in initials() {
      let w0 = start(&init).1;
      for a in w0.ops(small) {
        ctx.case(
          || format!("from '{name}', every {depth} steps that begin with {a:?}{}", if small { ", from a smaller alphabet" } else { "" }),
          |ctx| {
            fn rec(ctx: &mut Ctx, init: &[Op], ops: &mut Vec<Op>, w: &W, left: usize, small: bool) -> Result<(), String> {
              // the last step is checked; earlier ones were when they were last
              let (mut r, _) = start(init);
              for (n, o) in ops.iter().enumerate() {
                guarded(|| r.step(o)).map_err(|e| format!("panic in step {n} of {ops:?}: {e}"))?;
              }
              guarded(|| r.check(w)).map_err(|e| format!("panic: {e}")).and_then(|x| x).map_err(|e| format!("{e}, after {ops:?}"))?;
              ctx.count("transitions", 1);
              ctx.count("traces", 1);
              let new = ctx.note(hash64(format!("{w:?}").as_bytes()));
              if new && (!small || w.locals.len() + w.blocks.len() < 8) {
                refusals(ctx, init, ops, w)?;
              }
              if left == 0 {
                return Ok(());
              }
              for o in w.ops(small) {
                let mut w2 = w.clone();
                w2.step(&o);
                ops.push(o);
                let x = rec(ctx, init, ops, &w2, left - 1, small);
                ops.pop();
                x?;
              }
              Ok(())
            }
            let mut w = w0.clone();
            w.step(&a);
            rec(ctx, &init, &mut vec![a.clone()], &w, depth - 1, small)
          },
        );
      }
    }
  }
  // programs as they come from the builders and from the reader
  let cp: *mut Ctx = ctx;
  // SAFETY: `programs` only reads the tier
  let c: &mut Ctx = unsafe { &mut *cp };
  front::programs(unsafe { &*cp }, true, true, &mut |m| {
    if !c.mine_next() {
      c.skip();
      return;
    }
    let t = render::text(m);
    c.case(
      || t.clone(),
      |ctx| {
        ctx.count("programs", 1);
        check_uses(&crate::mk::build(m).prog).map_err(|e| format!("built: {e}"))?;
        if let Some(p) = front::read(t.as_bytes()) {
          check_uses(&p).map_err(|e| format!("read: {e}"))?;
        }
        Ok(())
      },
    );
  });
}

// ---- I07 ----

#[derive(Clone, Hash, Debug, PartialEq)]
struct F {
  name: String,
  /// number of i32 parameters, then a pointer one if odd
  params: usize,
  ret: bool,
  decl: bool,
  /// globals loaded by a value of the function, functions called
  uses: Vec<usize>,
  calls: Vec<usize>,
}

#[derive(Clone, Hash, Debug, Default)]
struct P {
  /// constant (None) or allocation of constant n; name; removed
  globals: Vec<Option<(Option<usize>, Option<String>)>>,
  funcs: Vec<Option<F>>,
  order: Vec<usize>,
  /// data of functions taken out
  held: Vec<(usize, F)>,
}

#[derive(Clone, Debug)]
enum PO {
  Const,
  Alloc(usize),
  Name(usize, Option<String>),
  DelG(usize),
  Def(usize, bool),
  DefNamed(usize),
  Decl(usize, bool),
  Rename(usize, bool),
  DelF(usize),
  /// adds the data of the last function taken out again
  Back,
  Use(usize, usize),
  Call(usize, usize),
}

impl P {
  fn used(&self, g: usize) -> bool {
    self.globals.iter().flatten().any(|x| x.0 == Some(g)) || self.funcs.iter().flatten().any(|f| f.uses.contains(&g))
  }
  fn ops(&self) -> Vec<PO> {
    let mut v = vec![PO::Const, PO::Def(0, false), PO::Def(2, true), PO::DefNamed(1), PO::Decl(1, true)];
    let live: Vec<usize> = (0..self.globals.len()).filter(|g| self.globals[*g].is_some()).collect();
    for g in &live {
      match self.globals[*g].as_ref().unwrap().0 {
        None => v.push(PO::Alloc(*g)),
        Some(_) => {
          v.push(PO::Name(*g, Some(format!("@n{g}"))));
          v.push(PO::Name(*g, Some("%same".into())));
        }
      }
      v.push(PO::Name(*g, None));
      if !self.used(*g) {
        v.push(PO::DelG(*g));
      }
    }
    for f in 0..self.funcs.len() {
      // absent functions are removed too
      v.push(PO::DelF(f));
      let Some(fd) = &self.funcs[f] else { continue };
      v.push(PO::Rename(f, f % 2 == 0));
      if !fd.decl && fd.uses.len() + fd.calls.len() < 2 {
        if let Some(g) = live.iter().rev().find(|g| self.globals[**g].as_ref().unwrap().0.is_some()) {
          v.push(PO::Use(f, *g));
        }
        for c in [self.order.first(), self.order.last()].into_iter().flatten() {
          v.push(PO::Call(f, *c));
        }
      }
    }
    if self.held.last().is_some_and(|h| h.1.uses.iter().all(|g| self.globals[*g].is_some())) {
      v.push(PO::Back);
    }
    v
  }
  fn step(&mut self, o: &PO) {
    let add = |p: &mut P, params: usize, ret: bool, decl: bool| {
      let n = p.funcs.len();
      p.funcs.push(Some(F { name: format!("@f{n}"), params, ret, decl, uses: vec![], calls: vec![] }));
      p.order.push(n);
    };
    match o {
      PO::Const => self.globals.push(Some((None, None))),
      PO::Alloc(g) => self.globals.push(Some((Some(*g), None))),
      PO::Name(g, n) => self.globals[*g].as_mut().unwrap().1 = n.clone(),
      PO::DelG(g) => self.globals[*g] = None,
      PO::Def(n, r) => add(self, *n, *r, false),
      PO::DefNamed(n) => add(self, *n, false, false),
      PO::Decl(n, r) => add(self, *n, *r, true),
      PO::Rename(f, _) => self.funcs[*f].as_mut().unwrap().name = format!("%renamed{f}"),
      PO::DelF(f) => {
        if let Some(d) = self.funcs[*f].take() {
          self.order.retain(|x| x != f);
          self.held.push((*f, d));
        }
      }
      PO::Back => {
        let (_, d) = self.held.pop().unwrap();
        self.order.push(self.funcs.len());
        self.funcs.push(Some(d));
      }
      PO::Use(f, g) => self.funcs[*f].as_mut().unwrap().uses.push(*g),
      PO::Call(f, c) => self.funcs[*f].as_mut().unwrap().calls.push(*c),
    }
  }
}

fn params(n: usize) -> Vec<Type> {
  let mut v = vec![Type::get_i32(); n];
  if n % 2 == 1 {
    v.push(Type::get_pointer(Type::get_i32()));
  }
  v
}
fn ret(r: bool) -> Type {
  if r { Type::get_i32() } else { Type::get_unit() }
}

struct RP {
  p: Program,
  globals: Vec<Value>,
  funcs: Vec<Function>,
  /// values created in each function by Use and Call
  body: Vec<Vec<Value>>,
  held: Vec<(usize, FunctionData)>,
}

impl RP {
  fn step(&mut self, o: &PO, m: &P) -> Result<(), String> {
    let n = self.funcs.len();
    match o {
      PO::Const => {
        let v = self.p.new_value().integer(self.globals.len() as i32);
        self.globals.push(v);
      }
      PO::Alloc(g) => {
        let v = self.p.new_value().global_alloc(self.globals[*g]);
        self.globals.push(v);
      }
      PO::Name(g, n) => self.p.set_value_name(self.globals[*g], n.clone()),
      PO::DelG(g) => {
        let d = self.p.remove_value(self.globals[*g]);
        let ok = match (m.globals[*g].as_ref().unwrap().0, d.kind()) {
          (None, ValueKind::Integer(i)) => i.value() == *g as i32,
          (Some(c), ValueKind::GlobalAlloc(a)) => a.init() == self.globals[c],
          _ => false,
        };
        if !ok {
          return Err(format!("removing global {g} gave {:?}", d.kind()));
        }
      }
      PO::Def(k, r) => {
        let f = self.p.new_func_def(format!("@f{n}"), params(*k), ret(*r));
        self.funcs.push(f);
        self.body.push(vec![]);
      }
      PO::DefNamed(k) => {
        let ps = params(*k).into_iter().enumerate().map(|(i, t)| (if i == 0 { Some("@x".to_string()) } else { None }, t)).collect();
        let f = self.p.new_func_def_with_param_names(format!("@f{n}"), ps, ret(false));
        self.funcs.push(f);
        self.body.push(vec![]);
      }
      PO::Decl(k, r) => {
        let f = self.p.new_func_decl(format!("@f{n}"), params(*k), ret(*r));
        self.funcs.push(f);
        self.body.push(vec![]);
      }
      PO::Rename(f, map) => {
        let name = format!("%renamed{f}");
        if *map {
          self.p.funcs_mut().get_mut(&self.funcs[*f]).ok_or("not in the function map")?.set_name(name);
        } else {
          self.p.func_mut(self.funcs[*f]).set_name(name);
        }
      }
      PO::DelF(f) => {
        let d = self.p.remove_func(self.funcs[*f]);
        match (&m.funcs[*f], d) {
          (None, None) => {}
          (Some(x), Some(d)) => {
            if d.name() != x.name {
              return Err(format!("removing {} gave the data of {}", x.name, d.name()));
            }
            self.held.push((*f, d));
          }
          (w, _) => return Err(format!("removing function {f} {}", if w.is_some() { "gave nothing" } else { "twice gave something" })),
        }
      }
      PO::Back => {
        let (old, d) = self.held.pop().unwrap();
        #[allow(deprecated)]
        let f = self.p.new_func(d);
        self.funcs.push(f);
        let b = self.body[old].clone();
        self.body.push(b);
      }
      PO::Use(f, g) => {
        let g = self.globals[*g];
        let v = self.p.func_mut(self.funcs[*f]).dfg_mut().new_value().load(g);
        self.body[*f].push(v);
      }
      PO::Call(f, c) => {
        let callee = self.funcs[*c];
        let tys = params(m.funcs[*c].as_ref().unwrap().params);
        let d = self.p.func_mut(self.funcs[*f]).dfg_mut();
        let args = tys.into_iter().map(|t| d.new_value().undef(t)).collect();
        let v = d.new_value().call(callee, args);
        self.body[*f].push(v);
      }
    }
    Ok(())
  }
  fn check(&self, m: &P) -> Result<(), String> {
    let p = &self.p;
    let want: Vec<Value> =
      (0..m.globals.len()).filter(|g| m.globals[*g].as_ref().is_some_and(|x| x.0.is_some())).map(|g| self.globals[g]).collect();
    if p.inst_layout() != want {
      return Err(format!("the list of globals has {} entries, or another order, instead of {}", p.inst_layout().len(), want.len()));
    }
    let vals = p.borrow_values();
    if vals.len() != m.globals.iter().flatten().count() {
      return Err(format!("{} global values instead of {}", vals.len(), m.globals.iter().flatten().count()));
    }
    for (g, x) in m.globals.iter().enumerate() {
      let (d, x) = match (vals.get(&self.globals[g]), x) {
        (None, None) => continue,
        (Some(d), Some(x)) => (d, x),
        (d, _) => return Err(format!("global {g} {}", if d.is_some() { "still exists" } else { "is gone" })),
      };
      if *p.borrow_value(self.globals[g]).name() != x.1 {
        return Err(format!("global {g} is named {:?} instead of {:?}", d.name(), x.1));
      }
      match (x.0, d.kind()) {
        (None, ValueKind::Integer(i)) if i.value() == g as i32 => {}
        (Some(c), ValueKind::GlobalAlloc(a)) if a.init() == self.globals[c] => {}
        _ => return Err(format!("global {g} became {:?}", d.kind())),
      }
      if !self.globals[g].is_global() {
        return Err("a global handle does not say so".into());
      }
    }
    drop(vals);
    let want: Vec<Function> = m.order.iter().map(|f| self.funcs[*f]).collect();
    if p.func_layout() != want {
      return Err(format!("the list of functions is {:?} instead of {want:?}", p.func_layout()));
    }
    if p.funcs().len() != want.len() {
      return Err(format!("{} functions instead of {}", p.funcs().len(), want.len()));
    }
    for (n, f) in m.funcs.iter().enumerate() {
      let (d, f) = match (p.funcs().get(&self.funcs[n]), f) {
        (None, None) => continue,
        (Some(d), Some(f)) => (d, f),
        (d, _) => return Err(format!("function {n} {}", if d.is_some() { "still exists" } else { "is gone" })),
      };
      if d.name() != f.name || p.func(self.funcs[n]).name() != f.name {
        return Err(format!("function {n} is named {} instead of {}", d.name(), f.name));
      }
      let tys = params(f.params);
      if *d.ty() != Type::get_function(tys.clone(), ret(f.ret)) {
        return Err(format!("function {n} has the type {}", d.ty()));
      }
      if f.decl {
        if !d.params().is_empty() || d.layout().entry_bb().is_some() {
          return Err("a declaration has parameters or a body".into());
        }
      } else {
        if d.params().len() != tys.len() {
          return Err(format!("function {n} has {} parameters for the type {}", d.params().len(), d.ty()));
        }
        for (i, (v, t)) in d.params().iter().zip(&tys).enumerate() {
          let vd = d.dfg().value(*v);
          if vd.ty() != t || !matches!(vd.kind(), ValueKind::FuncArgRef(a) if a.index() == i) {
            return Err(format!("parameter {i} of function {n} is {:?} of type {}", vd.kind(), vd.ty()));
          }
        }
      }
      let b = &self.body[n];
      if b.len() != f.uses.len() + f.calls.len() || !b.iter().all(|v| d.dfg().values().contains_key(v)) {
        return Err(format!("values of function {n} are gone"));
      }
      let loads: Vec<Value> = b.iter().filter_map(|v| if let ValueKind::Load(l) = d.dfg().value(*v).kind() { Some(l.src()) } else { None }).collect();
      if loads != f.uses.iter().map(|g| self.globals[*g]).collect::<Vec<_>>() {
        return Err(format!("loads of function {n} changed"));
      }
      let calls: Vec<Function> = b.iter().filter_map(|v| if let ValueKind::Call(l) = d.dfg().value(*v).kind() { Some(l.callee()) } else { None }).collect();
      if calls != f.calls.iter().map(|g| self.funcs[*g]).collect::<Vec<_>>() {
        return Err(format!("calls of function {n} changed"));
      }
    }
    check_uses(p)
  }
  /// The signature that callers see.
  fn probe(&mut self, m: &P) -> Result<(), String> {
    let q = self.p.new_func_def("@probe".into(), vec![], Type::get_unit());
    for (n, f) in m.funcs.iter().enumerate() {
      let callee = self.funcs[n];
      let tys = params(f.as_ref().map_or(0, |f| f.params));
      let d = self.p.func_mut(q).dfg_mut();
      let args: Vec<Value> = tys.into_iter().map(|t| d.new_value().undef(t)).collect();
      match (f, guarded(|| d.new_value().call(callee, args))) {
        (None, Err(_)) => {}
        (Some(f), Ok(v)) => {
          if *d.value(v).ty() != ret(f.ret) {
            return Err(format!("a call of function {n} has the type {}", d.value(v).ty()));
          }
        }
        (None, Ok(_)) => return Err(format!("the removed function {n} can be called")),
        (Some(_), Err(e)) => return Err(format!("function {n} cannot be called with its own parameter types: {e}")),
      }
    }
    Ok(())
  }
}

fn prun(ops: &[PO]) -> Result<(RP, P), String> {
  let mut r = RP { p: Program::new(), globals: vec![], funcs: vec![], body: vec![], held: vec![] };
  let mut m = P::default();
  for (n, o) in ops.iter().enumerate() {
    let before = m.clone();
    guarded(|| r.step(o, &before)).map_err(|e| format!("panic: {e}")).and_then(|x| x).map_err(|e| format!("{e}, in step {n} of {ops:?}"))?;
    m.step(o);
  }
  Ok((r, m))
}

/// Large programs: `n` constants with an allocation each, `n` functions, each
/// with a load and a call; then something is taken out at one place.
fn i07_big(ctx: &mut Ctx) {
  for n in [6usize, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 257, 300] {
    let mut st = vec![];
    for i in 0..n {
      st.push(PO::Const);
      st.push(PO::Alloc(2 * i));
    }
    for i in 0..n {
      st.push(match i % 3 {
        0 => PO::Def(i % 4, i % 2 == 0),
        1 => PO::Decl(i % 2, true),
        _ => PO::DefNamed(i % 5 + 1),
      });
    }
    for i in (0..n).filter(|i| i % 3 != 1) {
      // globals at places of the form 4k + 1 are used only
      st.push(PO::Use(i, 2 * (i / 2 * 2) + 1));
      st.push(PO::Call(i, n - 1 - i));
    }
    let free = |g: usize| g / 2 * 2 + 1;
    let mut ends: Vec<Vec<PO>> = vec![vec![]];
    for at in [0, 1, 2, n / 2, n - 2, n - 1] {
      // the allocation number `at` that no function uses, then its constant
      let k = if at % 2 == 0 { (at + 1).min(n - 1) } else { at };
      if k % 2 == 1 {
        ends.push(vec![PO::DelG(2 * k + 1)]);
        ends.push(vec![PO::DelG(2 * k + 1), PO::DelG(2 * k), PO::Const, PO::Alloc(2 * n)]);
      }
      ends.push(vec![PO::Name(free(2 * at), Some("@same".into())), PO::Alloc(2 * at), PO::DelF(at)]);
      ends.push(vec![PO::DelF(at)]);
      ends.push(vec![PO::DelF(at), PO::DelF(at), PO::Def(1, true)]);
      ends.push(vec![PO::DelF(at), PO::Back, PO::Rename(n, true)]);
      ends.push(vec![PO::Rename(at, false), PO::Rename(n - 1 - at, true)]);
      ends.push((0..n).filter(|f| *f != at).map(PO::DelF).collect());
      ends.push((0..n).rev().filter(|f| *f != at).map(PO::DelF).chain([PO::Def(2, false), PO::Decl(1, true)]).collect());
      ends.push((0..n).map(PO::DelF).chain((0..n).map(|_| PO::Back)).collect());
    }
    // every other one goes
    ends.push((0..n).filter(|f| f % 2 == 0).map(PO::DelF).collect());
    ends.push((0..n).filter(|f| f % 2 == 1).map(|f| PO::DelG(2 * f + 1)).collect());
    ends.push((0..n).rev().filter(|f| f % 2 == 1).flat_map(|f| [PO::DelG(2 * f + 1), PO::DelG(2 * f)]).collect());
    for (en, end) in ends.iter().enumerate() {
      ctx.case(
        || format!("{n} globals and functions, ending {en}: {:?}", &end[..end.len().min(4)]),
        |ctx| {
          let short = |e: String| format!("{}, {n} globals and functions, then {:?}", e.split(" of [").next().unwrap(), &end[..end.len().min(4)]);
          let mut ops = st.clone();
          ops.extend(end.iter().cloned());
          let (mut r, m) = prun(&ops).map_err(short)?;
          guarded(|| r.check(&m)).map_err(|e| format!("panic: {e}")).and_then(|x| x).map_err(short)?;
          ctx.count("transitions", end.len() as u64);
          ctx.count("traces", 1);
          ctx.note(hash64(format!("{m:?}").as_bytes()));
          guarded(|| r.probe(&m)).map_err(|e| format!("panic: {e}")).and_then(|x| x).map_err(short)
        },
      );
    }
  }
}

fn i07(ctx: &mut Ctx) {
  i07_big(ctx);
  let depth = ctx.pick(5, 6);
  let starts: Vec<Vec<PO>> = vec![
    vec![],
    vec![
      PO::Const,
      PO::Alloc(0),
      PO::Const,
      PO::Alloc(2),
      PO::Def(0, false),
      PO::Decl(1, true),
      PO::Def(2, true),
      PO::Use(0, 1),
      PO::Call(0, 2),
      PO::Use(2, 3),
    ],
    vec![PO::Const, PO::Alloc(0), PO::Name(1, Some("@a".into())), PO::Alloc(0), PO::Def(0, false), PO::Use(0, 1), PO::Def(0, true), PO::Call(1, 0), PO::DelF(0)],
  ];
  for (sn, st) in starts.iter().enumerate() {
    let depth = if sn == 0 { depth + 1 } else { depth - 1 };
    let mut m0 = P::default();
    st.iter().for_each(|o| m0.step(o));
    let mut firsts = vec![];
    for a in m0.ops() {
      let mut m = m0.clone();
      m.step(&a);
      for b in m.ops() {
        firsts.push(vec![a.clone(), b]);
      }
    }
    for ab in firsts {
      ctx.case(
        || format!("after {st:?}, every {depth} steps that begin with {ab:?}"),
        |ctx| {
          fn rec(ctx: &mut Ctx, ops: &mut Vec<PO>, left: usize) -> Result<(), String> {
            let (mut r, m) = prun(ops)?;
            guarded(|| r.check(&m)).map_err(|e| format!("panic: {e}")).and_then(|x| x).map_err(|e| format!("{e}, after {ops:?}"))?;
            ctx.count("transitions", 1);
            ctx.count("traces", 1);
            ctx.note(hash64(format!("{m:?}").as_bytes()));
            if left == 0 {
              return guarded(|| r.probe(&m)).map_err(|e| format!("panic: {e}")).and_then(|x| x).map_err(|e| format!("{e}, after {ops:?}"));
            }
            for o in m.ops() {
              ops.push(o);
              let x = rec(ctx, ops, left - 1);
              ops.pop();
              x?;
            }
            Ok(())
          }
          let mut ops = st.clone();
          ops.extend(ab.iter().cloned());
          rec(ctx, &mut ops, depth - 2)
        },
      );
    }
  }
}
