//! Reads a `koopa` program through its public interface into the model,
//! checking on the way that it is well formed.
use crate::model::*;
use koopa::ir::{BasicBlock, BinaryOp, Function, Program, Type, TypeKind, Value, ValueKind};
use koopa::ir::entities::ValueData;
use std::collections::HashMap;

pub fn ty(t: &Type) -> Ty {
  match t.kind() {
    TypeKind::Int32 => Ty::I32,
    TypeKind::Unit => Ty::Unit,
    TypeKind::Array(b, n) => arr(ty(b), *n),
    TypeKind::Pointer(b) => ptr(ty(b)),
    TypeKind::Function(p, r) => Ty::Fun(p.iter().map(ty).collect(), Box::new(ty(r))),
  }
}

pub fn op_index(o: BinaryOp) -> usize {
  match o {
    BinaryOp::NotEq => 0,
    BinaryOp::Eq => 1,
    BinaryOp::Gt => 2,
    BinaryOp::Lt => 3,
    BinaryOp::Ge => 4,
    BinaryOp::Le => 5,
    BinaryOp::Add => 6,
    BinaryOp::Sub => 7,
    BinaryOp::Mul => 8,
    BinaryOp::Div => 9,
    BinaryOp::Mod => 10,
    BinaryOp::And => 11,
    BinaryOp::Or => 12,
    BinaryOp::Xor => 13,
    BinaryOp::Shl => 14,
    BinaryOp::Shr => 15,
    BinaryOp::Sar => 16,
  }
}

pub const OPS: [BinaryOp; 17] = [
  BinaryOp::NotEq,
  BinaryOp::Eq,
  BinaryOp::Gt,
  BinaryOp::Lt,
  BinaryOp::Ge,
  BinaryOp::Le,
  BinaryOp::Add,
  BinaryOp::Sub,
  BinaryOp::Mul,
  BinaryOp::Div,
  BinaryOp::Mod,
  BinaryOp::And,
  BinaryOp::Or,
  BinaryOp::Xor,
  BinaryOp::Shl,
  BinaryOp::Shr,
  BinaryOp::Sar,
];

pub fn with_data<R>(p: &Program, f: Option<Function>, v: Value, k: impl FnOnce(&ValueData) -> R) -> Option<R> {
  if let Some(d) = p.borrow_values().get(&v) {
    return Some(k(d));
  }
  p.funcs().get(&f?)?.dfg().values().get(&v).map(k)
}

fn konst(p: &Program, f: Option<Function>, v: Value) -> Result<Option<MConst>, String> {
  enum R {
    C(MConst, Ty),
    A(Vec<Value>, Ty),
    N,
  }
  let r = with_data(p, f, v, |d| match d.kind() {
    ValueKind::Integer(i) => R::C(MConst::Int(i.value()), ty(d.ty())),
    ValueKind::ZeroInit(_) => R::C(MConst::Zero(ty(d.ty())), ty(d.ty())),
    ValueKind::Undef(_) => R::C(MConst::Undef(ty(d.ty())), ty(d.ty())),
    ValueKind::Aggregate(a) => R::A(a.elems().to_vec(), ty(d.ty())),
    _ => R::N,
  })
  .ok_or("a value that does not exist is mentioned")?;
  Ok(match r {
    R::N => None,
    R::C(c, t) => {
      if c.ty() != t {
        return Err(format!("constant {c:?} has type {t}"));
      }
      Some(c)
    }
    R::A(es, t) => {
      if es.is_empty() {
        return Err("empty aggregate".into());
      }
      let mut out = vec![];
      for e in es {
        out.push(konst(p, f, e)?.ok_or("an aggregate holds a non-constant")?);
      }
      let c = MConst::Agg(out);
      if c.ty() != t {
        return Err(format!("aggregate {c:?} has type {t}"));
      }
      Some(c)
    }
  })
}

pub struct Maps {
  pub globals: HashMap<Value, usize>,
  pub funcs: HashMap<Function, usize>,
}

pub fn extract(p: &Program) -> Result<MProg, String> {
  let mut out = MProg::default();
  let mut m = Maps { globals: HashMap::new(), funcs: HashMap::new() };
  for (i, g) in p.inst_layout().iter().enumerate() {
    if m.globals.insert(*g, i).is_some() {
      return Err("a global is listed twice".into());
    }
    if !g.is_global() {
      return Err("a listed global is not global".into());
    }
    let (init, name, t) = {
      let vs = p.borrow_values();
      let d = vs.get(g).ok_or("a listed global does not exist")?;
      match d.kind() {
        ValueKind::GlobalAlloc(a) => (a.init(), d.name().clone(), ty(d.ty())),
        _ => return Err("a listed global is not an allocation".into()),
      }
    };
    let c = konst(p, None, init)?.ok_or("global initializer is not a constant")?;
    if t != ptr(c.ty()) {
      return Err(format!("global {name:?} has type {t} but its initializer has type {}", c.ty()));
    }
    out.globals.push(MGlobal { name, init: c });
  }
  for (i, f) in p.func_layout().iter().enumerate() {
    if m.funcs.insert(*f, i).is_some() {
      return Err("a function is listed twice".into());
    }
  }
  if p.funcs().len() != p.func_layout().len() {
    return Err("functions and their layout differ in number".into());
  }
  for f in p.func_layout() {
    out.funcs.push(func(p, *f, &m)?);
  }
  Ok(out)
}

pub fn func(p: &Program, fh: Function, m: &Maps) -> Result<MFunc, String> {
  let f = p.funcs().get(&fh).ok_or("a listed function does not exist")?;
  let (pt, ret) = match ty(f.ty()) {
    Ty::Fun(a, r) => (a, *r),
    t => return Err(format!("function {} has type {t}", f.name())),
  };
  let mut vmap: HashMap<Value, MVal> = HashMap::new();
  let mut params: Vec<(Option<String>, Ty)> = vec![];
  let is_decl = f.layout().bbs().is_empty();
  if is_decl && f.params().is_empty() {
    params = pt.iter().map(|t| (None, t.clone())).collect();
  } else {
    if f.params().len() != pt.len() {
      return Err(format!("function {} has {} parameters and type {}", f.name(), f.params().len(), f.ty()));
    }
    for (i, v) in f.params().iter().enumerate() {
      let d = f.dfg().values().get(v).ok_or("a parameter does not exist")?;
      match d.kind() {
        ValueKind::FuncArgRef(a) if a.index() == i => {}
        k => return Err(format!("parameter {i} of {} is {k:?}", f.name())),
      }
      if ty(d.ty()) != pt[i] {
        return Err(format!("parameter {i} of {} has type {}", f.name(), d.ty()));
      }
      if vmap.insert(*v, MVal::Param(i)).is_some() {
        return Err("a parameter is listed twice".into());
      }
      params.push((d.name().clone(), pt[i].clone()));
    }
  }
  let mut bmap: HashMap<BasicBlock, usize> = HashMap::new();
  for (i, (b, node)) in f.layout().bbs().iter().enumerate() {
    bmap.insert(*b, i);
    let bd = f.dfg().bbs().get(b).ok_or("a listed block does not exist")?;
    for (j, v) in bd.params().iter().enumerate() {
      let d = f.dfg().values().get(v).ok_or("a block parameter does not exist")?;
      match d.kind() {
        ValueKind::BlockArgRef(a) if a.index() == j => {}
        k => return Err(format!("block parameter {j} is {k:?}")),
      }
      if vmap.insert(*v, MVal::BParam(i, j)).is_some() {
        return Err("a block parameter is listed twice".into());
      }
    }
    for (j, v) in node.insts().keys().enumerate() {
      if vmap.insert(*v, MVal::Inst(i, j)).is_some() {
        return Err("an instruction is listed twice".into());
      }
      if f.layout().parent_bb(*v) != Some(*b) {
        return Err("parent_bb of an instruction is not its block".into());
      }
    }
  }
  let val = |v: Value| -> Result<MVal, String> {
    if let Some(x) = vmap.get(&v) {
      return Ok(x.clone());
    }
    if let Some(g) = m.globals.get(&v) {
      return Ok(MVal::Global(*g));
    }
    Ok(MVal::Const(konst(p, Some(fh), v)?.ok_or_else(|| {
      format!("function {} mentions a value that is neither constant, parameter, global nor in the layout", f.name())
    })?))
  };
  let vals = |v: &[Value]| v.iter().map(|x| val(*x)).collect::<Result<Vec<_>, _>>();
  let bbx = |b: BasicBlock| bmap.get(&b).copied().ok_or_else(|| "a branch leads to a block outside the layout".to_string());
  let mut blocks = vec![];
  for (b, node) in f.layout().bbs().iter() {
    let bd = f.dfg().bb(*b);
    let mut insts = vec![];
    for v in node.insts().keys() {
      let d = f.dfg().values().get(v).ok_or("a listed instruction does not exist")?;
      let op = match d.kind() {
        ValueKind::Alloc(_) => MOp::Alloc(ty(d.ty()).deref().ok_or("alloc is not a pointer")?.clone()),
        ValueKind::Load(x) => MOp::Load(val(x.src())?),
        ValueKind::Store(x) => MOp::Store(val(x.value())?, val(x.dest())?),
        ValueKind::GetPtr(x) => MOp::GetPtr(val(x.src())?, val(x.index())?),
        ValueKind::GetElemPtr(x) => MOp::GetElemPtr(val(x.src())?, val(x.index())?),
        ValueKind::Binary(x) => MOp::Bin(op_index(x.op()), val(x.lhs())?, val(x.rhs())?),
        ValueKind::Branch(x) => MOp::Br(
          val(x.cond())?,
          bbx(x.true_bb())?,
          vals(x.true_args())?,
          bbx(x.false_bb())?,
          vals(x.false_args())?,
        ),
        ValueKind::Jump(x) => MOp::Jump(bbx(x.target())?, vals(x.args())?),
        ValueKind::Call(x) => MOp::Call(
          *m.funcs.get(&x.callee()).ok_or("a call of a function outside the program")?,
          vals(x.args())?,
        ),
        ValueKind::Return(x) => MOp::Ret(x.value().map(val).transpose()?),
        k => return Err(format!("{k:?} is listed as an instruction")),
      };
      insts.push(MInst { name: d.name().clone(), ty: ty(d.ty()), op });
    }
    blocks.push(MBlock {
      name: bd.name().clone(),
      params: bd.params().iter().map(|v| (f.dfg().value(*v).name().clone(), ty(f.dfg().value(*v).ty()))).collect(),
      insts,
    });
  }
  Ok(MFunc { name: f.name().to_string(), params, ret, bbs: if is_decl { None } else { Some(blocks) } })
}

/// Operands of a value as the kinds themselves say (not through `value_uses`).
pub fn operands(k: &ValueKind) -> (Vec<Value>, Vec<BasicBlock>) {
  match k {
    ValueKind::Integer(_)
    | ValueKind::ZeroInit(_)
    | ValueKind::Undef(_)
    | ValueKind::FuncArgRef(_)
    | ValueKind::BlockArgRef(_)
    | ValueKind::Alloc(_) => (vec![], vec![]),
    ValueKind::Aggregate(a) => (a.elems().to_vec(), vec![]),
    ValueKind::GlobalAlloc(a) => (vec![a.init()], vec![]),
    ValueKind::Load(x) => (vec![x.src()], vec![]),
    ValueKind::Store(x) => (vec![x.value(), x.dest()], vec![]),
    ValueKind::GetPtr(x) => (vec![x.src(), x.index()], vec![]),
    ValueKind::GetElemPtr(x) => (vec![x.src(), x.index()], vec![]),
    ValueKind::Binary(x) => (vec![x.lhs(), x.rhs()], vec![]),
    ValueKind::Branch(x) => (
      std::iter::once(x.cond()).chain(x.true_args().iter().copied()).chain(x.false_args().iter().copied()).collect(),
      vec![x.true_bb(), x.false_bb()],
    ),
    ValueKind::Jump(x) => (x.args().to_vec(), vec![x.target()]),
    ValueKind::Call(x) => (x.args().to_vec(), vec![]),
    ValueKind::Return(x) => (x.value().into_iter().collect(), vec![]),
  }
}

/// Every recorded user is an actual user and the other way round.
pub fn check_uses(p: &Program) -> Result<(), String> {
  let mut want: HashMap<Value, std::collections::HashSet<Value>> = HashMap::new();
  let globals = p.borrow_values();
  let mut all: Vec<Value> = vec![];
  for (v, d) in globals.iter() {
    all.push(*v);
    let (ops, _) = operands(d.kind());
    if d.kind().value_uses().collect::<Vec<_>>() != ops {
      return Err(format!("value_uses of {:?} does not list its operands", d.kind()));
    }
    for o in ops {
      want.entry(o).or_default().insert(*v);
    }
  }
  let mut uses_bb: HashMap<BasicBlock, std::collections::HashSet<Value>> = HashMap::new();
  for f in p.funcs().values() {
    for (v, d) in f.dfg().values() {
      all.push(*v);
      let (ops, bbs) = operands(d.kind());
      if d.kind().value_uses().collect::<Vec<_>>() != ops {
        return Err(format!("value_uses of {:?} does not list its operands", d.kind()));
      }
      if d.kind().bb_uses().collect::<Vec<_>>() != bbs {
        return Err(format!("bb_uses of {:?} does not list its targets", d.kind()));
      }
      for o in ops {
        want.entry(o).or_default().insert(*v);
      }
      for b in bbs {
        uses_bb.entry(b).or_default().insert(*v);
      }
    }
  }
  let empty = Default::default();
  for (v, d) in globals.iter() {
    if d.used_by() != want.get(v).unwrap_or(&empty) {
      return Err(format!("recorded users of a global {:?} differ from the actual ones", d.kind()));
    }
    want.remove(v);
  }
  for f in p.funcs().values() {
    for (v, d) in f.dfg().values() {
      if d.used_by() != want.get(v).unwrap_or(&empty) {
        return Err(format!("recorded users of {:?} differ from the actual ones", d.kind()));
      }
      want.remove(v);
    }
    for (b, d) in f.dfg().bbs() {
      if d.used_by() != uses_bb.get(b).unwrap_or(&empty) {
        return Err(format!("recorded users of block {:?} differ from the actual ones", d.name()));
      }
      uses_bb.remove(b);
    }
  }
  if let Some((_, u)) = want.iter().next() {
    return Err(format!("{} values mention a value that does not exist", u.len()));
  }
  if !uses_bb.is_empty() {
    return Err("a value mentions a block that does not exist".into());
  }
  Ok(())
}
