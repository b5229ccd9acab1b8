//! Builds a `koopa` program from the model through the builder interface.
use crate::extract::OPS;
use crate::model::*;
use koopa::ir::builder_traits::*;
use koopa::ir::dfg::DataFlowGraph;
use koopa::ir::{BasicBlock, Function, Program, Type, Value};

pub fn ty(t: &Ty) -> Type {
  match t {
    Ty::I32 => Type::get_i32(),
    Ty::Unit => Type::get_unit(),
    Ty::Arr(b, n) => Type::get_array(ty(b), *n),
    Ty::Ptr(b) => Type::get_pointer(ty(b)),
    Ty::Fun(p, r) => Type::get_function(p.iter().map(ty).collect(), ty(r)),
  }
}

pub fn gconst(p: &mut Program, c: &MConst) -> Value {
  match c {
    MConst::Int(i) => p.new_value().integer(*i),
    MConst::Zero(t) => p.new_value().zero_init(ty(t)),
    MConst::Undef(t) => p.new_value().undef(ty(t)),
    MConst::Agg(v) => {
      let es = v.iter().map(|e| gconst(p, e)).collect();
      p.new_value().aggregate(es)
    }
  }
}

pub fn lconst(d: &mut DataFlowGraph, c: &MConst) -> Value {
  match c {
    MConst::Int(i) => d.new_value().integer(*i),
    MConst::Zero(t) => d.new_value().zero_init(ty(t)),
    MConst::Undef(t) => d.new_value().undef(ty(t)),
    MConst::Agg(v) => {
      let es = v.iter().map(|e| lconst(d, e)).collect();
      d.new_value().aggregate(es)
    }
  }
}

pub struct Built {
  pub prog: Program,
  pub globals: Vec<Value>,
  pub funcs: Vec<Function>,
  /// per function: blocks, and per block its instructions
  pub bbs: Vec<Vec<BasicBlock>>,
  pub insts: Vec<Vec<Vec<Value>>>,
}

pub fn build(m: &MProg) -> Built {
  build_with(m, 0)
}

/// Styles of building the same program.
/// 1: blocks and bodies are created in reverse order, 2: each function also
/// holds values and a block that are not in its layout, 4: everything gets its
/// name afterwards, in place of another, 8: instructions replace others,
/// and there were more globals and functions that have been removed.
pub const REVERSED: u32 = 1;
pub const CLUTTER: u32 = 2;
pub const RENAMED: u32 = 4;
pub const EDITED: u32 = 8;

pub fn build_with(m: &MProg, style: u32) -> Built {
  let mut p = Program::new();
  let (renamed, edited) = (style & RENAMED != 0, style & EDITED != 0);
  let mut passing = vec![];
  let mut globals = vec![];
  for g in &m.globals {
    if edited {
      let i = p.new_value().integer(5);
      let v = p.new_value().global_alloc(i);
      p.set_value_name(v, Some("@passing".into()));
      passing.extend([v, i]);
    }
    let i = gconst(&mut p, &g.init);
    let v = p.new_value().global_alloc(i);
    if renamed {
      p.set_value_name(v, Some("@other".into()));
    }
    if renamed || g.name.is_some() {
      p.set_value_name(v, g.name.clone());
    }
    globals.push(v);
  }
  let funcs: Vec<Function> = m
    .funcs
    .iter()
    .map(|f| match &f.bbs {
      Some(_) if renamed => {
        let h = p.new_func_def("%before".into(), f.params.iter().map(|(_, t)| ty(t)).collect(), ty(&f.ret));
        let d = p.func_mut(h);
        for (v, (n, _)) in d.params().to_vec().into_iter().zip(&f.params) {
          d.dfg_mut().set_value_name(v, Some("%before".into()));
          d.dfg_mut().set_value_name(v, n.clone());
        }
        d.set_name(f.name.clone());
        h
      }
      None if renamed => {
        let h = p.new_func_decl("@before".into(), f.params.iter().map(|(_, t)| ty(t)).collect(), ty(&f.ret));
        p.funcs_mut().get_mut(&h).unwrap().set_name(f.name.clone());
        h
      }
      Some(_) => p.new_func_def_with_param_names(
        f.name.clone(),
        f.params.iter().map(|(n, t)| (n.clone(), ty(t))).collect(),
        ty(&f.ret),
      ),
      None => p.new_func_decl(f.name.clone(), f.params.iter().map(|(_, t)| ty(t)).collect(), ty(&f.ret)),
    })
    .collect();
  if edited {
    let a = p.new_func_decl("@passing".into(), vec![], Type::get_unit());
    let b = p.new_func_def("%passing".into(), vec![Type::get_i32()], Type::get_i32());
    p.remove_func(a);
    p.remove_func(b);
  }
  for v in passing {
    p.remove_value(v);
  }
  let mut all_bbs = vec![];
  let mut all_insts = vec![];
  let mut order: Vec<usize> = (0..funcs.len()).collect();
  if style & REVERSED != 0 {
    order.reverse();
  }
  all_bbs.resize(funcs.len(), vec![]);
  all_insts.resize(funcs.len(), vec![]);
  for fi in order {
    let (f, fh) = (&m.funcs[fi], &funcs[fi]);
    let Some(bbs) = &f.bbs else {
      continue;
    };
    let fd = p.func_mut(*fh);
    let params = fd.params().to_vec();
    let mut bh = vec![];
    let rev: Box<dyn Iterator<Item = &MBlock>> = if style & REVERSED != 0 { Box::new(bbs.iter().rev()) } else { Box::new(bbs.iter()) };
    for b in rev {
      let h = if renamed {
        let d = fd.dfg_mut();
        let h = if b.params.is_empty() {
          d.new_bb().basic_block(Some("%before".into()))
        } else {
          d.new_bb().basic_block_with_params(Some("%before".into()), b.params.iter().map(|(_, t)| ty(t)).collect())
        };
        for (v, (n, _)) in d.bb(h).params().to_vec().into_iter().zip(&b.params) {
          d.set_value_name(v, n.clone());
        }
        if bh.len() % 2 == 0 {
          d.bb_mut(h).set_name(b.name.clone());
        } else {
          d.bbs_mut().get_mut(&h).unwrap().set_name(b.name.clone());
        }
        h
      } else if b.params.is_empty() {
        fd.dfg_mut().new_bb().basic_block(b.name.clone())
      } else {
        fd.dfg_mut()
          .new_bb()
          .basic_block_with_param_names(b.name.clone(), b.params.iter().map(|(n, t)| (n.clone(), ty(t))).collect())
      };
      bh.push(h);
    }
    if style & REVERSED != 0 {
      bh.reverse();
    }
    for h in &bh {
      fd.layout_mut().bbs_mut().push_key_back(*h).unwrap();
    }
    let mut made: Vec<Vec<Option<Value>>> = bbs.iter().map(|b| vec![None; b.insts.len()]).collect();
    // operands first, otherwise in program order
    let mut order = vec![];
    let mut state: Vec<Vec<u8>> = bbs.iter().map(|b| vec![0; b.insts.len()]).collect();
    for (bi, b) in bbs.iter().enumerate() {
      for ii in 0..b.insts.len() {
        let mut st = vec![(bi, ii)];
        while let Some((x, y)) = st.last().copied() {
          if state[x][y] == 2 {
            st.pop();
            continue;
          }
          let again = std::mem::replace(&mut state[x][y], 1) == 1;
          let n = st.len();
          for v in bbs[x].insts[y].op.vals() {
            if let MVal::Inst(u, w) = v
              && state[*u][*w] != 2
            {
              st.push((*u, *w));
            }
          }
          if st.len() == n {
            state[x][y] = 2;
            order.push((x, y));
            st.pop();
          } else {
            assert!(!again, "the model program has cyclic operands");
          }
        }
      }
    }
    for (bi, ii) in order {
      let inst = &bbs[bi].insts[ii];
      {
        {
          // in place of another instruction, when edited
          let before = edited.then(|| {
            let d = fd.dfg_mut();
            let v = d.new_value().alloc(Type::get_i32());
            d.set_value_name(v, Some("%before".into()));
            v
          });
          let mut val = |v: &MVal| -> Value {
            match v {
              MVal::Const(c) => lconst(fd.dfg_mut(), c),
              MVal::Global(g) => globals[*g],
              MVal::Param(i) => params[*i],
              MVal::BParam(x, i) => fd.dfg().bb(bh[*x]).params()[*i],
              MVal::Inst(x, y) => made[*x][*y].unwrap(),
            }
          };
          macro_rules! new {
            ($what:ident, $($a:expr),*) => {
              match before {
                None => fd.dfg_mut().new_value().$what($($a),*),
                Some(v) => fd.dfg_mut().replace_value_with(v).$what($($a),*),
              }
            };
          }
          let h = match &inst.op {
            MOp::Alloc(t) => new!(alloc, ty(t)),
            MOp::Load(a) => {
              let a = val(a);
              new!(load, a)
            }
            MOp::Store(a, b) => {
              let (a, b) = (val(a), val(b));
              new!(store, a, b)
            }
            MOp::GetPtr(a, b) => {
              let (a, b) = (val(a), val(b));
              new!(get_ptr, a, b)
            }
            MOp::GetElemPtr(a, b) => {
              let (a, b) = (val(a), val(b));
              new!(get_elem_ptr, a, b)
            }
            MOp::Bin(o, a, b) => {
              let (a, b) = (val(a), val(b));
              new!(binary, OPS[*o], a, b)
            }
            MOp::Br(c, t, ta, f, fa) => {
              let c = val(c);
              let ta: Vec<Value> = ta.iter().map(&mut val).collect();
              let fa: Vec<Value> = fa.iter().map(&mut val).collect();
              new!(branch_with_args, c, bh[*t], bh[*f], ta, fa)
            }
            MOp::Jump(t, a) => {
              let a: Vec<Value> = a.iter().map(&mut val).collect();
              new!(jump_with_args, bh[*t], a)
            }
            MOp::Call(c, a) => {
              let a: Vec<Value> = a.iter().map(&mut val).collect();
              new!(call, funcs[*c], a)
            }
            MOp::Ret(v) => {
              let v = v.as_ref().map(val);
              new!(ret, v)
            }
          };
          if renamed {
            fd.dfg_mut().set_value_name(h, Some("@before".into()));
          }
          if inst.name.is_some() || renamed || edited {
            fd.dfg_mut().set_value_name(h, inst.name.clone());
          }
          made[bi][ii] = Some(h);
        }
      }
    }
    let made: Vec<Vec<Value>> = made.into_iter().map(|v| v.into_iter().map(|x| x.unwrap()).collect()).collect();
    for (b, is) in bh.iter().zip(&made) {
      for i in is {
        fd.layout_mut().bb_mut(*b).insts_mut().push_key_back(*i).unwrap();
      }
    }
    if style & CLUTTER != 0 {
      let d = fd.dfg_mut();
      let one = d.new_value().integer(1);
      let idle = d.new_value().binary(koopa::ir::BinaryOp::Sub, one, one);
      d.set_value_name(idle, Some("%idle".into()));
      let spare = d.new_bb().basic_block(Some("%spare".into()));
      d.new_value().branch(idle, spare, spare);
      for (b, h) in bbs.iter().zip(&bh).skip(1) {
        let args = b.params.iter().map(|(_, t)| d.new_value().undef(ty(t))).collect();
        d.new_value().jump_with_args(*h, args);
      }
      for g in &globals {
        d.new_value().load(*g);
      }
      for a in fd.params().to_vec() {
        fd.dfg_mut().new_value().ret(Some(a));
      }
    }
    all_bbs[fi] = bh;
    all_insts[fi] = made;
  }
  Built { prog: p, globals, funcs, bbs: all_bbs, insts: all_insts }
}
