//! B07: the public name manager, as visitors use it.
use crate::sup::{CheckDef, Ctx, guarded, hash64};
use koopa::back::{NameManager, Prefix};
use koopa::ir::builder_traits::*;
use koopa::ir::{BasicBlock, BinaryOp, Function, Program, Type, Value};
use std::num::NonZeroUsize;
use std::rc::Rc;

pub fn defs() -> Vec<CheckDef> {
  vec![CheckDef {
    id: "B07",
    level: "model_checking",
    rule: "states: the names given so far to which entities, the scope and the prefix; transitions: asking for one name, entering or leaving a function, changing the prefix; every sequence is executed on the real name manager for every assignment of names to the entities",
    run: b07,
    assumptions: &[
      "names of blocks and local values are asked for within a function only; the default prefix and a custom one are not mixed within a function",
      "explicit names are symbols of the language",
    ],
  }]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
  F(usize),
  G(usize),
  B(usize),
  V(usize),
  Temp,
  Enter,
  Exit,
  /// the second custom prefix, or back to the first
  Swap,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Pre {
  Default,
  /// named, temporary, limit
  Custom(&'static str, &'static str, usize),
}

impl Pre {
  fn get(self) -> Prefix {
    match self {
      Pre::Default => Prefix::Default,
      Pre::Custom(n, t, m) => Prefix::Custom { named: n.into(), temp: t.into(), max_len: NonZeroUsize::new(m) },
    }
  }
  fn of(self, name: &str) -> String {
    match self {
      Pre::Default => name.into(),
      Pre::Custom(n, t, m) => {
        let mut s = format!("{}{}", if name.starts_with('@') { n } else { t }, &name[1..]);
        if m > 0 {
          s.truncate(m);
        }
        s
      }
    }
  }
  fn temp(self) -> &'static str {
    match self {
      Pre::Default => "%",
      Pre::Custom(_, t, _) => t,
    }
  }
}

/// Names asked for: two functions, two globals, two blocks, two values.
#[derive(Clone, PartialEq, Debug)]
struct Asked([Option<&'static str>; 8]);

struct Real {
  p: Program,
  f: [Function; 2],
  g: [Value; 2],
  b: [BasicBlock; 2],
  v: [Value; 2],
  konst: Value,
}

fn real(a: &Asked) -> Real {
  let mut p = Program::new();
  let own = |n: Option<&str>| n.map(|n| n.to_string());
  let f = [0, 1].map(|i| p.new_func_def(a.0[i].unwrap().into(), vec![], Type::get_i32()));
  let g = [2, 3].map(|i| {
    let c = p.new_value().integer(1);
    let g = p.new_value().global_alloc(c);
    p.set_value_name(g, own(a.0[i]));
    g
  });
  let d = p.func_mut(f[0]).dfg_mut();
  let b = [4, 5].map(|i| d.new_bb().basic_block(own(a.0[i])));
  let konst = d.new_value().integer(2);
  let v = [6, 7].map(|i| {
    let v = d.new_value().binary(BinaryOp::Add, konst, konst);
    d.set_value_name(v, own(a.0[i]));
    v
  });
  Real { p, f, g, b, v, konst }
}

#[derive(Clone, Hash, Debug, PartialEq)]
struct Live {
  /// entity (8: a temporary name), its name, whether it goes with the function
  names: Vec<(usize, String, bool)>,
  /// temporary names of functions left, which may or may not be free again
  maybe: Vec<String>,
  scope: bool,
  pre: usize,
}

fn run(r: &Real, a: &Asked, pres: &[Pre], ops: &[Op]) -> Result<Live, String> {
  let mut nm = NameManager::new();
  let mut l = Live { names: vec![], maybe: vec![], scope: false, pre: 0 };
  nm.set_prefix(pres[0].get());
  for (step, op) in ops.iter().enumerate() {
    let ask = |nm: &mut NameManager, op: &Op| -> Rc<String> {
      let d = r.p.func(r.f[0]).dfg();
      match op {
        Op::F(i) => nm.func_name(r.p.func(r.f[*i])),
        Op::G(i) => nm.value_name(&r.p.borrow_value(r.g[*i])),
        Op::B(i) => nm.bb_name(d.bb(r.b[*i])),
        Op::V(i) => nm.value_name(d.value(r.v[*i])),
        _ => nm.temp_value_name(),
      }
    };
    let e = match op {
      Op::Enter => {
        nm.enter_func_scope();
        l.scope = true;
        continue;
      }
      Op::Exit => {
        nm.exit_func_scope();
        l.scope = false;
        l.maybe.extend(l.names.iter().filter(|n| n.2 && n.0 == 8).map(|n| n.1.clone()));
        l.names.retain(|n| !n.2);
        continue;
      }
      Op::Swap => {
        l.pre = 1 - l.pre;
        nm.set_prefix(pres[l.pre].get());
        continue;
      }
      Op::F(i) => *i,
      Op::G(i) => 2 + i,
      Op::B(i) => 4 + i,
      Op::V(i) => 6 + i,
      Op::Temp => 8,
    };
    let got = guarded(|| ask(&mut nm, op)).map_err(|e| format!("panic in step {step} of {ops:?}: {e}"))?;
    let at = || format!("step {step} ({op:?}) of {ops:?} gives {got:?}");
    if let Some(n) = l.names.iter().find(|n| n.0 == e && e != 8) {
      if *n.1 != **got {
        return Err(format!("{}, before it gave {:?}", at(), n.1));
      }
      continue;
    }
    let pre = pres[l.pre];
    let is_bb = |e: usize| e == 4 || e == 5;
    // blocks have names of their own unless prefixes are custom
    let shares = |x: usize| pre != Pre::Default || is_bb(x) == is_bb(e);
    if let Some(n) = l.names.iter().find(|n| shares(n.0) && *n.1 == **got) {
      return Err(format!("{}, which entity {} has", at(), n.0));
    }
    match a.0.get(e).copied().flatten() {
      Some(name) => {
        let base = pre.of(name);
        let taken = l.names.iter().any(|n| shares(n.0) && n.1 == base) || l.maybe.contains(&base);
        if !taken && **got != base {
          return Err(format!("{}, though {base:?} is free", at()));
        }
        let digits = name[1..].starts_with(|c: char| c.is_ascii_digit());
        if !digits && !got.starts_with(&base) {
          return Err(format!("{}, which does not begin with {base:?}", at()));
        }
        if digits && !got.starts_with(pre.temp()) {
          return Err(format!("{}, which has a wrong prefix", at()));
        }
      }
      None => {
        let d = got.strip_prefix(pre.temp()).unwrap_or("");
        if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) || d.len() > 1 && d.starts_with('0') {
          return Err(format!("{}, which is no temporary name", at()));
        }
      }
    }
    l.names.push((e, got.to_string(), l.scope && e >= 4));
  }
  // misuse is refused
  let twice = guarded(|| if l.scope { nm.enter_func_scope() } else { nm.exit_func_scope() });
  if twice.is_ok() {
    return Err(format!("{} a function twice is not refused, after {ops:?}", if l.scope { "entering" } else { "leaving" }));
  }
  if guarded(|| nm.value_name(r.p.func(r.f[0]).dfg().value(r.konst))).is_ok() {
    return Err("a constant was given a name".into());
  }
  Ok(l)
}

fn next(l: &Live, pres: &[Pre]) -> Vec<Op> {
  let mut v = vec![Op::F(0), Op::F(1), Op::G(0), Op::G(1), Op::Temp];
  if l.scope {
    v.extend([Op::B(0), Op::B(1), Op::V(0), Op::V(1), Op::Exit]);
  } else {
    v.push(Op::Enter);
  }
  if pres.len() == 2 {
    v.push(Op::Swap);
  }
  v
}

const PRES: [&[Pre]; 6] = [
  &[Pre::Default],
  &[Pre::Custom("@", "%", 0)],
  &[Pre::Custom("@", "@$", 0), Pre::Custom("%$", "%", 0)],
  &[Pre::Custom("x", "x", 0)],
  &[Pre::Custom("v_", "t", 4), Pre::Custom("", "_", 0)],
  &[Pre::Custom("long_", "short", 6)],
];

fn assignments() -> Vec<Asked> {
  let mut v = vec![];
  for f1 in ["@a", "%a", "@a_0", "@b"] {
    for g0 in [None, Some("@a"), Some("%a"), Some("%0")] {
      for g1 in [None, Some("@abc")] {
        for b0 in [None, Some("@a"), Some("%a"), Some("%0")] {
          for b1 in [None, Some("%a"), Some("%abd")] {
            for v0 in [None, Some("@a"), Some("%a"), Some("%0"), Some("%a_0")] {
              for v1 in [None, Some("%a"), Some("%1"), Some("@abc")] {
                v.push(Asked([Some("@a"), Some(f1), g0, g1, b0, b1, v0, v1]));
              }
            }
          }
        }
      }
    }
  }
  v
}

fn b07(ctx: &mut Ctx) {
  let all = assignments();
  // short sequences for a selection of assignments
  let step = ctx.pick(263, 13);
  let depth = ctx.pick(5, 6);
  for a in all.iter().step_by(step) {
    for pres in PRES {
      ctx.case(|| format!("names {:?}, prefixes {pres:?}, every {depth} steps", a.0), |ctx| {
        let r = real(a);
        fn rec(ctx: &mut Ctx, r: &Real, a: &Asked, pres: &[Pre], ops: &mut Vec<Op>, left: usize) -> Result<(), String> {
          let l = run(r, a, pres, ops)?;
          ctx.count("transitions", 1);
          ctx.count("traces", 1);
          ctx.note(hash64(format!("{l:?}{pres:?}{:?}", a.0).as_bytes()));
          if left == 0 {
            return Ok(());
          }
          for o in next(&l, pres) {
            ops.push(o);
            let x = rec(ctx, r, a, pres, ops, left - 1);
            ops.pop();
            x?;
          }
          Ok(())
        }
        rec(ctx, &r, a, pres, &mut vec![], depth)
      });
    }
  }
  // whole uses: everything named, in two functions, in many orders
  let mut orders: Vec<Vec<Op>> = vec![];
  let globals = [vec![Op::F(0), Op::G(0), Op::F(1), Op::G(1)], vec![Op::G(1), Op::G(0), Op::F(1), Op::F(0)], vec![]];
  let locals = [
    vec![Op::B(0), Op::V(0), Op::B(1), Op::V(1)],
    vec![Op::V(1), Op::B(1), Op::V(0), Op::B(0)],
    vec![Op::B(1), Op::Temp, Op::V(0), Op::V(1), Op::Temp, Op::B(0)],
    vec![Op::Temp, Op::Temp, Op::V(0), Op::F(1), Op::V(1), Op::G(0), Op::B(0), Op::B(1)],
    vec![Op::Temp, Op::V(1), Op::V(0)],
  ];
  for g in &globals {
    for l1 in &locals {
      for l2 in &locals {
        let mut o = g.clone();
        o.push(Op::Enter);
        o.extend(l1.iter().chain(l1));
        o.push(Op::Exit);
        o.extend([Op::G(0), Op::F(1)]);
        o.push(Op::Enter);
        o.extend(l2.iter().chain(l1));
        o.push(Op::Exit);
        o.extend(globals[0].iter());
        orders.push(o);
      }
    }
  }
  for a in all.iter() {
    ctx.case(|| format!("names {:?}, {} orders of naming everything", a.0, orders.len()), |ctx| {
      let r = real(a);
      for pres in PRES {
        for o in &orders {
          let mut o = o.clone();
          if pres.len() == 2 {
            // the second prefix within functions, as the LLVM visitor does
            for i in (0..o.len()).rev() {
              match o[i] {
                Op::Enter => o.insert(i + 1, Op::Swap),
                Op::Exit => o.insert(i, Op::Swap),
                _ => {}
              }
            }
          }
          let l = run(&r, a, pres, &o)?;
          ctx.count("transitions", o.len() as u64);
          ctx.count("traces", 1);
          ctx.note(hash64(format!("{l:?}{pres:?}{:?}", a.0).as_bytes()));
        }
      }
      Ok(())
    });
  }
}
