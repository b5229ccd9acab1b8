//! I02: the block list and the instruction lists against plain vectors.
use crate::sup::{CheckDef, Ctx, guarded, hash64};
use koopa::ir::builder_traits::*;
use koopa::ir::layout::Layout;
use koopa::ir::{BasicBlock, Program, Type, Value};
use std::collections::{HashMap, VecDeque};

pub fn defs() -> Vec<CheckDef> {
  vec![CheckDef {
    id: "I02",
    level: "model_checking",
    rule: "states: which blocks are listed in which order, which instructions each lists in which order, and for an instruction listed twice which block took it last; transitions: one insertion, removal or clear at any position through the list or a cursor, accepted or refused; every transition out of every state is executed on the real layout after each of several histories leading to the state",
    run: i02,
    assumptions: &[
      "while an instruction is listed in two blocks (in the middle of a move), either is accepted as its parent, and it is not taken out of the newer one first",
      "pop_front and pop_back of the external list library are checked in separate short histories only (see known-findings.txt)",
    ],
  }]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum At {
  Front,
  Back,
  /// through a cursor on an element, or on no element
  Before(Option<usize>),
  After(Option<usize>),
  /// Extend
  Ext,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
enum Op {
  AddB(usize, At),
  DelB(usize),
  CurDelB(usize),
  ClearB,
  /// block, instruction
  Add(usize, usize, At),
  /// the same, reaching the list through a block cursor
  AddC(usize, usize),
  Del(usize, usize),
  CurDel(usize, usize),
  Clear(usize),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct M {
  bbs: Vec<(usize, Vec<usize>)>,
  /// (instruction, block that took it last) for instructions listed twice
  twice: Vec<(usize, usize)>,
}

impl M {
  fn list(&self, b: usize) -> Option<&Vec<usize>> {
    self.bbs.iter().find(|x| x.0 == b).map(|x| &x.1)
  }
  fn list_mut(&mut self, b: usize) -> &mut Vec<usize> {
    &mut self.bbs.iter_mut().find(|x| x.0 == b).unwrap().1
  }
  fn holders(&self, i: usize) -> Vec<usize> {
    self.bbs.iter().filter(|x| x.1.contains(&i)).map(|x| x.0).collect()
  }
  fn newest(&self, b: usize, i: usize) -> bool {
    self.twice.contains(&(i, b))
  }
  /// None: not part of the alphabet in this state. Some(result of the call).
  fn step(&mut self, op: &Op) -> Option<bool> {
    fn place(v: &mut Vec<usize>, x: usize, at: At) {
      match at {
        At::Front | At::After(None) => v.insert(0, x),
        At::Back | At::Before(None) | At::Ext => v.push(x),
        At::Before(Some(a)) => {
          let p = v.iter().position(|y| *y == a).unwrap();
          v.insert(p, x)
        }
        At::After(Some(a)) => {
          let p = v.iter().position(|y| *y == a).unwrap();
          v.insert(p + 1, x)
        }
      }
    }
    let gone = |m: &mut M, i: usize| m.twice.retain(|t| t.0 != i);
    match op {
      Op::AddB(b, at) => {
        let mut order: Vec<usize> = self.bbs.iter().map(|x| x.0).collect();
        if let At::Before(Some(a)) | At::After(Some(a)) = at
          && !order.contains(a)
        {
          return None;
        }
        if order.contains(b) {
          return Some(false);
        }
        place(&mut order, *b, *at);
        let p = order.iter().position(|x| x == b).unwrap();
        self.bbs.insert(p, (*b, vec![]));
        Some(true)
      }
      Op::DelB(b) | Op::CurDelB(b) => {
        let Some(l) = self.list(*b) else { return if matches!(op, Op::DelB(_)) { Some(false) } else { None } };
        let l = l.clone();
        if l.iter().any(|i| self.newest(*b, *i)) {
          return None;
        }
        l.iter().for_each(|i| gone(self, *i));
        self.bbs.retain(|x| x.0 != *b);
        Some(true)
      }
      Op::ClearB => {
        self.bbs.clear();
        self.twice.clear();
        Some(true)
      }
      Op::Add(b, i, at) => {
        let l = self.list(*b)?;
        if let At::Before(Some(a)) | At::After(Some(a)) = at
          && !l.contains(a)
        {
          return None;
        }
        self.add(*b, *i, *at, place)
      }
      Op::AddC(b, i) => {
        self.list(*b)?;
        self.add(*b, *i, At::Back, place)
      }
      Op::Del(b, i) | Op::CurDel(b, i) => {
        let l = self.list(*b)?;
        if !l.contains(i) {
          return if matches!(op, Op::Del(..)) { Some(false) } else { None };
        }
        if self.newest(*b, *i) {
          return None;
        }
        gone(self, *i);
        self.list_mut(*b).retain(|x| x != i);
        Some(true)
      }
      Op::Clear(b) => {
        let l = self.list(*b)?.clone();
        if l.iter().any(|i| self.newest(*b, *i)) {
          return None;
        }
        l.iter().for_each(|i| gone(self, *i));
        self.list_mut(*b).clear();
        Some(true)
      }
    }
  }
  fn add(&mut self, b: usize, i: usize, at: At, place: fn(&mut Vec<usize>, usize, At)) -> Option<bool> {
    if self.list(b).unwrap().contains(&i) {
      return Some(false);
    }
    match self.holders(i).len() {
      0 => {}
      1 => {
        self.twice.push((i, b));
        self.twice.sort();
      }
      _ => return None,
    }
    place(self.list_mut(b), i, at);
    Some(true)
  }
}

fn alphabet(nb: usize, ni: usize) -> Vec<Op> {
  let ats = |n: usize| {
    let mut v = vec![At::Back, At::Front, At::Before(None), At::After(None), At::Ext];
    for a in 0..n {
      v.push(At::Before(Some(a)));
      v.push(At::After(Some(a)));
    }
    v
  };
  let mut v = vec![];
  for b in 0..nb {
    for at in ats(nb) {
      if at != At::Before(Some(b)) && at != At::After(Some(b)) {
        v.push(Op::AddB(b, at));
      }
    }
    v.push(Op::DelB(b));
    v.push(Op::CurDelB(b));
    v.push(Op::Clear(b));
    for i in 0..ni {
      for at in ats(ni) {
        if at != At::Before(Some(i)) && at != At::After(Some(i)) {
          v.push(Op::Add(b, i, at));
        }
      }
      v.push(Op::AddC(b, i));
      v.push(Op::Del(b, i));
      v.push(Op::CurDel(b, i));
    }
  }
  v.push(Op::ClearB);
  v
}

struct Real {
  prog: Program,
  func: koopa::ir::Function,
  bbs: Vec<BasicBlock>,
  insts: Vec<Value>,
}

impl Real {
  fn new(nb: usize, ni: usize) -> Real {
    let mut prog = Program::new();
    let func = prog.new_func_def("@f".into(), vec![], Type::get_unit());
    let d = prog.func_mut(func).dfg_mut();
    let bbs = (0..nb).map(|_| d.new_bb().basic_block(None)).collect();
    let insts = (0..ni).map(|_| d.new_value().alloc(Type::get_i32())).collect();
    Real { prog, func, bbs, insts }
  }
  fn reset(&mut self) {
    *self.prog.func_mut(self.func).layout_mut() = Layout::new();
  }
  fn layout(&self) -> &Layout {
    self.prog.func(self.func).layout()
  }
  /// Performs the step; the result tells whether the call was accepted.
  fn step(&mut self, op: &Op) -> bool {
    let (bbs, insts) = (self.bbs.clone(), self.insts.clone());
    let l = self.prog.func_mut(self.func).layout_mut();
    macro_rules! add {
      ($list:expr, $keys:expr, $x:expr, $at:expr) => {{
        let k = $keys[$x];
        match $at {
          At::Front => $list.push_key_front(k).is_ok(),
          At::Back => $list.push_key_back(k).is_ok(),
          At::Before(Some(a)) => $list.cursor_mut($keys[a]).insert_key_before(k).is_ok(),
          At::After(Some(a)) => $list.cursor_mut($keys[a]).insert_key_after(k).is_ok(),
          At::Before(None) => {
            let mut c = $list.cursor_back_mut();
            c.move_next();
            c.insert_key_before(k).is_ok()
          }
          At::After(None) => {
            let mut c = $list.cursor_front_mut();
            c.move_prev();
            c.insert_key_after(k).is_ok()
          }
          At::Ext => {
            let n = $list.len();
            $list.extend([k]);
            $list.len() > n
          }
        }
      }};
    }
    match op {
      Op::AddB(b, at) => add!(l.bbs_mut(), bbs, *b, *at),
      Op::DelB(b) => match l.bbs_mut().remove(&bbs[*b]) {
        Some((k, _)) => k == bbs[*b],
        None => false,
      },
      Op::CurDelB(b) => match l.bbs_mut().cursor_mut(bbs[*b]).remove_current() {
        Some((k, _)) => k == bbs[*b],
        None => false,
      },
      Op::ClearB => {
        l.bbs_mut().clear();
        true
      }
      Op::Add(b, i, at) => {
        let li = l.bb_mut(bbs[*b]).insts_mut();
        add!(li, insts, *i, *at)
      }
      Op::AddC(b, i) => l.bbs_mut().cursor_mut(bbs[*b]).node_mut().unwrap().insts_mut().push_key_back(insts[*i]).is_ok(),
      Op::Del(b, i) => match l.bb_mut(bbs[*b]).insts_mut().remove(&insts[*i]) {
        Some((k, _)) => k == insts[*i],
        None => false,
      },
      Op::CurDel(b, i) => match l.bb_mut(bbs[*b]).insts_mut().cursor_mut(insts[*i]).remove_current() {
        Some((k, _)) => k == insts[*i],
        None => false,
      },
      Op::Clear(b) => {
        l.bb_mut(bbs[*b]).insts_mut().clear();
        true
      }
    }
  }
  fn check(&self, m: &M, back: bool) -> Result<(), String> {
    let l = self.layout();
    macro_rules! list {
      ($what:expr, $list:expr, $want:expr, $all:expr) => {{
        let list = $list;
        let want: Vec<_> = $want;
        let name = |k: &_| $all.iter().position(|x| x == k).map(|p| p.to_string()).unwrap_or("?".into());
        let names = |v: &Vec<_>| v.iter().map(|k| name(k)).collect::<Vec<_>>().join(" ");
        let bad = |how: &str, got: &Vec<_>| Err(format!("{} {how} are [{}] instead of [{}]", $what, names(got), names(&want)));
        let keys: Vec<_> = list.keys().copied().take(want.len() + 20).collect();
        if keys != want {
          return bad("in order", &keys);
        }
        let it: Vec<_> = list.iter().map(|x| *x.0).take(want.len() + 20).collect();
        if it != want {
          return bad("by iteration", &it);
        }
        if list.nodes().take(want.len() + 20).count() != want.len() || list.len() != want.len() || list.is_empty() != want.is_empty() {
          return Err(format!("{}: length {} with {} elements", $what, list.len(), want.len()));
        }
        if list.front_key().copied() != want.first().copied() || list.back_key().copied() != want.last().copied() {
          return Err(format!("{}: wrong first or last element", $what));
        }
        for k in $all.iter() {
          if list.contains_key(k) != want.contains(k) || list.node(k).is_some() != want.contains(k) {
            return Err(format!("{}: membership of {} is wrong", $what, name(k)));
          }
        }
        let mut fw = vec![];
        let mut c = list.cursor_front();
        while let Some(k) = c.key().copied() {
          fw.push(k);
          if fw.len() > want.len() + 20 {
            break;
          }
          c.move_next();
        }
        if fw != want {
          return bad("by cursor", &fw);
        }
        if back {
          let mut bw = vec![];
          let mut c = list.cursor_back();
          while let Some(k) = c.key().copied() {
            bw.push(k);
            if bw.len() > want.len() + 20 {
              break;
            }
            c.move_prev();
          }
          bw.reverse();
          if bw != want {
            return bad("backwards", &bw);
          }
        }
      }};
    }
    list!("blocks", l.bbs(), m.bbs.iter().map(|x| self.bbs[x.0]).collect(), self.bbs);
    if l.entry_bb() != m.bbs.first().map(|x| self.bbs[x.0]) {
      return Err("wrong entry block".into());
    }
    for (b, is) in &m.bbs {
      list!(
        format!("instructions of block {b}"),
        l.bbs().node(&self.bbs[*b]).unwrap().insts(),
        is.iter().map(|i| self.insts[*i]).collect(),
        self.insts
      );
    }
    for (i, v) in self.insts.iter().enumerate() {
      let h = m.holders(i);
      let got = l.parent_bb(*v).map(|b| self.bbs.iter().position(|x| *x == b));
      let ok = match got {
        None => h.is_empty(),
        Some(Some(b)) => h.contains(&b),
        Some(None) => false,
      };
      if !ok {
        return Err(format!("the block of instruction {i} is given as {got:?}, its list is that of {h:?}"));
      }
    }
    Ok(())
  }
}

struct Graph {
  states: Vec<M>,
  /// histories leading to each state
  hist: Vec<Vec<Vec<Op>>>,
}

/// All states of the model, each with up to `k` histories that end in
/// different steps where possible.
fn explore(alpha: &[Op], k: usize) -> Graph {
  let mut index: HashMap<M, usize> = HashMap::new();
  let mut g = Graph { states: vec![M::default()], hist: vec![vec![vec![]]] };
  index.insert(M::default(), 0);
  let mut q: VecDeque<usize> = VecDeque::from([0]);
  while let Some(s) = q.pop_front() {
    for op in alpha {
      let mut m = g.states[s].clone();
      if m.step(op) != Some(true) {
        continue;
      }
      let n = match index.get(&m) {
        Some(n) => *n,
        None => {
          let n = g.states.len();
          index.insert(m.clone(), n);
          g.states.push(m);
          g.hist.push(vec![]);
          q.push_back(n);
          n
        }
      };
      if g.hist[n].len() < k && !g.hist[n].iter().any(|h| h.last() == Some(op)) {
        // vary the way to the predecessor too
        let which = g.hist[n].len() % g.hist[s].len();
        let mut h = g.hist[s][which].clone();
        h.push(op.clone());
        g.hist[n].push(h);
      }
    }
  }
  g
}

fn run(r: &mut Real, ops: &[Op]) -> Result<M, String> {
  r.reset();
  let mut m = M::default();
  for (n, op) in ops.iter().enumerate() {
    let want = m.step(op).expect("step outside the alphabet");
    let got = guarded(|| r.step(op)).map_err(|e| format!("panic in step {n} ({op:?}) of {ops:?}: {e}"))?;
    if got != want {
      return Err(format!("step {n} of {ops:?} was {}", if got { "accepted" } else { "refused" }));
    }
  }
  Ok(m)
}

fn i02(ctx: &mut Ctx) {
  let plans: Vec<(usize, usize, usize)> = if ctx.quick() { vec![(2, 2, 20), (3, 2, 5), (2, 3, 5), (3, 3, 1)] } else { vec![(2, 2, 60), (2, 3, 40), (3, 2, 40), (3, 3, 8), (2, 4, 4), (4, 2, 2)] };
  for (nb, ni, k) in plans {
    let alpha = alphabet(nb, ni);
    let g = explore(&alpha, k);
    for s in 0..g.states.len() {
      let (alpha, g) = (&alpha, &g);
      ctx.case(
        || format!("every step from {:?} ({nb} blocks, {ni} instructions)", g.states[s]),
        |ctx| {
          let mut r = Real::new(nb, ni);
          ctx.note(hash64(format!("{nb} {ni} {:?}", g.states[s]).as_bytes()));
          for h in &g.hist[s] {
            let m = run(&mut r, h)?;
            r.check(&m, true).map_err(|e| format!("{e}, after {h:?}"))?;
            for op in alpha {
              let mut m2 = m.clone();
              if m2.step(op).is_none() {
                continue;
              }
              let mut ops = h.clone();
              ops.push(op.clone());
              let m2 = run(&mut r, &ops)?;
              guarded(|| r.check(&m2, true))
                .map_err(|e| format!("panic: {e}"))
                .and_then(|x| x)
                .map_err(|e| format!("{e}, after {ops:?}"))?;
              ctx.count("transitions", 1);
              ctx.count("traces", 1);
            }
          }
          Ok(())
        },
      );
    }
  }
  // every sequence, without merging states, from the empty layout and a full one
  let (nb, ni) = (2, 2);
  let alpha: Vec<Op> = alphabet(nb, ni)
    .into_iter()
    .filter(|o| !matches!(o, Op::AddC(..) | Op::CurDel(..) | Op::CurDelB(_) | Op::AddB(_, At::Ext | At::Before(None) | At::After(None)) | Op::Add(_, _, At::Ext | At::Before(None) | At::After(None))))
    .collect();
  let starts: Vec<Vec<Op>> = vec![
    vec![],
    vec![Op::AddB(0, At::Back), Op::AddB(1, At::Back), Op::Add(0, 0, At::Back), Op::Add(0, 1, At::Back)],
    vec![Op::AddB(0, At::Back), Op::AddB(1, At::Back), Op::Add(0, 0, At::Back), Op::Add(1, 0, At::Back), Op::Del(0, 0), Op::Add(0, 1, At::Back)],
  ];
  let depth = ctx.pick(4, 5);
  for st in &starts {
    for a in &alpha {
      ctx.case(
        || format!("every {depth} steps that begin with {a:?}, after {st:?}"),
        |ctx| {
          let mut r = Real::new(nb, ni);
          let mut ops = st.clone();
          let mut m = M::default();
          for o in st {
            m.step(o);
          }
          if m.step(a).is_none() {
            return Ok(());
          }
          ops.push(a.clone());
          fn rec(ctx: &mut Ctx, r: &mut Real, alpha: &[Op], ops: &mut Vec<Op>, m: &M, left: usize) -> Result<(), String> {
            if left == 0 {
              let m = run(r, ops)?;
              ctx.count("traces", 1);
              return guarded(|| r.check(&m, true)).map_err(|e| format!("panic: {e}")).and_then(|x| x).map_err(|e| format!("{e}, after {ops:?}"));
            }
            for o in alpha {
              let mut m2 = m.clone();
              if m2.step(o).is_none() {
                continue;
              }
              ops.push(o.clone());
              let x = rec(ctx, r, alpha, ops, &m2, left - 1);
              ops.pop();
              x?;
            }
            Ok(())
          }
          let alpha2 = alpha.clone();
          rec(ctx, &mut r, &alpha2, &mut ops, &m, depth - 1)
        },
      );
    }
  }
  long(ctx);
  pops(ctx);
}

/// Long lists: every two (three, when short) steps at the ends and in the middle.
fn long(ctx: &mut Ctx) {
  let sizes: &[usize] = if ctx.quick() { &[5, 17, 33, 65, 129, 257] } else { &[4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 513, 1025] };
  for &n in sizes {
    for shape in ["many instructions", "many blocks", "pairs in turn", "put in backwards"] {
      // elements 0..n are listed, n and n + 1 are not
      let ats = |ends: &[usize]| {
        let mut v = vec![At::Front, At::Back, At::Ext, At::Before(None), At::After(None)];
        for e in ends {
          v.push(At::Before(Some(*e)));
          v.push(At::After(Some(*e)));
        }
        v
      };
      let ends = [0, 1, n / 2, n - 2, n - 1];
      let (nb, ni, init, alpha): (usize, usize, Vec<Op>, Vec<Op>) = if shape == "many blocks" {
        let init = (0..n).flat_map(|b| [Op::AddB(b, At::Back), Op::Add(b, b, At::Back)]).collect();
        let mut a = vec![Op::ClearB, Op::DelB(n), Op::AddB(n + 1, At::Front)];
        for b in ends {
          a.extend([Op::DelB(b), Op::CurDelB(b), Op::Clear(b), Op::Del(b, b), Op::Add(b, n, At::Back), Op::AddB(b, At::Back), Op::AddB(b, At::Before(Some(n / 2 + 1)))]);
        }
        a.extend(ats(&ends).into_iter().map(|at| Op::AddB(n, at)));
        (n + 2, n + 2, init, a)
      } else {
        let mut init = vec![Op::AddB(0, At::Back), Op::AddB(1, At::Back)];
        let mut a = vec![Op::ClearB, Op::Clear(0), Op::Clear(1), Op::DelB(0), Op::DelB(1), Op::AddB(2, At::Front), Op::Del(0, n)];
        let half = shape == "pairs in turn";
        match shape {
          "many instructions" => init.extend((0..n).map(|i| Op::Add(0, i, At::Back))),
          "put in backwards" => init.extend((0..n).rev().map(|i| Op::Add(0, i, At::Front))),
          _ => init.extend((0..n).map(|i| Op::Add(i % 2, i, At::Back))),
        }
        for i in ends {
          let b = if half { i % 2 } else { 0 };
          a.extend([Op::Del(b, i), Op::CurDel(b, i), Op::Add(1 - b, i, At::Back), Op::AddC(1 - b, i), Op::Add(b, i, At::Back), Op::Add(b, i, At::Front)]);
        }
        for at in ats(&ends) {
          a.push(Op::Add(0, n, at));
          a.push(Op::Add(1, n + 1, at));
        }
        (3, n + 2, init, a)
      };
      ctx.case(
        || format!("{shape}, {n} of them; every two steps at the ends and in the middle"),
        |ctx| {
          let mut r = Real::new(nb, ni);
          let m0 = run(&mut r, &init)?;
          r.check(&m0, true)?;
          let mut one = |ctx: &mut Ctx, steps: &[&Op]| -> Result<bool, String> {
            let mut m = m0.clone();
            if !steps.iter().all(|o| m.step(o).is_some()) {
              return Ok(false);
            }
            ctx.beat();
            run(&mut r, &init)?;
            for o in steps {
              guarded(|| r.step(o)).map_err(|e| format!("panic in {o:?} of {steps:?}: {e}"))?;
            }
            ctx.count("transitions", 1);
            ctx.count("traces", 1);
            ctx.note(hash64(format!("{n} {m:?}").as_bytes()));
            guarded(|| r.check(&m, true)).map_err(|e| format!("panic: {e}")).and_then(|x| x).map_err(|e| format!("{e}, after {steps:?}"))?;
            Ok(true)
          };
          let all = if ctx.thorough() { 300 } else { 33 };
          for (i, a) in alpha.iter().enumerate() {
            if !one(ctx, &[a])? {
              continue;
            }
            for (j, b) in alpha.iter().enumerate() {
              if n > all && (i + j) % 7 != 0 {
                continue;
              }
              if !one(ctx, &[a, b])? || n > 9 {
                continue;
              }
              for c in &alpha {
                one(ctx, &[a, b, c])?;
              }
            }
          }
          Ok(())
        },
      );
    }
  }
}

/// pop_front and pop_back, then one look or one more step.
fn pops(ctx: &mut Ctx) {
  for blocks in [false, true] {
    for n in 1..=3usize {
      for front in [true, false] {
        for then in ["order", "backwards", "push back", "push front", "remove first", "remove last", "clear"] {
          ctx.case(
            || {
              format!(
                "{} list of {n}: pop_{}, then {then}",
                if blocks { "block" } else { "instruction" },
                if front { "front" } else { "back" }
              )
            },
            |ctx| {
              ctx.count("traces", 1);
              let mut r = if blocks { Real::new(4, 1) } else { Real::new(1, 4) };
              let mut m = M::default();
              let seed: Vec<Op> = if blocks {
                (0..n).map(|b| Op::AddB(b, At::Back)).chain([Op::Add(0, 0, At::Back)]).collect()
              } else {
                std::iter::once(Op::AddB(0, At::Back)).chain((0..n).map(|i| Op::Add(0, i, At::Back))).collect()
              };
              for o in &seed {
                m.step(o);
                r.step(o);
              }
              let x = if front { 0 } else { n - 1 };
              m.step(&if blocks { Op::DelB(x) } else { Op::Del(0, x) });
              {
                let (bbs, insts) = (r.bbs.clone(), r.insts.clone());
                let l = r.prog.func_mut(r.func).layout_mut();
                let ok = match (blocks, front) {
                  (true, true) => l.bbs_mut().pop_front().map(|k| k.0) == Some(bbs[x]),
                  (true, false) => l.bbs_mut().pop_back().map(|k| k.0) == Some(bbs[x]),
                  (false, true) => l.bb_mut(bbs[0]).insts_mut().pop_front().map(|k| k.0) == Some(insts[x]),
                  (false, false) => l.bb_mut(bbs[0]).insts_mut().pop_back().map(|k| k.0) == Some(insts[x]),
                };
                if !ok {
                  return Err("another element was popped".into());
                }
              }
              let listed: Vec<usize> = if blocks { m.bbs.iter().map(|b| b.0).collect() } else { m.list(0).unwrap().clone() };
              let op = match then {
                "push back" => Some(if blocks { Op::AddB(3, At::Back) } else { Op::Add(0, 3, At::Back) }),
                "push front" => Some(if blocks { Op::AddB(3, At::Front) } else { Op::Add(0, 3, At::Front) }),
                "remove first" => listed.first().map(|y| if blocks { Op::DelB(*y) } else { Op::Del(0, *y) }),
                "remove last" => listed.last().map(|y| if blocks { Op::DelB(*y) } else { Op::Del(0, *y) }),
                "clear" => Some(if blocks { Op::ClearB } else { Op::Clear(0) }),
                _ => None,
              };
              if let Some(o) = op {
                m.step(&o);
                guarded(|| r.step(&o)).map_err(|e| format!("panic: {e}"))?;
              }
              let whole = matches!(then, "backwards" | "push back" | "push front" | "clear");
              if then == "order" {
                // forward order and parents only
                let got: Vec<_> = if blocks {
                  r.layout().bbs().keys().map(|k| r.bbs.iter().position(|x| x == k).unwrap()).collect()
                } else {
                  r.layout().bbs().node(&r.bbs[0]).unwrap().insts().keys().map(|k| r.insts.iter().position(|x| x == k).unwrap()).collect()
                };
                if got != listed {
                  return Err(format!("{got:?} instead of {listed:?}"));
                }
                for (i, v) in r.insts.iter().enumerate() {
                  if r.layout().parent_bb(*v).is_some() == m.holders(i).is_empty() {
                    return Err(format!("parent of instruction {i} is wrong"));
                  }
                }
                return Ok(());
              }
              guarded(|| r.check(&m, whole)).map_err(|e| format!("panic: {e}")).and_then(|x| x)
            },
          );
        }
      }
    }
  }
}
