//! B01 to B05: the two printers.
use super::front;
use crate::ltext;
use crate::llvm::{self, LTy, LVal};
use crate::r#gen::{self, PB, int};
use crate::model::*;
use crate::reftext::{self, K, Verdict};
use crate::run::{self, Stop, V, World};
use crate::sup::{CheckDef, Ctx, guarded, hash64};
use crate::{extract, mk, render, sys};
use koopa::back::{KoopaGenerator, LlvmGenerator};
use koopa::ir::Program;
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::sync::atomic::Ordering;

pub fn defs() -> Vec<CheckDef> {
  vec![
    CheckDef {
      id: "B01",
      level: "exploration",
      rule: "every enumerated model program, built in several ways and with every name assignment of an alphabet, printed by the real printer; the text is read by the reference reader and by the real reader, and printed again; distinct = distinct programs printed",
      run: b01,
      assumptions: &["the reference reader states what a text means", "programs the text form cannot express (forward calls, constants in place of symbols) are excluded"],
    },
    CheckDef {
      id: "B02",
      level: "exploration",
      rule: "every assignment of names from an alphabet made to clash to the entities of several programs, printed in both formats; distinct = distinct name assignments",
      run: b02,
      assumptions: &["explicit names are legal symbols of the language", "for LLVM, names above the documented length limit may be cut"],
    },
    CheckDef {
      id: "B03",
      level: "exploration",
      rule: "every enumerated model program and name assignment printed as LLVM and given to LLVM's own parser and verifier; definitions and signatures compared; distinct = distinct programs",
      run: b03,
      assumptions: &["LLVM 18 is the judge of validity; it takes all pointers to be alike, so the types of pointers in the text are checked by rules of our own"],
    },
    CheckDef {
      id: "B04",
      level: "exploration",
      rule: "every enumerated model program run on a grid of inputs by an interpreter of the model, and its LLVM form, as parsed by LLVM, by an interpreter of LLVM's meaning; result, memory and external calls compared; distinct = distinct defined runs",
      run: b04,
      assumptions: &["runs whose meaning is not defined (undef decides, division by zero, shift amount, pointer out of its object) or over the step limit are not compared", "32-bit integers, 64-bit pointers"],
    },
    CheckDef {
      id: "B05",
      level: "fault_enumeration",
      rule: "every output stream fault (short write, retry, nothing taken, hard failure) at every write call and every byte, transient and persistent, and pairs of faults on short outputs, in both formats; distinct = distinct fault plans that changed the course of the output",
      run: b05,
      assumptions: &["the destination reports its own failures"],
    },
    CheckDef {
      id: "B06",
      level: "exploration",
      rule: "every enumerated program built in several ways under several seeds of the hash function of the standard library (fixed by the harness) and printed by new and by used generators, in both formats; distinct = distinct programs",
      run: b06,
      assumptions: &["hash seeds are enumerated from a fixed list, not exhausted"],
    },
  ]
}

pub fn koopa_text(p: &Program) -> Result<Vec<u8>, String> {
  guarded(|| {
    let mut g = KoopaGenerator::new(Vec::new());
    g.generate_on(p).map(|_| g.writer())
  })
  .map_err(|e| format!("printing panics: {e}"))?
  .map_err(|e| format!("printing to memory fails: {e}"))
}

pub fn llvm_text(p: &Program) -> Result<Vec<u8>, String> {
  guarded(|| {
    let mut g = LlvmGenerator::new(Vec::new());
    g.generate_on(p).map(|_| g.writer())
  })
  .map_err(|e| format!("printing LLVM panics: {e}"))?
  .map_err(|e| format!("printing LLVM to memory fails: {e}"))
}

fn utf(b: &[u8]) -> String {
  String::from_utf8_lossy(b).into_owned()
}

// ---- B01 ----

/// Prints, reads with both readers, prints again.
fn round_trip(m: &MProg, p: &Program) -> Result<(), String> {
  let want = m.canon().anon();
  let t1 = koopa_text(p)?;
  match reftext::read(&t1) {
    Verdict::Accept(r) => {
      if let Some(d) = diff(&want, &r.canon().anon()) {
        return Err(format!("the printed text describes another program: {d}\n{}", utf(&t1)));
      }
    }
    Verdict::Unspecified(s) if s == "deep nesting" => (),
    v => return Err(format!("the printed text is not well-formed: {v:?}\n{}", utf(&t1))),
  }
  let p1 = front::read(&t1).ok_or_else(|| format!("the reader rejects the printed text\n{}", utf(&t1)))?;
  if let Some(d) = diff(&want, &extract::extract(&p1)?.canon().anon()) {
    return Err(format!("reading the printed text gives another program: {d}\n{}", utf(&t1)));
  }
  let t2 = koopa_text(&p1)?;
  let p2 = front::read(&t2).ok_or_else(|| format!("the reader rejects the text printed after reading\n{}", utf(&t2)))?;
  if let Some(d) = diff(&want, &extract::extract(&p2)?.canon().anon()) {
    return Err(format!("the second round trip gives another program: {d}"));
  }
  let t3 = koopa_text(&p2)?;
  if t2 != t3 {
    return Err(format!("printing again gives another text:\n{}\n-- then --\n{}", utf(&t2), utf(&t3)));
  }
  // the printer does not change the program, and gives the same text again
  if let Some(d) = diff(m, &extract::extract(p)?) {
    return Err(format!("printing changed the program: {d}"));
  }
  if koopa_text(p)? != t1 {
    return Err("printing twice gives two texts".into());
  }
  Ok(())
}

fn styles() -> [u32; 4] {
  [0, mk::REVERSED | mk::EDITED, mk::CLUTTER | mk::RENAMED, mk::REVERSED | mk::CLUTTER | mk::RENAMED | mk::EDITED]
}

fn b01(ctx: &mut Ctx) {
  let cp: *mut Ctx = ctx;
  // SAFETY: `programs` only reads the tier
  let c: &mut Ctx = unsafe { &mut *cp };
  let mut one = |m: &MProg| {
    if !c.mine_next() {
      c.skip();
      return;
    }
    c.case(|| render::text(m), |ctx| {
      for s in styles() {
        let b = mk::build_with(m, s);
        round_trip(m, &b.prog).map_err(|e| format!("{e} (built in style {s})"))?;
        ctx.count("evaluations", 1);
      }
      ctx.note(m.hash());
      Ok(())
    });
  };
  front::programs(ctx, true, false, &mut one);
  let menu = name_menu(ctx);
  clash(&menu, false, &mut one);
  r#gen::names(&menu[..ctx.pick(3, 4)], &mut |m, _| one(m));
  dup_sweep(ctx.pick(12, 60), &mut one);
  // one generator for several programs, dropped or kept in between
  let ms: Vec<MProg> = r#gen::seeds();
  for i in 0..ms.len() {
    for j in 0..ms.len() {
      for mode in 0..8 {
        ctx.case(
          || format!("one generator prints seed {i} then seed {j}, mode {mode}\n{}\n--\n{}", render::text(&ms[i]), render::text(&ms[j])),
          |ctx| {
            reuse(&ms[i], &ms[j], mode)?;
            ctx.note(hash64(format!("{i} {j} {mode}").as_bytes()));
            Ok(())
          },
        );
      }
    }
  }
}

/// A second program printed by the same generator comes out as by a new one.
fn reuse(a: &MProg, b: &MProg, mode: u32) -> Result<(), String> {
  let drop_first = mode & 1 != 0;
  let fail_first = mode & 2 != 0;
  let llvm_too = mode & 4 != 0;
  let expect = |p: &Program, l: bool| if l { llvm_text(p) } else { koopa_text(p) };
  let l = llvm_too && !format!("{a:?}{b:?}").contains("Fun(");
  let w = Scripted::new(if fail_first { vec![(20, Fault::Hard)] } else { vec![] });
  let mut keep = vec![];
  let (got, want) = if l {
    let mut g = LlvmGenerator::new(w);
    let p = mk::build(a).prog;
    let _ = g.generate_on(&p);
    if !drop_first {
      keep.push(p);
    } else {
      drop(p);
    }
    let q = mk::build(b).prog;
    g.generate_on(&q).map_err(|e| format!("the second run fails: {e}"))?;
    (g.writer(), expect(&q, l)?)
  } else {
    let mut g = KoopaGenerator::new(w);
    let p = mk::build(a).prog;
    let _ = g.generate_on(&p);
    if !drop_first {
      keep.push(p);
    } else {
      drop(p);
    }
    let q = mk::build(b).prog;
    g.generate_on(&q).map_err(|e| format!("the second run fails: {e}"))?;
    (g.writer(), expect(&q, l)?)
  };
  if !got.out.ends_with(&want) {
    return Err(format!("a used generator prints another text:\n{}\n-- expected at the end --\n{}", utf(&got.out), utf(&want)));
  }
  Ok(())
}

// ---- B06 ----

fn b06(ctx: &mut Ctx) {
  let seeds = ctx.pick(4, 12);
  let cp: *mut Ctx = ctx;
  let c: &mut Ctx = unsafe { &mut *cp };
  let mut one = |m: &MProg| {
    if !c.mine_next() {
      c.skip();
      return;
    }
    let llvm = !format!("{m:?}").contains("Fun(");
    c.case(|| render::text(m), |ctx| {
      let mut first: Option<[Vec<u8>; 2]> = None;
      for seed in 0..seeds {
        sys::HASH_SEED.store(1000 + seed as u64, Ordering::Relaxed);
        // the seed is taken when a thread begins
        let r = std::thread::scope(|s| s.spawn(|| all_prints(m, llvm)).join());
        sys::HASH_SEED.store(1, Ordering::Relaxed);
        for (how, t) in r.map_err(|_| "a thread panics")?? {
          ctx.count("evaluations", 1);
          match &first {
            None => first = Some(t),
            Some(f) => {
              for i in 0..2 {
                if f[i] != t[i] {
                  return Err(format!("{how}, hash seed {seed}: another text:\n{}\n-- than at first --\n{}", utf(&t[i]), utf(&f[i])));
                }
              }
            }
          }
        }
      }
      ctx.note(m.hash());
      Ok(())
    });
  };
  front::programs(ctx, false, true, &mut one);
  llvm_extra(&mut one);
  let menu = name_menu(ctx);
  clash(&menu[..ctx.pick(3, 4)], true, &mut one);
  // joins of many blocks, with several values
  for n in 2..=ctx.pick(6, 9) {
    for named in [false, true] {
      let mut p = PB::new();
      let f = p.fun("@f", &[(Some("@x"), Ty::I32)], Ty::I32);
      let e = p.block(f, None, &[]);
      let ps: Vec<(Option<&str>, Ty)> = vec![(None, Ty::I32), (Some("%v"), Ty::I32)];
      let names: Vec<String> = (0..n).map(|i| format!("%b{i}")).collect();
      let mut tests = vec![e];
      for i in 1..n {
        tests.push(p.block(f, named.then(|| names[i].as_str()), &[]));
      }
      let join = p.block(f, None, &ps);
      for i in 0..n {
        if i + 1 < n {
          let c = p.inst(f, tests[i], None, MOp::Bin(1, MVal::Param(0), int(i as i32)));
          p.inst(f, tests[i], None, MOp::Br(c.clone(), join, vec![int(i as i32), c], tests[i + 1], vec![]));
        } else {
          p.inst(f, tests[i], None, MOp::Jump(join, vec![int(i as i32), MVal::Param(0)]));
        }
      }
      p.inst(f, join, None, MOp::Ret(Some(MVal::BParam(join, 1))));
      one(&p.p);
    }
  }
}

/// A program built in every way and printed by new and used generators.
fn all_prints(m: &MProg, llvm: bool) -> Result<Vec<(String, [Vec<u8>; 2])>, String> {
  let mut out = vec![];
  let other = r#gen::seeds().remove(0);
  for s in [0, mk::REVERSED | mk::RENAMED | mk::EDITED] {
    let b = mk::build_with(m, s);
    let p = &b.prog;
    for time in 0..2 {
      let l = if llvm { llvm_text(p)? } else { vec![] };
      out.push((format!("built in style {s}, printed {time} times before"), [koopa_text(p)?, l]));
    }
    // by generators that have printed another program
    let o = mk::build(&other).prog;
    let io = |e| format!("printing to memory fails: {e}");
    let mut g = KoopaGenerator::new(Vec::new());
    g.generate_on(&o).map_err(io)?;
    let n = koopa_text(&o)?.len();
    g.generate_on(p).map_err(io)?;
    let k = g.writer()[n..].to_vec();
    let l = if llvm {
      let mut g = LlvmGenerator::new(Vec::new());
      g.generate_on(&o).map_err(io)?;
      let n = llvm_text(&o)?.len();
      g.generate_on(p).map_err(io)?;
      g.writer()[n..].to_vec()
    } else {
      vec![]
    };
    out.push((format!("built in style {s}, by a used generator"), [k, l]));
    let mut g = koopa::back::Generator::with_visitor(Vec::new(), koopa::back::koopa::Visitor);
    g.generate_on(p).map_err(io)?;
    let k = g.writer();
    let l = if llvm {
      let mut g = koopa::back::Generator::with_visitor(Vec::new(), koopa::back::llvm::Visitor);
      g.generate_on(p).map_err(io)?;
      g.writer()
    } else {
      vec![]
    };
    out.push((format!("built in style {s}, by a generator made with its visitor"), [k, l]));
  }
  Ok(out)
}

// ---- names ----

fn name_menu(ctx: &Ctx) -> Vec<Option<&'static str>> {
  let mut v = vec![None, Some("@a"), Some("%0"), Some("@a_0")];
  if ctx.thorough() {
    v.extend([Some("%a"), Some("%1")]);
  }
  v
}

/// Two functions, a global and a declaration with names from a menu.
const CLASH_SLOTS: usize = 8;
fn clash(menu: &[Option<&str>], fwd: bool, out: &mut dyn FnMut(&MProg)) {
  let mut idx = [0usize; CLASH_SLOTS];
  loop {
    let n = |i: usize| menu[idx[i]];
    let mut p = PB::new();
    p.global(None, MConst::Int(5));
    p.global(n(0), MConst::Int(1));
    let f = p.fun(n(1).unwrap_or("@f"), &[(n(2), Ty::I32), (None, ptr(Ty::I32))], Ty::I32);
    let h = p.fun(n(3).unwrap_or("@h"), &[(None, Ty::I32)], Ty::I32);
    let b0 = p.block(f, n(4), &[]);
    let b1 = p.block(f, None, &[(None, Ty::I32), (n(5), Ty::I32)]);
    p.block(f, n(6), &[]);
    let c = p.inst(f, b0, None, MOp::Load(MVal::Global(1)));
    let c = p.inst(f, b0, None, MOp::Bin(2, c, MVal::Param(0)));
    let l = p.inst(f, b0, n(7), if fwd { MOp::Call(h, vec![c]) } else { MOp::Call(f, vec![c, MVal::Param(1)]) });
    p.inst(f, b0, None, MOp::Br(l.clone(), b1, vec![l.clone(), int(1)], 2, vec![]));
    p.inst(f, b1, None, MOp::Ret(Some(MVal::BParam(b1, 1))));
    p.inst(f, 2, None, MOp::Ret(Some(l)));
    p.block(h, n(4), &[]);
    let x = p.inst(h, 0, n(7), MOp::Load(MVal::Global(0)));
    let y = p.inst(h, 0, n(2), MOp::Bin(6, x, MVal::Param(0)));
    p.inst(h, 0, None, MOp::Store(y.clone(), MVal::Global(1)));
    p.inst(h, 0, None, MOp::Ret(Some(y)));
    out(&p.p);
    let mut k = 0;
    while k < CLASH_SLOTS {
      idx[k] += 1;
      if idx[k] < menu.len() {
        break;
      }
      idx[k] = 0;
      k += 1;
    }
    if k == CLASH_SLOTS {
      return;
    }
  }
}

/// The same name asked for `n` times by each kind of entity.
fn dup_sweep(max: usize, out: &mut dyn FnMut(&MProg)) {
  let long = format!("@{}", "x".repeat(1100));
  let longer = format!("@{}y", "x".repeat(1100));
  for n in 0..=max {
    for nm in ["@a", "%a", "%0", "%7", "%10", "@_", &long, &longer] {
      for kind in 0..6 {
        let mut p = PB::new();
        for i in 0..if kind == 0 { n } else { 0 } {
          p.global(Some(nm), MConst::Int(i as i32));
        }
        for _ in 0..if kind == 1 { n } else { 0 } {
          p.decl(nm, &[], Ty::Unit);
        }
        let f = p.fun(nm, &[(Some(nm), Ty::I32)], Ty::I32);
        p.block(f, Some(nm), &[]);
        let mut last = 0;
        for _ in 0..if kind == 2 { n } else { 0 } {
          let b = p.block(f, Some(nm), &[(None, Ty::I32)]);
          p.inst(f, last, None, MOp::Jump(b, vec![MVal::Param(0)]));
          last = b;
        }
        if kind == 3 && n > 0 {
          let ps: Vec<(Option<&str>, Ty)> = (0..n).map(|i| (if i % 3 == 2 { None } else { Some(nm) }, Ty::I32)).collect();
          let b = p.block(f, None, &ps);
          p.inst(f, last, None, MOp::Jump(b, vec![MVal::Param(0); n]));
          last = b;
        }
        let mut v = MVal::Param(0);
        for i in 0..if kind >= 4 { n } else { 0 } {
          // the long name next to its neighbours, named next to unnamed
          let q = if kind == 4 {
            Some(nm)
          } else if i % 2 == 0 {
            None
          } else {
            Some([nm, "@a_0", "%1", "@a_1", "%3", &long][i / 2 % 6])
          };
          v = p.inst(f, last, q, MOp::Bin(i % 17, v, MVal::Param(0)));
        }
        p.inst(f, last, None, MOp::Ret(Some(v)));
        out(&p.p);
      }
    }
  }
}

/// Printed names in the order of the model's entities.
struct Names {
  globals: Vec<String>,
  funcs: Vec<String>,
  /// per function: blocks; values (params, then per block its parameters and
  /// results) with the names asked for
  bbs: Vec<Vec<String>>,
  vals: Vec<Vec<String>>,
  calls: Vec<(usize, String)>,
}

/// Walks a printed text known to have the structure of `m`.
fn names_of(m: &MProg, t: &[u8]) -> Result<Names, String> {
  let toks = reftext::lex(t)?;
  let mut i = 0;
  let n = toks.len();
  // the next token satisfying a predicate
  let mut find = |f: &dyn Fn(&K, Option<&K>) -> bool| -> Result<String, String> {
    while i < n {
      let nx = toks.get(i + 1).map(|t| &t.k);
      if f(&toks[i].k, nx) {
        let r = match (&toks[i].k, nx) {
          (K::Word(_), Some(K::Sym(s))) | (K::Sym(s), _) => s.clone(),
          _ => String::new(),
        };
        i += 1;
        return Ok(r);
      }
      i += 1;
    }
    Err(format!("the printed text lacks a definition\n{}", utf(t)))
  };
  let mut o = Names { globals: vec![], funcs: vec![], bbs: vec![], vals: vec![], calls: vec![] };
  for _ in &m.globals {
    o.globals.push(find(&|k, _| *k == K::Word("global".into()))?);
  }
  for f in &m.funcs {
    o.funcs.push(find(&|k, _| *k == K::Word("fun".into()) || *k == K::Word("decl".into()))?);
    let mut vals = vec![];
    let mut bs = vec![];
    if let Some(bbs) = &f.bbs {
      find(&|k, _| *k == K::Ch(b'('))?;
      for _ in &f.params {
        vals.push(find(&|k, x| matches!(k, K::Sym(_)) && x == Some(&K::Ch(b':')))?);
      }
      find(&|k, _| *k == K::Ch(b'{'))?;
      for b in bbs {
        let want = if b.params.is_empty() { K::Ch(b':') } else { K::Ch(b'(') };
        bs.push(find(&|k, x| matches!(k, K::Sym(_)) && x == Some(&want))?);
        for _ in &b.params {
          vals.push(find(&|k, x| matches!(k, K::Sym(_)) && x == Some(&K::Ch(b':')))?);
        }
        for inst in &b.insts {
          if inst.ty != Ty::Unit {
            vals.push(find(&|k, x| matches!(k, K::Sym(_)) && x == Some(&K::Ch(b'=')))?);
          }
          if let MOp::Call(c, _) = &inst.op {
            o.calls.push((*c, find(&|k, _| *k == K::Word("call".into()))?));
          }
          if inst.op.is_term() {
            find(&|k, _| matches!(k, K::Word(w) if ["br", "jump", "ret"].contains(&w.as_str())))?;
            let skip = match &inst.op {
              MOp::Br(_, _, a, _, b) => (!a.is_empty()) as usize + (!b.is_empty()) as usize,
              MOp::Jump(_, a) => (!a.is_empty()) as usize,
              _ => 0,
            };
            for _ in 0..skip {
              find(&|k, _| *k == K::Ch(b')'))?;
            }
            if skip == 0 {
              // step over the target or value, which is no definition
              find(&|_, _| true)?;
            }
          }
        }
      }
    }
    o.vals.push(vals);
    o.bbs.push(bs);
  }
  Ok(o)
}

/// Explicit names in the order of `Names`.
fn asked(m: &MProg) -> (Vec<Option<String>>, Vec<Option<String>>, Vec<Vec<Option<String>>>, Vec<Vec<Option<String>>>) {
  let g = m.globals.iter().map(|g| g.name.clone()).collect();
  let f = m.funcs.iter().map(|f| Some(f.name.clone())).collect();
  let mut bs = vec![];
  let mut vs = vec![];
  for f in &m.funcs {
    let mut b = vec![];
    let mut v = vec![];
    if let Some(bbs) = &f.bbs {
      v.extend(f.params.iter().map(|p| p.0.clone()));
      for x in bbs {
        b.push(x.name.clone());
        v.extend(x.params.iter().map(|p| p.0.clone()));
        v.extend(x.insts.iter().filter(|i| i.ty != Ty::Unit).map(|i| i.name.clone()));
      }
    }
    bs.push(b);
    vs.push(v);
  }
  (g, f, bs, vs)
}

fn legal(s: &str) -> bool {
  let b = s.as_bytes();
  match b.first() {
    Some(b'%') if b.len() > 1 && b[1].is_ascii_digit() => b.len() == 2 || b[1] != b'0' && b[1..].iter().all(|c| c.is_ascii_digit()),
    Some(b'@' | b'%') => {
      b.len() > 1 && (b[1].is_ascii_alphabetic() || b[1] == b'_') && b[1..].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
    }
    _ => false,
  }
}

fn unique<'a>(what: &str, n: impl Iterator<Item = &'a String>) -> Result<(), String> {
  let mut s = HashSet::new();
  for x in n {
    if !s.insert(x) {
      return Err(format!("two {what} are printed as {x}"));
    }
  }
  Ok(())
}

fn koopa_names(m: &MProg, p: &Program) -> Result<(), String> {
  let t = koopa_text(p)?;
  let say = |e: String| format!("{e}\n{}", utf(&t));
  let o = names_of(m, &t)?;
  let all = |f: usize| o.globals.iter().chain(&o.funcs).chain(&o.vals[f]);
  unique("globals or functions", o.globals.iter().chain(&o.funcs)).map_err(say)?;
  for f in 0..m.funcs.len() {
    unique("values", all(f)).map_err(say)?;
    unique("blocks of one function", o.bbs[f].iter()).map_err(say)?;
  }
  for s in o.globals.iter().chain(&o.funcs).chain(o.bbs.iter().flatten()).chain(o.vals.iter().flatten()) {
    if !legal(s) {
      return Err(say(format!("{s} is not a symbol of the language")));
    }
  }
  for (c, s) in &o.calls {
    if *s != o.funcs[*c] {
      return Err(say(format!("a call refers to {s} for the function printed as {}", o.funcs[*c])));
    }
  }
  let (g, f, bs, vs) = asked(m);
  let mut count: HashMap<&String, usize> = HashMap::new();
  for n in g.iter().chain(&f).chain(bs.iter().flatten()).chain(vs.iter().flatten()).flatten() {
    *count.entry(n).or_default() += 1;
  }
  let got = o.globals.iter().chain(&o.funcs).chain(o.bbs.iter().flatten()).chain(o.vals.iter().flatten());
  for (want, got) in g.iter().chain(&f).chain(bs.iter().flatten()).chain(vs.iter().flatten()).zip(got) {
    if let Some(w) = want
      && count[w] == 1
      && w != got
    {
      return Err(say(format!("the entity named {w} is printed as {got}")));
    }
  }
  Ok(())
}

fn llvm_name(s: &str) -> String {
  match s.as_bytes()[0] {
    b'@' => s[1..].into(),
    _ => format!("${}", &s[1..]),
  }
}

/// Parses the LLVM form and compares definitions, signatures and names.
fn llvm_defs(m: &MProg, p: &Program) -> Result<(Vec<u8>, llvm::LMod), String> {
  let t = llvm_text(p)?;
  let say = |e: String| format!("{e}\n{}", utf(&t));
  let l = llvm::parse(&t).map_err(say)?;
  if l.globals.len() != m.globals.len() {
    return Err(say(format!("{} globals instead of {}", l.globals.len(), m.globals.len())));
  }
  for (x, g) in l.globals.iter().zip(&m.globals) {
    if x.1 != LTy::of(&g.init.ty()) {
      return Err(say(format!("global {} has type {:?}", x.0, x.1)));
    }
  }
  if l.funcs.len() != m.funcs.len() {
    return Err(say(format!("{} functions instead of {}", l.funcs.len(), m.funcs.len())));
  }
  let order = func_order(&t, &l)?;
  for (f, li) in m.funcs.iter().zip(&order) {
    let x = &l.funcs[*li];
    if x.ret != LTy::of(&f.ret) || x.params.len() != f.params.len() || x.params.iter().zip(&f.params).any(|(a, b)| a.1 != LTy::of(&b.1)) {
      return Err(say(format!("function {} has another signature", x.name)));
    }
    if x.bbs.len() != f.bbs.as_ref().map_or(0, |b| b.len()) {
      return Err(say(format!("function {} has {} blocks", x.name, x.bbs.len())));
    }
  }
  Ok((t, l))
}

/// The module's functions in text order.
fn func_order(t: &[u8], l: &llvm::LMod) -> Result<Vec<usize>, String> {
  let mut v = vec![];
  for line in utf(t).lines() {
    if line.starts_with("define ") || line.starts_with("declare ") {
      // the first @name followed by a parenthesis
      for (k, _) in line.match_indices('@') {
        let e = line[k + 1..].find(|c: char| !(c.is_ascii_alphanumeric() || "$_.-".contains(c))).unwrap_or(0);
        if line[k + 1 + e..].starts_with('(') {
          let n = &line[k + 1..k + 1 + e];
          v.push(l.funcs.iter().position(|f| f.name == n).ok_or_else(|| format!("function {n} is missing"))?);
          break;
        }
      }
    }
  }
  if v.len() != l.funcs.len() || v.iter().collect::<HashSet<_>>().len() != v.len() {
    return Err(format!("{} functions are defined in the text, {} in the module\n{}", v.len(), l.funcs.len(), utf(t)));
  }
  Ok(v)
}

fn llvm_names(m: &MProg, p: &Program) -> Result<(), String> {
  let (t, l) = llvm_defs(m, p)?;
  let say = |e: String| format!("{e}\n{}", utf(&t));
  let order = func_order(&t, &l)?;
  let (g, f, bs, vs) = asked(m);
  let mut count: HashMap<&String, usize> = HashMap::new();
  for n in g.iter().chain(&f).chain(bs.iter().flatten()).chain(vs.iter().flatten()).flatten() {
    *count.entry(n).or_default() += 1;
  }
  let ok = |w: &Option<String>, got: &str| -> Result<(), String> {
    match w {
      Some(w) if count[w] == 1 && w.len() <= 500 && llvm_name(w) != got => Err(say(format!("the entity named {w} is printed as {got}"))),
      _ => Ok(()),
    }
  };
  for (w, x) in g.iter().zip(&l.globals) {
    ok(w, &x.0)?;
  }
  for (fi, li) in order.iter().enumerate() {
    let x = &l.funcs[*li];
    ok(&f[fi], &x.name)?;
    for (w, b) in bs[fi].iter().zip(&x.bbs) {
      ok(w, &b.0)?;
    }
    let locals: HashSet<&String> = x.params.iter().map(|p| &p.0).chain(x.bbs.iter().flat_map(|b| b.1.iter().map(|i| &i.name))).collect();
    if m.funcs[fi].bbs.is_some() {
      for w in vs[fi].iter().flatten() {
        if count[w] == 1 && w.len() <= 500 && !locals.contains(&llvm_name(w)) {
          return Err(say(format!("no value carries the name {w}")));
        }
      }
    }
    // every call names the function the model calls
    if let Some(bbs) = &m.funcs[fi].bbs {
      let want = bbs.iter().flat_map(|b| &b.insts).filter_map(|i| if let MOp::Call(c, _) = i.op { Some(c) } else { None });
      let got = x.bbs.iter().flat_map(|b| &b.1).filter(|i| i.op == 45).map(|i| &i.args[0]);
      for (w, g) in want.zip(got) {
        if !matches!(g, LVal::Func(k) if *k == order[w]) {
          return Err(say("a call names another function".into()));
        }
      }
    }
  }
  Ok(())
}

fn b02(ctx: &mut Ctx) {
  let cp: *mut Ctx = ctx;
  let c: &mut Ctx = unsafe { &mut *cp };
  let mut one = |m: &MProg| {
    if !c.mine_next() {
      c.skip();
      return;
    }
    c.case(|| render::text(m), |ctx| {
      for s in [0, mk::CLUTTER | mk::RENAMED | mk::EDITED] {
        let b = mk::build_with(m, s);
        koopa_names(m, &b.prog)?;
        llvm_names(m, &b.prog)?;
        ctx.count("evaluations", 2);
      }
      ctx.note(hash64(format!("{:?}", asked(m)).as_bytes()));
      Ok(())
    });
  };
  let menu = name_menu(ctx);
  clash(&menu, false, &mut one);
  clash(&menu, true, &mut one);
  r#gen::names(&menu[..ctx.pick(3, 4)], &mut |m, _| one(m));
  dup_sweep(ctx.pick(12, 60), &mut one);
  r#gen::sweeps(ctx.pick(12, 100), false, &mut one);
  for s in r#gen::seeds() {
    if !format!("{s:?}").contains("Fun(") {
      one(&s);
    }
  }
}

// ---- B03 ----

fn b03(ctx: &mut Ctx) {
  let cp: *mut Ctx = ctx;
  let c: &mut Ctx = unsafe { &mut *cp };
  let mut one = |m: &MProg| {
    if !c.mine_next() {
      c.skip();
      return;
    }
    c.case(|| render::text(m), |ctx| {
      for (i, s) in styles().into_iter().enumerate() {
        sys::HASH_SEED.store(i as u64 + 1, Ordering::Relaxed);
        let b = mk::build_with(m, s);
        llvm_names(m, &b.prog).map_err(|e| format!("{e} (built in style {s})"))?;
        let t = llvm_text(&b.prog)?;
        let (known, skipped) = ltext::check(&utf(&t), Some(m)).map_err(|e| format!("{e}\n{}", utf(&t)))?;
        ctx.count("typed_lines", known);
        ctx.count("lines_not_typed", skipped);
        ctx.count("evaluations", 1);
      }
      ctx.note(m.hash());
      Ok(())
    });
  };
  front::programs(ctx, true, true, &mut one);
  llvm_extra(&mut one);
  let menu = name_menu(ctx);
  clash(&menu[..3], true, &mut one);
  dup_sweep(ctx.pick(6, 40), &mut one);
}

/// Shapes only LLVM output cares about.
fn llvm_extra(out: &mut dyn FnMut(&MProg)) {
  // constants as block arguments, of every small type, by every route
  for t in r#gen::types(2, false) {
    for k in r#gen::consts(&t, 2) {
      for form in 0..4 {
        let mut p = PB::new();
        p.decl("@see", std::slice::from_ref(&t), Ty::Unit);
        let f = p.fun("@f", &[(Some("@x"), Ty::I32), (Some("@y"), t.clone())], Ty::Unit);
        p.block(f, None, &[]);
        let b = p.block(f, Some("%b"), &[(Some("%v"), t.clone())]);
        let o = p.block(f, Some("%o"), &[(Some("%w"), t.clone())]);
        let kv = MVal::Const(k.clone());
        let op = match form {
          0 => MOp::Jump(b, vec![kv]),
          1 => MOp::Br(MVal::Param(0), b, vec![kv], o, vec![MVal::Param(1)]),
          2 => MOp::Br(MVal::Param(0), b, vec![MVal::Param(1)], o, vec![kv]),
          _ => MOp::Br(MVal::Param(0), o, vec![kv.clone()], b, vec![kv]),
        };
        p.inst(f, 0, None, op);
        p.inst(f, o, None, MOp::Jump(b, vec![MVal::BParam(o, 0)]));
        p.inst(f, b, None, MOp::Call(0, vec![MVal::BParam(b, 0)]));
        p.inst(f, b, None, MOp::Ret(None));
        out(&p.p);
        // as a call argument and returned
        if form == 0 {
          let mut p = PB::new();
          let d = p.decl("@see", std::slice::from_ref(&t), t.clone());
          let f = p.fun("@f", &[], t.clone());
          p.block(f, None, &[]);
          p.inst(f, 0, None, MOp::Call(d, vec![MVal::Const(k.clone())]));
          p.inst(f, 0, None, MOp::Ret(Some(MVal::Const(k.clone()))));
          out(&p.p);
        }
      }
    }
  }
  // loops whose parameters swap and feed each other
  for n in 1..4usize {
    let mut perm: Vec<usize> = vec![0; n];
    loop {
      let mut p = PB::new();
      let d = p.decl("@see", &[Ty::I32], Ty::I32);
      let f = p.fun("@f", &[(Some("@x"), Ty::I32)], Ty::I32);
      p.block(f, None, &[]);
      let ps: Vec<(Option<&str>, Ty)> = (0..n).map(|_| (None, Ty::I32)).collect();
      let l = p.block(f, Some("%l"), &ps);
      let e = p.block(f, Some("%e"), &ps);
      p.inst(f, 0, None, MOp::Jump(l, (0..n).map(|i| int(10 + i as i32)).collect()));
      for i in 0..n {
        p.inst(f, l, None, MOp::Call(d, vec![MVal::BParam(l, i)]));
      }
      let c = p.inst(f, l, None, MOp::Call(d, vec![int(0)]));
      let c = p.inst(f, l, None, MOp::Bin(2, c, int(-20)));
      let a: Vec<MVal> = perm.iter().map(|i| MVal::BParam(l, *i)).collect();
      p.inst(f, l, None, MOp::Br(c, l, a.clone(), e, a));
      let mut v = MVal::BParam(e, 0);
      for i in 1..n {
        let s = p.inst(f, e, None, MOp::Bin(8, v, int(7)));
        v = p.inst(f, e, None, MOp::Bin(6, s, MVal::BParam(e, i)));
      }
      p.inst(f, e, None, MOp::Ret(Some(v)));
      out(&p.p);
      let mut k = 0;
      while k < n {
        perm[k] += 1;
        if perm[k] < n {
          break;
        }
        perm[k] = 0;
        k += 1;
      }
      if k == n {
        break;
      }
    }
  }
  // pointers into nested arrays, through every depth and index
  let nest = arr(arr(arr(Ty::I32, 2), 3), 2);
  let pn = arr(ptr(arr(Ty::I32, 3)), 2);
  for depth in 0..4 {
    for ix in -1..4 {
      for src in 0..3 {
        let mut p = PB::new();
        p.global(Some("@n"), MConst::Agg((0..2).map(|a| MConst::Agg((0..3).map(|b| MConst::Agg((0..2).map(|c| MConst::Int(a * 100 + b * 10 + c)).collect())).collect())).collect()));
        let f = p.fun("@f", &[(Some("@p"), ptr(nest.clone())), (Some("@i"), Ty::I32), (Some("@q"), ptr(pn.clone()))], Ty::I32);
        p.block(f, None, &[]);
        let mut v = match src {
          0 => MVal::Global(0),
          1 => MVal::Param(0),
          _ => {
            let a = p.inst(f, 0, None, MOp::Alloc(nest.clone()));
            let l = p.inst(f, 0, None, MOp::Load(MVal::Param(0)));
            p.inst(f, 0, None, MOp::Store(l, a.clone()));
            a
          }
        };
        for d in 0..depth.min(3) {
          v = p.inst(f, 0, None, MOp::GetElemPtr(v, if d == depth - 1 { int(ix) } else { MVal::Param(1) }));
        }
        v = p.inst(f, 0, None, MOp::GetPtr(v, if depth == 3 { MVal::Param(1) } else { int(ix) }));
        while p.p.funcs[f].val_ty(&p.p, &v) != ptr(Ty::I32) {
          v = p.inst(f, 0, None, MOp::GetElemPtr(v, int(1)));
        }
        p.inst(f, 0, None, MOp::Store(int(-9), v.clone()));
        let q = p.inst(f, 0, None, MOp::GetElemPtr(MVal::Param(2), MVal::Param(1)));
        let q = p.inst(f, 0, None, MOp::Load(q));
        let q = p.inst(f, 0, None, MOp::GetElemPtr(q, int(ix)));
        let q = p.inst(f, 0, None, MOp::Load(q));
        let v = p.inst(f, 0, None, MOp::Load(v));
        let v = p.inst(f, 0, None, MOp::Bin(6, v, q));
        p.inst(f, 0, None, MOp::Ret(Some(v)));
        out(&p.p);
      }
    }
  }
}

// ---- B04 ----

const EDGE: [i32; 16] =
  [0, 1, -1, 2, i32::MAX, i32::MIN, 7, -7, 31, 32, 3, i32::MAX - 1, i32::MIN + 1, 0x5555_5555, -0x5555_5556, 65536];

fn exec(m: &MProg, p: &Program, grid: &[i32], ctx: &mut Ctx) -> Result<(), String> {
  let (t, l) = llvm_defs(m, p)?;
  let say = |e: String| format!("{e}\n{}", utf(&t));
  let order = func_order(&t, &l)?;
  let names: Vec<String> = order.iter().map(|i| l.funcs[*i].name.clone()).collect();
  let objs: HashMap<usize, usize> = (0..l.globals.len()).map(|i| (i, i)).collect();
  for (fi, f) in m.funcs.iter().enumerate() {
    if f.bbs.is_none() {
      continue;
    }
    // integer parameters range over the grid, two at a time
    let ints: Vec<usize> = (0..f.params.len()).filter(|i| f.params[*i].1 == Ty::I32).collect();
    let combos: Vec<(i32, i32)> = match ints.len() {
      0 => vec![(0, 0)],
      1 => grid.iter().map(|a| (*a, 0)).collect(),
      _ => grid.iter().flat_map(|a| grid.iter().map(|b| (*a, *b))).collect(),
    };
    for (x, y) in combos {
      let size: usize = m.funcs.iter().flat_map(|f| f.bbs.iter().flatten()).map(|b| b.insts.len()).sum();
      let mut w = World { limit: 400 + size, ..World::default() };
      let mut start = |w: &mut World| -> Result<Vec<V>, Stop> {
        run::globals(m, w)?;
        let mut a = vec![];
        for (i, (_, t)) in f.params.iter().enumerate() {
          let s = match ints.iter().position(|k| *k == i) {
            Some(0) => x,
            Some(1) => y,
            _ => 5 + i as i32,
          };
          a.push(w.arg(t, s, 2)?);
        }
        Ok(a)
      };
      let Ok(args) = start(&mut w) else { continue };
      let r = match run::koopa(m, &names, fi, args.clone(), &mut w, 0) {
        Ok(r) => r,
        Err(Stop::Unknown(e)) => return Err(format!("ORACLE: {e}")),
        Err(_) => {
          ctx.count("undefined_or_long", 1);
          continue;
        }
      };
      let mut w2 = World { limit: w.steps * 4 + 200, ..World::default() };
      let bad = |e: String| Err(say(format!("function {} on ({x}, {y}): {e}", f.name)));
      match run::lglobals(&l, &mut w2) {
        Ok(()) => {}
        Err(e) => return bad(format!("{e:?}")),
      }
      // the arguments were made after the globals
      let args2 = {
        let n = w2.mem.objs.len();
        if n != m.globals.len() {
          return bad("another number of globals".into());
        }
        let mut a = vec![];
        for (i, (_, t)) in f.params.iter().enumerate() {
          let s = match ints.iter().position(|k| *k == i) {
            Some(0) => x,
            Some(1) => y,
            _ => 5 + i as i32,
          };
          match w2.arg(t, s, 2) {
            Ok(v) => a.push(v),
            Err(e) => return Err(format!("ORACLE: {e:?}")),
          }
        }
        a
      };
      assert!(args == args2);
      let r2 = match run::llvm(&l, &objs, order[fi], args2, &mut w2, 0) {
        Ok(r) => r,
        Err(e) => return bad(format!("the LLVM form stops with {e:?}, the program yields {r:?}")),
      };
      if !run::fits(&r, &r2) {
        return bad(format!("yields {r2:?}, must yield {r:?}"));
      }
      if w.trace.len() != w2.trace.len() {
        return bad(format!("makes {} external calls, must make {}", w2.trace.len(), w.trace.len()));
      }
      for (a, b) in w.trace.iter().zip(&w2.trace) {
        if a.0 != b.0 || !run::fits(&V::Agg(a.1.clone()), &V::Agg(b.1.clone())) {
          return bad(format!("calls {b:?}, must call {a:?}"));
        }
      }
      if w.mem.objs.len() != w2.mem.objs.len() {
        return bad("allocates another number of objects".into());
      }
      for (i, (a, b)) in w.mem.objs.iter().zip(&w2.mem.objs).enumerate() {
        if a.len() != b.len() || a.iter().zip(b).any(|(a, b)| !run::fits(a, b)) {
          return bad(format!("leaves {b:?} in object {i}, must leave {a:?}"));
        }
      }
      ctx.count("evaluations", 1);
      ctx.note(hash64(format!("{:?}{r:?}{:?}", m.hash(), (fi, x, y)).as_bytes()));
    }
  }
  Ok(())
}

fn b04(ctx: &mut Ctx) {
  let cp: *mut Ctx = ctx;
  let c: &mut Ctx = unsafe { &mut *cp };
  let few: Vec<i32> = EDGE[..c.pick(5, 7)].to_vec();
  let mut one = |m: &MProg| {
    if !c.mine_next() {
      c.skip();
      return;
    }
    c.case(|| render::text(m), |ctx| {
      for (i, s) in [0, mk::REVERSED | mk::CLUTTER].into_iter().enumerate() {
        sys::HASH_SEED.store(i as u64 + 1, Ordering::Relaxed);
        let b = mk::build_with(m, s);
        exec(m, &b.prog, &few, ctx)?;
      }
      Ok(())
    });
  };
  front::programs(ctx, false, true, &mut one);
  llvm_extra(&mut one);
  // every operator on every pair of edge values, variable and constant
  for o in 0..17 {
    for form in 0..=2 * EDGE.len() {
      let mut p = PB::new();
      let f = p.fun("@f", &[(Some("@x"), Ty::I32), (Some("@y"), Ty::I32)], Ty::I32);
      p.block(f, None, &[]);
      let (a, b) = if form == 0 {
        (MVal::Param(0), MVal::Param(1))
      } else if form % 2 == 0 {
        (int(EDGE[form / 2 - 1]), MVal::Param(0))
      } else {
        (MVal::Param(0), int(EDGE[form / 2]))
      };
      let v = p.inst(f, 0, Some("%v"), MOp::Bin(o, a, b));
      // the result decides a branch and is used in arithmetic
      let t = p.block(f, Some("%t"), &[(None, Ty::I32)]);
      let e = p.block(f, Some("%e"), &[]);
      p.inst(f, 0, None, MOp::Br(v.clone(), t, vec![v.clone()], e, vec![]));
      let r = p.inst(f, t, None, MOp::Bin(8, MVal::BParam(t, 0), int(3)));
      p.inst(f, t, None, MOp::Ret(Some(r)));
      let r = p.inst(f, e, None, MOp::Bin(7, v, int(1)));
      p.inst(f, e, None, MOp::Ret(Some(r)));
      let m = p.p;
      ctx.case(|| render::text(&m), |ctx| exec(&m, &mk::build(&m).prog, &EDGE, ctx));
    }
  }
}

// ---- B05 ----

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
  /// fails once, with this kind
  Kind(usize),
  /// takes no more than up to here in this call
  Short,
  Again,
  /// takes nothing and says so
  Nothing,
  Hard,
  /// every later call fails too
  Dead,
}

const KINDS: [std::io::ErrorKind; 9] = {
  use std::io::ErrorKind::*;
  [BrokenPipe, WouldBlock, TimedOut, UnexpectedEof, WriteZero, StorageFull, PermissionDenied, InvalidInput, ConnectionReset]
};

/// A destination that misbehaves when the given numbers of bytes have been
/// taken.
pub struct Scripted {
  pub out: Vec<u8>,
  plan: Vec<(usize, Fault)>,
  dead: bool,
  pub hit: bool,
  /// most bytes per call
  chunk: usize,
  pub failed: bool,
  pub no_flush: bool,
}
impl Scripted {
  pub fn new(plan: Vec<(usize, Fault)>) -> Scripted {
    Scripted { out: vec![], plan, dead: false, hit: false, chunk: usize::MAX, failed: false, no_flush: false }
  }
}
impl Write for Scripted {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    if b.is_empty() {
      return Ok(0);
    }
    if self.dead {
      return Err(std::io::Error::other("dead"));
    }
    let at = self.out.len();
    let mut n = b.len().min(self.chunk);
    if let Some((p, f)) = self.plan.first().copied() {
      if p <= at {
        self.plan.remove(0);
        self.hit = true;
        match f {
          Fault::Short => {}
          Fault::Again => return Err(std::io::ErrorKind::Interrupted.into()),
          Fault::Nothing => {
            self.failed = true;
            return Ok(0);
          }
          Fault::Hard => {
            self.failed = true;
            return Err(std::io::Error::other("hard"));
          }
          Fault::Dead => {
            self.dead = true;
            self.failed = true;
            return Err(std::io::Error::other("dead"));
          }
          Fault::Kind(k) => {
            self.failed = true;
            return Err(KINDS[k].into());
          }
        }
      } else {
        n = n.min(p - at);
      }
    }
    self.out.extend_from_slice(&b[..n]);
    Ok(n)
  }
  fn flush(&mut self) -> std::io::Result<()> {
    if self.no_flush {
      self.failed = true;
      return Err(std::io::Error::other("flush"));
    }
    Ok(())
  }
}

fn faulty(p: &Program, l: bool, full: &[u8], plan: Vec<(usize, Fault)>, chunk: usize) -> Result<bool, String> {
  let fails = plan.iter().any(|f| matches!(f.1, Fault::Hard | Fault::Dead | Fault::Nothing | Fault::Kind(_)));
  let mut w = Scripted::new(plan.clone());
  w.chunk = chunk;
  // a destination that can not be flushed, which it need not be
  w.no_flush = plan.is_empty() && chunk != usize::MAX;
  let (r, w) = guarded(|| {
    if l {
      let mut g = LlvmGenerator::new(w);
      let r = g.generate_on(p).is_ok();
      (r, g.writer())
    } else {
      let mut g = KoopaGenerator::new(w);
      let r = g.generate_on(p).is_ok();
      (r, g.writer())
    }
  })
  .map_err(|e| format!("printing panics: {e} ({plan:?})"))?;
  if r {
    if w.failed {
      return Err(format!("success is reported after the destination failed ({plan:?}, chunk {chunk})"));
    }
    if w.out != full {
      return Err(format!("success is reported with other bytes ({plan:?}, chunk {chunk}):\n{}", utf(&w.out)));
    }
  } else {
    if !w.failed {
      return Err(format!("failure is reported though the destination took everything asked ({plan:?}, chunk {chunk})"));
    }
    if !full.starts_with(&w.out) {
      return Err(format!("what was delivered is no prefix ({plan:?}, chunk {chunk})"));
    }
  }
  let _ = fails;
  Ok(w.hit)
}

fn b05(ctx: &mut Ctx) {
  let mut ms = r#gen::seeds();
  let mut k = 0;
  let every = ctx.pick(3, 1);
  r#gen::calls(2, false, &mut |m| {
    k += 1;
    if k % every == 0 {
      ms.push(m.clone());
    }
  });
  clash(&[None, Some("@a")], false, &mut |m| {
    k += 1;
    if k % (every * 4) == 0 {
      ms.push(m.clone());
    }
  });
  ms.push(MProg::default());
  for m in &ms {
    for l in [false, true] {
      if l && format!("{m:?}").contains("Fun(") {
        continue;
      }
      ctx.case(|| format!("{} output of\n{}", if l { "LLVM" } else { "Koopa" }, render::text(m)), |ctx| {
        let p = mk::build(m).prog;
        let full = if l { llvm_text(&p)? } else { koopa_text(&p)? };
        let mut n = 0u64;
        let mut go = |plan: Vec<(usize, Fault)>, chunk: usize, ctx: &mut Ctx| -> Result<(), String> {
          n += 1;
          let h = hash64(format!("{} {l} {plan:?} {chunk}", m.hash()).as_bytes());
          if faulty(&p, l, &full, plan, chunk)? {
            ctx.note(h);
          }
          Ok(())
        };
        for chunk in [usize::MAX, 1, 2, 3, 5] {
          go(vec![], chunk, ctx)?;
        }
        let all = [Fault::Short, Fault::Again, Fault::Nothing, Fault::Hard, Fault::Dead];
        for at in 0..=full.len() {
          for f in all {
            for chunk in [usize::MAX, 1, 3] {
              go(vec![(at, f)], chunk, ctx)?;
            }
          }
          for k in 0..KINDS.len() {
            go(vec![(at, Fault::Kind(k))], usize::MAX, ctx)?;
          }
          go(vec![(at, Fault::Again), (at, Fault::Again), (at, Fault::Again)], usize::MAX, ctx)?;
        }
        let bound = ctx.pick(150, 300);
        if full.len() <= bound {
          for a in 0..=full.len() {
            for b in a..=full.len() {
              for f in [Fault::Short, Fault::Again] {
                for g in all {
                  go(vec![(a, f), (b, g)], usize::MAX, ctx)?;
                }
              }
            }
          }
        }
        ctx.count("evaluations", n);
        Ok(())
      });
    }
  }
}
