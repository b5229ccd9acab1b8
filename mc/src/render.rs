//! Writes a model program as tokens of the text form, independently of the
//! printer under test.
use crate::model::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
  pub s: String,
  /// 0: any layout, 1: the next token must start on this line, 2: the next
  /// token must start on a later line
  pub next: u8,
}

struct R {
  out: Vec<Tok>,
}

impl R {
  fn t(&mut self, s: impl Into<String>) {
    self.out.push(Tok { s: s.into(), next: 0 });
  }
  fn ty(&mut self, t: &Ty) {
    match t {
      Ty::I32 => self.t("i32"),
      Ty::Unit => panic!("unit has no text form"),
      Ty::Arr(b, n) => {
        self.t("[");
        self.ty(b);
        self.t(",");
        self.t(n.to_string());
        self.t("]");
      }
      Ty::Ptr(b) => {
        self.t("*");
        self.ty(b);
      }
      Ty::Fun(p, r) => {
        self.t("(");
        for (i, a) in p.iter().enumerate() {
          if i > 0 {
            self.t(",");
          }
          self.ty(a);
        }
        self.t(")");
        if **r != Ty::Unit {
          self.t(":");
          self.ty(r);
        }
      }
    }
  }
  fn konst(&mut self, c: &MConst) {
    match c {
      MConst::Int(i) => self.t(i.to_string()),
      MConst::Zero(_) => self.t("zeroinit"),
      MConst::Undef(_) => self.t("undef"),
      MConst::Agg(v) => {
        self.t("{");
        for (i, e) in v.iter().enumerate() {
          if i > 0 {
            self.t(",");
          }
          self.konst(e);
        }
        self.t("}");
      }
    }
  }
}

struct Names {
  globals: Vec<String>,
  params: Vec<String>,
  bbs: Vec<String>,
  bparams: Vec<Vec<String>>,
  insts: Vec<Vec<String>>,
}

fn fresh(n: &Option<String>, ctr: &mut usize) -> String {
  match n {
    Some(n) => n.clone(),
    None => {
      *ctr += 1;
      format!("%{}", *ctr - 1)
    }
  }
}

pub fn tokens(m: &MProg) -> Vec<Tok> {
  let mut r = R { out: vec![] };
  let mut gctr = 900;
  let globals: Vec<String> = m.globals.iter().map(|g| fresh(&g.name, &mut gctr)).collect();
  for (g, n) in m.globals.iter().zip(&globals) {
    r.t("global");
    r.t(n.clone());
    r.t("=");
    r.t("alloc");
    r.ty(&g.init.ty());
    r.t(",");
    r.konst(&g.init);
  }
  for f in &m.funcs {
    let Some(bbs) = &f.bbs else {
      r.t("decl");
      r.t(f.name.clone());
      r.t("(");
      for (i, (_, t)) in f.params.iter().enumerate() {
        if i > 0 {
          r.t(",");
        }
        r.ty(t);
      }
      r.t(")");
      if f.ret != Ty::Unit {
        r.t(":");
        r.ty(&f.ret);
      }
      continue;
    };
    let mut c = 0;
    let mut bc = 0;
    let nm = Names {
      globals: globals.clone(),
      params: f.params.iter().map(|p| fresh(&p.0, &mut c)).collect(),
      bbs: bbs.iter().map(|b| fresh(&b.name, &mut bc)).collect(),
      bparams: bbs.iter().map(|b| b.params.iter().map(|p| fresh(&p.0, &mut c)).collect()).collect(),
      insts: bbs
        .iter()
        .map(|b| b.insts.iter().map(|i| if i.ty == Ty::Unit { String::new() } else { fresh(&i.name, &mut c) }).collect())
        .collect(),
    };
    let plist = |r: &mut R, names: &[String], ps: &[(Option<String>, Ty)]| {
      r.t("(");
      for (i, (n, (_, t))) in names.iter().zip(ps).enumerate() {
        if i > 0 {
          r.t(",");
        }
        r.t(n.clone());
        r.t(":");
        r.ty(t);
      }
      r.t(")");
    };
    r.t("fun");
    r.t(f.name.clone());
    plist(&mut r, &nm.params, &f.params);
    if f.ret != Ty::Unit {
      r.t(":");
      r.ty(&f.ret);
    }
    r.t("{");
    let val = |r: &mut R, v: &MVal| match v {
      MVal::Const(c) => r.konst(c),
      MVal::Global(g) => r.t(nm.globals[*g].clone()),
      MVal::Param(i) => r.t(nm.params[*i].clone()),
      MVal::BParam(b, i) => r.t(nm.bparams[*b][*i].clone()),
      MVal::Inst(b, i) => r.t(nm.insts[*b][*i].clone()),
    };
    let args = |r: &mut R, a: &[MVal], always: bool| {
      if a.is_empty() && !always {
        return;
      }
      r.t("(");
      for (i, v) in a.iter().enumerate() {
        if i > 0 {
          r.t(",");
        }
        val(r, v);
      }
      r.t(")");
    };
    for (bi, b) in bbs.iter().enumerate() {
      r.t(nm.bbs[bi].clone());
      if !b.params.is_empty() {
        plist(&mut r, &nm.bparams[bi], &b.params);
      }
      r.t(":");
      for (ii, i) in b.insts.iter().enumerate() {
        if i.ty != Ty::Unit {
          r.t(nm.insts[bi][ii].clone());
          r.t("=");
        }
        match &i.op {
          MOp::Alloc(t) => {
            r.t("alloc");
            r.ty(t);
          }
          MOp::Load(a) => {
            r.t("load");
            val(&mut r, a);
          }
          MOp::Store(a, b) => {
            r.t("store");
            val(&mut r, a);
            r.t(",");
            val(&mut r, b);
          }
          MOp::GetPtr(a, b) => {
            r.t("getptr");
            val(&mut r, a);
            r.t(",");
            val(&mut r, b);
          }
          MOp::GetElemPtr(a, b) => {
            r.t("getelemptr");
            val(&mut r, a);
            r.t(",");
            val(&mut r, b);
          }
          MOp::Bin(o, a, b) => {
            r.t(BINOPS[*o]);
            val(&mut r, a);
            r.t(",");
            val(&mut r, b);
          }
          MOp::Br(c, t, ta, f, fa) => {
            r.t("br");
            val(&mut r, c);
            r.t(",");
            r.t(nm.bbs[*t].clone());
            args(&mut r, ta, false);
            r.t(",");
            r.t(nm.bbs[*f].clone());
            args(&mut r, fa, false);
          }
          MOp::Jump(t, a) => {
            r.t("jump");
            r.t(nm.bbs[*t].clone());
            args(&mut r, a, false);
          }
          MOp::Call(c, a) => {
            r.t("call");
            r.t(m.funcs[*c].name.clone());
            args(&mut r, a, true);
          }
          MOp::Ret(v) => {
            r.t("ret");
            match v {
              Some(v) => {
                r.out.last_mut().unwrap().next = 1;
                val(&mut r, v);
              }
              None => r.out.last_mut().unwrap().next = 2,
            }
          }
        }
      }
    }
    r.t("}");
  }
  r.out
}

/// One blank between tokens, a line break where one is needed and before
/// words that start a statement.
pub fn join(t: &[Tok]) -> String {
  let mut s = String::new();
  for (i, k) in t.iter().enumerate() {
    s += &k.s;
    if i + 1 < t.len() {
      let n = &t[i + 1].s;
      let stmt = matches!(n.as_str(), "global" | "fun" | "decl" | "store" | "br" | "jump" | "ret" | "}") && k.next != 1;
      s.push(if k.next == 2 || (stmt && k.s != "," && !(n == "}" && k.s != "ret" && inside_agg(t, i))) { '\n' } else { ' ' });
    }
  }
  s.push('\n');
  s
}

fn inside_agg(t: &[Tok], i: usize) -> bool {
  let mut d = 0;
  for k in t[..=i].iter().rev() {
    if k.s == "}" {
      d += 1;
    }
    if k.s == "{" {
      if d == 0 {
        return true;
      }
      d -= 1;
    }
    if matches!(k.s.as_str(), "ret" | "jump" | "br") {
      return false;
    }
  }
  false
}

pub fn text(m: &MProg) -> String {
  join(&tokens(m))
}
