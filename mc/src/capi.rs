//! The real C library, driven through the C client (c/client.c), and the word
//! format in which the client hands over what it sees.
use crate::model::*;
use crate::sys;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::ffi::{CString, c_char, c_int, c_void};

pub type Ptr = *mut c_void;

macro_rules! api {
  ($($n:ident: fn($($t:ty),*) $(-> $r:ty)?;)*) => {
    #[derive(Clone, Copy)]
    pub struct Api { $(pub $n: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
    fn load() -> Api {
      let open = |var: &str| {
        let p = std::env::var(var).unwrap_or_else(|_| panic!("{var} is not set"));
        let c = CString::new(p).unwrap();
        // lazily bound, global
        let h = unsafe { sys::dlopen(c.as_ptr(), 0x101) };
        assert!(!h.is_null(), "cannot open {var}: {}", unsafe { std::ffi::CStr::from_ptr(sys::dlerror()) }.to_string_lossy());
        h
      };
      open("KMC_LIBKOOPA");
      let h = open("KMC_CCLIENT");
      let s = |n: &str| {
        let c = CString::new(format!("kc_{n}")).unwrap();
        let p = unsafe { sys::dlsym(h, c.as_ptr()) };
        assert!(!p.is_null(), "no kc_{n}");
        p
      };
      Api { $($n: unsafe { std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($t),*) $(-> $r)?>(s(stringify!($n))) },)* }
    }
  };
}

api! {
  parse_file: fn(*const c_char, *mut Ptr) -> c_int;
  parse_string: fn(*const c_char, *mut Ptr) -> c_int;
  parse_stdin: fn(*mut Ptr) -> c_int;
  parse_raw: fn(c_int, *mut Ptr) -> c_int;
  delete_program: fn(Ptr);
  dump_file: fn(c_int, Ptr, *const c_char) -> c_int;
  dump_string: fn(c_int, Ptr, *mut c_char, *mut usize) -> c_int;
  dump_stdout: fn(c_int, Ptr) -> c_int;
  dump_raw: fn(c_int, Ptr, c_int) -> c_int;
  new_builder: fn() -> Ptr;
  delete_builder: fn(Ptr);
  build: fn(Ptr, Ptr) -> Ptr;
  raw_free: fn(Ptr);
  generate: fn(*const c_void, *mut Ptr) -> c_int;
  walk: fn(*const c_void) -> Ptr;
  walk_bad: fn(Ptr) -> c_int;
  walk_words: fn(Ptr, *mut usize) -> *const u64;
  walk_strs: fn(Ptr, *mut usize) -> *const u8;
  walk_free: fn(Ptr);
  assemble: fn(*const u64, usize, *const u64, *const u8) -> Ptr;
  assembled: fn(Ptr) -> *const c_void;
  assembly_free: fn(Ptr);
}

pub fn api() -> &'static Api {
  static A: std::sync::OnceLock<Api> = std::sync::OnceLock::new();
  A.get_or_init(load)
}

// canonical numbers, as in client.c
pub const SUCCESS: i32 = 0;
pub const INVALID_UTF8: i32 = 1;
pub const INVALID_FILE: i32 = 2;
pub const INVALID_PROGRAM: i32 = 3;
pub const IO_ERROR: i32 = 4;
pub const INSUFFICIENT: i32 = 6;
pub const KIND_MISMATCH: i32 = 7;
pub const NULL_POINTER: i32 = 8;
pub const TYPE_MISMATCH: i32 = 9;
pub const PARAM_NUM: i32 = 10;

pub const K_TYPE: u64 = 1;
pub const K_FUNC: u64 = 2;
pub const K_BB: u64 = 3;
pub const K_VALUE: u64 = 4;

/// A list with the kind it claims to hold.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Sl {
  pub kind: u64,
  pub items: Vec<usize>,
}
pub fn sl(kind: u64, items: Vec<usize>) -> Sl {
  Sl { kind, items }
}

/// References are object numbers from 1, 0 is null.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Obj {
  T(RTy),
  F { ty: usize, name: Option<Vec<u8>>, params: Sl, bbs: Sl },
  B { name: Option<Vec<u8>>, params: Sl, used_by: Sl, insts: Sl },
  V { ty: usize, name: Option<Vec<u8>>, used_by: Sl, kind: RVal },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RTy {
  I32,
  Unit,
  Arr(usize, u64),
  Ptr(usize),
  Fun(Sl, usize),
  Bad,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RVal {
  Int(i64),
  Zero,
  Undef,
  Agg(Sl),
  FArg(u64),
  BArg(u64),
  Alloc,
  GAlloc(usize),
  Load(usize),
  Store(usize, usize),
  GetPtr(usize, usize),
  GetElemPtr(usize, usize),
  Bin(u64, usize, usize),
  Br(usize, usize, usize, Sl, Sl),
  Jump(usize, Sl),
  Call(usize, Sl),
  Ret(usize),
  Bad,
}

impl RVal {
  pub fn operands(&self) -> Vec<usize> {
    let v: Vec<usize> = match self {
      RVal::Agg(s) => s.items.clone(),
      RVal::GAlloc(a) | RVal::Load(a) | RVal::Ret(a) => vec![*a],
      RVal::Store(a, b) | RVal::GetPtr(a, b) | RVal::GetElemPtr(a, b) | RVal::Bin(_, a, b) => vec![*a, *b],
      RVal::Br(c, _, _, a, b) => std::iter::once(*c).chain(a.items.iter().copied()).chain(b.items.iter().copied()).collect(),
      RVal::Jump(_, a) | RVal::Call(_, a) => a.items.clone(),
      _ => vec![],
    };
    v.into_iter().filter(|x| *x != 0).collect()
  }
  pub fn targets(&self) -> Vec<usize> {
    match self {
      RVal::Br(_, t, f, ..) => vec![*t, *f],
      RVal::Jump(t, _) => vec![*t],
      _ => vec![],
    }
  }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Img {
  pub values: Sl,
  pub funcs: Sl,
  pub objs: Vec<Obj>,
}

struct Rd<'a> {
  w: &'a [u64],
  s: &'a [u8],
}
impl Rd<'_> {
  fn n(&mut self) -> u64 {
    let x = self.w[0];
    self.w = &self.w[1..];
    x
  }
  fn r(&mut self) -> usize {
    self.n() as usize
  }
  fn sl(&mut self) -> Sl {
    let kind = self.n();
    let n = self.n();
    Sl { kind, items: (0..n).map(|_| self.r()).collect() }
  }
  fn name(&mut self) -> Option<Vec<u8>> {
    let o = self.r();
    (o != 0).then(|| self.s[o - 1..].split(|c| *c == 0).next().unwrap().to_vec())
  }
}

/// What the client sees when it walks `raw`.
pub fn walk(raw: *const c_void) -> Result<Img, String> {
  let a = api();
  unsafe {
    let k = (a.walk)(raw);
    let r = if (a.walk_bad)(k) != 0 {
      Err("the raw program has a list or an object graph without plausible end".to_string())
    } else {
      let mut n = 0;
      let p = (a.walk_words)(k, &mut n);
      let w = std::slice::from_raw_parts(p, n);
      let q = (a.walk_strs)(k, &mut n);
      let s = if n == 0 { &[] } else { std::slice::from_raw_parts(q, n) };
      Ok(decode(w, s))
    };
    (a.walk_free)(k);
    r
  }
}

fn decode(w: &[u64], s: &[u8]) -> Img {
  let mut r = Rd { w, s };
  let values = r.sl();
  let funcs = r.sl();
  let mut objs = vec![];
  while !r.w.is_empty() {
    objs.push(match r.n() {
      1 => Obj::T(match r.n() {
        0 => RTy::I32,
        1 => RTy::Unit,
        2 => RTy::Arr(r.r(), r.n()),
        3 => RTy::Ptr(r.r()),
        4 => RTy::Fun(r.sl(), r.r()),
        _ => RTy::Bad,
      }),
      2 => Obj::F { ty: r.r(), name: r.name(), params: r.sl(), bbs: r.sl() },
      3 => Obj::B { name: r.name(), params: r.sl(), used_by: r.sl(), insts: r.sl() },
      _ => Obj::V {
        ty: r.r(),
        name: r.name(),
        used_by: r.sl(),
        kind: match r.n() {
          0 => RVal::Int(r.n() as i64),
          1 => RVal::Zero,
          2 => RVal::Undef,
          3 => RVal::Agg(r.sl()),
          4 => RVal::FArg(r.n()),
          5 => RVal::BArg(r.n()),
          6 => RVal::Alloc,
          7 => RVal::GAlloc(r.r()),
          8 => RVal::Load(r.r()),
          9 => RVal::Store(r.r(), r.r()),
          10 => RVal::GetPtr(r.r(), r.r()),
          11 => RVal::GetElemPtr(r.r(), r.r()),
          12 => RVal::Bin(r.n(), r.r(), r.r()),
          13 => RVal::Br(r.r(), r.r(), r.r(), r.sl(), r.sl()),
          14 => RVal::Jump(r.r(), r.sl()),
          15 => RVal::Call(r.r(), r.sl()),
          16 => RVal::Ret(r.r()),
          _ => RVal::Bad,
        },
      },
    });
  }
  Img { values, funcs, objs }
}

#[derive(Default)]
struct Wr {
  w: Vec<u64>,
  s: Vec<u8>,
}
impl Wr {
  fn sl(&mut self, s: &Sl) {
    self.w.push(s.kind);
    self.w.push(s.items.len() as u64);
    self.w.extend(s.items.iter().map(|x| *x as u64));
  }
  fn name(&mut self, n: &Option<Vec<u8>>) {
    match n {
      None => self.w.push(0),
      Some(b) => {
        self.w.push(self.s.len() as u64 + 1);
        self.s.extend_from_slice(b);
        self.s.push(0);
      }
    }
  }
}

/// A raw program the client assembled; freed on drop.
pub struct Asm(Ptr, Vec<u8>);
impl Asm {
  pub fn new(i: &Img) -> Asm {
    let mut w = Wr::default();
    w.sl(&i.values);
    w.sl(&i.funcs);
    let mut kinds = vec![];
    for o in &i.objs {
      match o {
        Obj::T(t) => {
          kinds.push(1u64);
          w.w.push(1);
          match t {
            RTy::I32 => w.w.push(0),
            RTy::Unit => w.w.push(1),
            RTy::Arr(b, n) => w.w.extend([2, *b as u64, *n]),
            RTy::Ptr(b) => w.w.extend([3, *b as u64]),
            RTy::Fun(p, r) => {
              w.w.push(4);
              w.sl(p);
              w.w.push(*r as u64);
            }
            RTy::Bad => panic!(),
          }
        }
        Obj::F { ty, name, params, bbs } => {
          kinds.push(2);
          w.w.extend([2, *ty as u64]);
          w.name(name);
          w.sl(params);
          w.sl(bbs);
        }
        Obj::B { name, params, used_by, insts } => {
          kinds.push(3);
          w.w.push(3);
          w.name(name);
          w.sl(params);
          w.sl(used_by);
          w.sl(insts);
        }
        Obj::V { ty, name, used_by, kind } => {
          kinds.push(4);
          w.w.extend([4, *ty as u64]);
          w.name(name);
          w.sl(used_by);
          let e = &mut w;
          match kind {
            RVal::Int(i) => e.w.extend([0, *i as u64]),
            RVal::Zero => e.w.push(1),
            RVal::Undef => e.w.push(2),
            RVal::Agg(s) => {
              e.w.push(3);
              e.sl(s);
            }
            RVal::FArg(i) => e.w.extend([4, *i]),
            RVal::BArg(i) => e.w.extend([5, *i]),
            RVal::Alloc => e.w.push(6),
            RVal::GAlloc(a) => e.w.extend([7, *a as u64]),
            RVal::Load(a) => e.w.extend([8, *a as u64]),
            RVal::Store(a, b) => e.w.extend([9, *a as u64, *b as u64]),
            RVal::GetPtr(a, b) => e.w.extend([10, *a as u64, *b as u64]),
            RVal::GetElemPtr(a, b) => e.w.extend([11, *a as u64, *b as u64]),
            RVal::Bin(o, a, b) => e.w.extend([12, *o, *a as u64, *b as u64]),
            RVal::Br(c, t, f, x, y) => {
              e.w.extend([13, *c as u64, *t as u64, *f as u64]);
              e.sl(x);
              e.sl(y);
            }
            RVal::Jump(t, x) => {
              e.w.extend([14, *t as u64]);
              e.sl(x);
            }
            RVal::Call(t, x) => {
              e.w.extend([15, *t as u64]);
              e.sl(x);
            }
            RVal::Ret(a) => e.w.extend([16, *a as u64]),
            RVal::Bad => panic!(),
          }
        }
      }
    }
    w.s.push(0);
    let a = unsafe { (api().assemble)(kinds.as_ptr(), kinds.len(), w.w.as_ptr(), w.s.as_ptr()) };
    Asm(a, w.s)
  }
  pub fn raw(&self) -> *const c_void {
    unsafe { (api().assembled)(self.0) }
  }
}
impl Drop for Asm {
  fn drop(&mut self) {
    unsafe { (api().assembly_free)(self.0) }
  }
}

/// A program owned by the library; deleted on drop.
pub struct Prog(pub Ptr);
impl Drop for Prog {
  fn drop(&mut self) {
    unsafe { (api().delete_program)(self.0) }
  }
}
pub struct Builder(pub Ptr);
impl Builder {
  pub fn new() -> Builder {
    Builder(unsafe { (api().new_builder)() })
  }
  pub fn build(&self, p: &Prog) -> Raw {
    Raw(unsafe { (api().build)(self.0, p.0) })
  }
}
impl Drop for Builder {
  fn drop(&mut self) {
    unsafe { (api().delete_builder)(self.0) }
  }
}
/// The structure koopa_build_raw_program returned.
pub struct Raw(pub Ptr);
impl Drop for Raw {
  fn drop(&mut self) {
    unsafe { (api().raw_free)(self.0) }
  }
}

/// A result pointer that must keep this value when a call fails.
pub const SENTINEL: usize = 0x5a5a_1234_5a5a_5678;

pub fn outcome(code: i32, out: Ptr) -> Result<Result<Prog, i32>, String> {
  if code == SUCCESS {
    if out as usize == SENTINEL || out.is_null() {
      return Err("success is reported without a program".into());
    }
    Ok(Ok(Prog(out)))
  } else {
    if out as usize != SENTINEL {
      return Err(format!("error code {code} is reported but the caller's program is overwritten"));
    }
    Ok(Err(code))
  }
}

pub fn parse(text: &[u8]) -> Result<Result<Prog, i32>, String> {
  let c = CString::new(text).map_err(|_| "text with a NUL")?;
  let mut out = SENTINEL as Ptr;
  let r = unsafe { (api().parse_string)(c.as_ptr(), &mut out) };
  outcome(r, out)
}

pub fn generate(raw: *const c_void) -> Result<Result<Prog, i32>, String> {
  let mut out = SENTINEL as Ptr;
  let r = unsafe { (api().generate)(raw, &mut out) };
  outcome(r, out)
}

pub fn dump(p: &Prog, f: i32) -> Result<Vec<u8>, String> {
  unsafe {
    let mut n = usize::MAX;
    let r = (api().dump_string)(f, p.0, std::ptr::null_mut(), &mut n);
    if r != SUCCESS || n == usize::MAX {
      return Err(format!("dumping to no buffer reports {r}"));
    }
    let mut b = vec![0u8; n + 1];
    let mut l = b.len();
    let r = (api().dump_string)(f, p.0, b.as_mut_ptr() as *mut c_char, &mut l);
    if r != SUCCESS {
      return Err(format!("dumping to a buffer of the reported size plus one reports {r}"));
    }
    if b.pop() != Some(0) {
      return Err("no terminator after a dump".into());
    }
    Ok(b)
  }
}

// ---- image to model ----

type R<T> = Result<T, String>;

impl Img {
  fn obj(&self, i: usize, what: &str) -> R<&Obj> {
    if i == 0 {
      return Err(format!("{what} is null"));
    }
    self.objs.get(i - 1).ok_or_else(|| "object out of range".to_string())
  }
  pub fn list<'a>(&self, s: &'a Sl, kind: u64, what: &str) -> R<&'a [usize]> {
    if s.kind != kind {
      return Err(format!("the list {what} is tagged {} instead of {kind}", s.kind));
    }
    Ok(&s.items)
  }
  pub fn ty(&self, i: usize, depth: usize) -> R<Ty> {
    if depth > 400 {
      return Err("a type has no end".into());
    }
    match self.obj(i, "a type")? {
      Obj::T(t) => Ok(match t {
        RTy::I32 => Ty::I32,
        RTy::Unit => Ty::Unit,
        RTy::Arr(b, n) => arr(self.ty(*b, depth + 1)?, *n as usize),
        RTy::Ptr(b) => ptr(self.ty(*b, depth + 1)?),
        RTy::Fun(p, r) => Ty::Fun(
          self.list(p, K_TYPE, "parameter types")?.iter().map(|t| self.ty(*t, depth + 1)).collect::<R<_>>()?,
          Box::new(self.ty(*r, depth + 1)?),
        ),
        RTy::Bad => return Err("a type has an unknown tag".into()),
      }),
      _ => Err("a type is something else".into()),
    }
  }
  fn name(&self, n: &Option<Vec<u8>>) -> R<Option<String>> {
    n.as_ref().map(|b| String::from_utf8(b.clone()).map_err(|_| "a name is not UTF-8".to_string())).transpose()
  }
  fn konst(&self, i: usize, depth: usize) -> R<Option<MConst>> {
    if depth > 400 {
      return Err("a constant has no end".into());
    }
    let Obj::V { ty, name, kind, .. } = self.obj(i, "a value")? else { return Err("a value is something else".into()) };
    let t = || self.ty(*ty, 0);
    let c = match kind {
      RVal::Int(v) => MConst::Int(i32::try_from(*v).map_err(|_| "integer out of range")?),
      RVal::Zero => MConst::Zero(t()?),
      RVal::Undef => MConst::Undef(t()?),
      RVal::Agg(s) => {
        let es = self.list(s, K_VALUE, "elements")?;
        if es.is_empty() {
          return Err("an aggregate is empty".into());
        }
        let mut v = vec![];
        for e in es {
          v.push(self.konst(*e, depth + 1)?.ok_or("an aggregate element is no constant")?);
        }
        MConst::Agg(v)
      }
      _ => return Ok(None),
    };
    if c.ty() != t()? {
      return Err(format!("the constant {c:?} has type {}", t()?));
    }
    if name.is_some() {
      return Err("a constant has a name".into());
    }
    Ok(Some(c))
  }

  /// The program the image describes, exactly as laid out.
  pub fn model(&self) -> R<MProg> {
    let mut m = MProg::default();
    let mut place: HashMap<usize, MVal> = HashMap::new();
    for (i, g) in self.list(&self.values, K_VALUE, "globals")?.iter().enumerate() {
      let Obj::V { ty, name, kind: RVal::GAlloc(init), .. } = self.obj(*g, "a global")? else {
        return Err("a global is not a global allocation".into());
      };
      let init = self.konst(*init, 0)?.ok_or("an initializer is no constant")?;
      let t = self.ty(*ty, 0)?;
      if t != ptr(init.ty()) {
        return Err(format!("a global of {init:?} has type {t}"));
      }
      m.globals.push(MGlobal { name: self.name(name)?, init });
      if place.insert(*g, MVal::Global(i)).is_some() {
        return Err("a global is listed twice".into());
      }
    }
    let fs = self.list(&self.funcs, K_FUNC, "functions")?;
    let fidx: HashMap<usize, usize> = fs.iter().enumerate().map(|(i, f)| (*f, i)).collect();
    if fidx.len() != fs.len() {
      return Err("a function is listed twice".into());
    }
    for f in fs {
      let Obj::F { ty, name, params, bbs } = self.obj(*f, "a function")? else { return Err("a function is something else".into()) };
      let Ty::Fun(pt, ret) = self.ty(*ty, 0)? else { return Err("a function has no function type".into()) };
      let ps = self.list(params, K_VALUE, "function parameters")?;
      let bs = self.list(bbs, K_BB, "blocks")?;
      let mut out = MFunc {
        name: self.name(name)?.ok_or("a function has no name")?,
        params: pt.iter().map(|t| (None, t.clone())).collect(),
        ret: *ret,
        bbs: None,
      };
      if bs.is_empty() {
        if !ps.is_empty() && ps.len() != pt.len() {
          return Err(format!("a declaration lists {} parameters of {}", ps.len(), pt.len()));
        }
        m.funcs.push(out);
        continue;
      }
      if ps.len() != pt.len() {
        return Err(format!("a function lists {} parameters of {}", ps.len(), pt.len()));
      }
      for (i, p) in ps.iter().enumerate() {
        let Obj::V { ty, name, kind: RVal::FArg(x), .. } = self.obj(*p, "a parameter")? else {
          return Err("a function parameter is not an argument reference".into());
        };
        if *x as usize != i || self.ty(*ty, 0)? != pt[i] {
          return Err(format!("parameter {i} is argument {x} of type {}", self.ty(*ty, 0)?));
        }
        out.params[i].0 = self.name(name)?;
        if place.insert(*p, MVal::Param(i)).is_some() {
          return Err("a parameter is listed twice".into());
        }
      }
      let bidx: HashMap<usize, usize> = bs.iter().enumerate().map(|(i, b)| (*b, i)).collect();
      if bidx.len() != bs.len() {
        return Err("a block is listed twice".into());
      }
      let mut mb = vec![];
      for (bi, b) in bs.iter().enumerate() {
        let Obj::B { name, params, insts, .. } = self.obj(*b, "a block")? else { return Err("a block is something else".into()) };
        let mut blk = MBlock { name: self.name(name)?, params: vec![], insts: vec![] };
        for (i, p) in self.list(params, K_VALUE, "block parameters")?.iter().enumerate() {
          let Obj::V { ty, name, kind: RVal::BArg(x), .. } = self.obj(*p, "a parameter")? else {
            return Err("a block parameter is not an argument reference".into());
          };
          if *x as usize != i {
            return Err(format!("block parameter {i} is argument {x}"));
          }
          blk.params.push((self.name(name)?, self.ty(*ty, 0)?));
          if place.insert(*p, MVal::BParam(bi, i)).is_some() {
            return Err("a block parameter is listed twice".into());
          }
        }
        for (i, v) in self.list(insts, K_VALUE, "instructions")?.iter().enumerate() {
          self.obj(*v, "an instruction")?;
          if place.insert(*v, MVal::Inst(bi, i)).is_some() {
            return Err("an instruction is listed twice".into());
          }
        }
        mb.push(blk);
      }
      for (bi, b) in bs.iter().enumerate() {
        let Obj::B { insts, .. } = self.obj(*b, "a block")? else { unreachable!() };
        let val = |i: usize| -> R<MVal> {
          if let Some(c) = self.konst(i, 0)? {
            return Ok(MVal::Const(c));
          }
          place.get(&i).cloned().ok_or_else(|| "an operand is an object listed nowhere".to_string())
        };
        let vals = |s: &Sl| -> R<Vec<MVal>> { self.list(s, K_VALUE, "arguments")?.iter().map(|i| val(*i)).collect() };
        let bb = |i: usize| -> R<usize> { bidx.get(&i).copied().ok_or_else(|| "a target is no block of the function".to_string()) };
        for v in &insts.items {
          let Obj::V { ty, name, kind, .. } = self.obj(*v, "an instruction")? else { return Err("an instruction is something else".into()) };
          let t = self.ty(*ty, 0)?;
          let op = match kind {
            RVal::Alloc => MOp::Alloc(t.deref().ok_or("an allocation has no pointer type")?.clone()),
            RVal::Load(a) => MOp::Load(val(*a)?),
            RVal::Store(a, b) => MOp::Store(val(*a)?, val(*b)?),
            RVal::GetPtr(a, b) => MOp::GetPtr(val(*a)?, val(*b)?),
            RVal::GetElemPtr(a, b) => MOp::GetElemPtr(val(*a)?, val(*b)?),
            RVal::Bin(o, a, b) if *o < 17 => MOp::Bin(*o as usize, val(*a)?, val(*b)?),
            RVal::Br(c, x, y, p, q) => MOp::Br(val(*c)?, bb(*x)?, vals(p)?, bb(*y)?, vals(q)?),
            RVal::Jump(x, p) => MOp::Jump(bb(*x)?, vals(p)?),
            RVal::Call(f, p) => MOp::Call(*fidx.get(f).ok_or("a callee is listed nowhere")?, vals(p)?),
            RVal::Ret(0) => MOp::Ret(None),
            RVal::Ret(a) => MOp::Ret(Some(val(*a)?)),
            k => return Err(format!("{k:?} is listed as an instruction")),
          };
          mb[bi].insts.push(MInst { name: self.name(name)?, ty: t, op });
        }
      }
      out.bbs = Some(mb);
      m.funcs.push(out);
      for v in place.extract_if(|_, v| !matches!(v, MVal::Global(_))) {
        let _ = v;
      }
    }
    Ok(m)
  }

  /// Whether the recorded users are exactly the values that mention each
  /// value and block.
  pub fn users(&self) -> R<()> {
    let mut want: BTreeMap<usize, HashSet<usize>> = BTreeMap::new();
    let mut seen = vec![false; self.objs.len() + 1];
    let mut q: Vec<usize> = self.values.items.iter().chain(&self.funcs.items).copied().collect();
    while let Some(i) = q.pop() {
      if i == 0 || std::mem::replace(&mut seen[i], true) {
        continue;
      }
      match self.obj(i, "")? {
        Obj::T(_) => {}
        Obj::F { params, bbs, .. } => q.extend(params.items.iter().chain(&bbs.items)),
        Obj::B { params, insts, .. } => q.extend(params.items.iter().chain(&insts.items)),
        Obj::V { kind, .. } => {
          for o in kind.operands().into_iter().chain(kind.targets()) {
            want.entry(o).or_default().insert(i);
            q.push(o);
          }
        }
      }
    }
    for (i, o) in self.objs.iter().enumerate() {
      let (u, what) = match o {
        Obj::B { used_by, .. } => (used_by, "block"),
        Obj::V { used_by, .. } => (used_by, "value"),
        _ => continue,
      };
      if !seen[i + 1] {
        return Err(format!("a {what} is reached through user lists only"));
      }
      let us = self.list(u, K_VALUE, "used_by")?;
      let set: HashSet<usize> = us.iter().copied().collect();
      if set.len() != us.len() {
        return Err(format!("a {what} lists a user twice"));
      }
      let w = want.remove(&(i + 1)).unwrap_or_default();
      if set != w {
        return Err(format!("a {what} ({}) lists {} users, but {} values mention it", show_obj(o), set.len(), w.len()));
      }
    }
    Ok(())
  }
}

fn show_obj(o: &Obj) -> String {
  match o {
    Obj::B { name, .. } | Obj::V { name, .. } if name.is_some() => String::from_utf8_lossy(name.as_ref().unwrap()).into_owned(),
    Obj::V { kind, .. } => format!("{kind:?}"),
    _ => "unnamed".into(),
  }
}

// ---- model to image ----

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Share {
  /// one object per mention
  None,
  /// one object per constant and function, one per type
  Func,
  /// one object per constant in the whole program
  Prog,
}

struct Asmb<'a> {
  m: &'a MProg,
  objs: Vec<Obj>,
  share: Share,
  tys: HashMap<Ty, usize>,
  consts: HashMap<MConst, usize>,
  ub: u64,
}

impl Asmb<'_> {
  fn add(&mut self, o: Obj) -> usize {
    self.objs.push(o);
    self.objs.len()
  }
  fn ty(&mut self, t: &Ty) -> usize {
    if self.share != Share::None
      && let Some(i) = self.tys.get(t)
    {
      return *i;
    }
    let k = match t {
      Ty::I32 => RTy::I32,
      Ty::Unit => RTy::Unit,
      Ty::Arr(b, n) => RTy::Arr(self.ty(b), *n as u64),
      Ty::Ptr(b) => RTy::Ptr(self.ty(b)),
      Ty::Fun(p, r) => {
        let ps = p.iter().map(|x| self.ty(x)).collect();
        RTy::Fun(sl(K_TYPE, ps), self.ty(r))
      }
    };
    let i = self.add(Obj::T(k));
    self.tys.insert(t.clone(), i);
    i
  }
  fn users(&self) -> Sl {
    sl(self.ub, vec![])
  }
  fn value(&mut self, t: &Ty, n: &Option<String>, kind: RVal) -> usize {
    let ty = self.ty(t);
    let used_by = self.users();
    self.add(Obj::V { ty, name: n.as_ref().map(|s| s.as_bytes().to_vec()), used_by, kind })
  }
  fn konst(&mut self, c: &MConst) -> usize {
    if self.share != Share::None
      && let Some(i) = self.consts.get(c)
    {
      return *i;
    }
    let k = match c {
      MConst::Int(i) => RVal::Int(*i as i64),
      MConst::Zero(_) => RVal::Zero,
      MConst::Undef(_) => RVal::Undef,
      MConst::Agg(v) => {
        let es = v.iter().map(|e| self.konst(e)).collect();
        RVal::Agg(sl(K_VALUE, es))
      }
    };
    let i = self.value(&c.ty(), &None, k);
    self.consts.insert(c.clone(), i);
    i
  }
}

/// The raw program a C client would assemble for `m`. `ub`: the kind of the
/// empty user lists.
pub fn assemble(m: &MProg, share: Share, ub: u64) -> Img {
  let mut a = Asmb { m, objs: vec![], share, tys: HashMap::new(), consts: HashMap::new(), ub };
  let mut gs = vec![];
  for g in &a.m.globals {
    let i = a.konst(&g.init);
    gs.push(a.value(&ptr(g.init.ty()), &g.name, RVal::GAlloc(i)));
  }
  // functions first, so that callees have numbers
  let mut fs = vec![];
  for f in &m.funcs {
    let ty = a.ty(&f.fty());
    fs.push(a.add(Obj::F { ty, name: Some(f.name.as_bytes().to_vec()), params: sl(K_VALUE, vec![]), bbs: sl(K_BB, vec![]) }));
  }
  for (fi, f) in m.funcs.iter().enumerate() {
    if a.share == Share::Func {
      a.consts.clear();
    }
    let Some(bbs) = &f.bbs else { continue };
    let ps: Vec<usize> = f.params.iter().enumerate().map(|(i, p)| a.value(&p.1, &p.0, RVal::FArg(i as u64))).collect();
    let mut bs = vec![];
    let mut bps = vec![];
    let mut ins: Vec<Vec<usize>> = vec![];
    for b in bbs {
      let p: Vec<usize> = b.params.iter().enumerate().map(|(i, p)| a.value(&p.1, &p.0, RVal::BArg(i as u64))).collect();
      let is: Vec<usize> = b.insts.iter().map(|i| a.value(&i.ty, &i.name, RVal::Alloc)).collect();
      let used_by = a.users();
      bs.push(a.add(Obj::B {
        name: b.name.as_ref().map(|s| s.as_bytes().to_vec()),
        params: sl(K_VALUE, p.clone()),
        used_by,
        insts: sl(K_VALUE, is.clone()),
      }));
      bps.push(p);
      ins.push(is);
    }
    for (bi, b) in bbs.iter().enumerate() {
      for (ii, i) in b.insts.iter().enumerate() {
        let mut val = |v: &MVal| match v {
          MVal::Const(c) => a.konst(c),
          MVal::Global(g) => gs[*g],
          MVal::Param(p) => ps[*p],
          MVal::BParam(b, p) => bps[*b][*p],
          MVal::Inst(b, i) => ins[*b][*i],
        };
        let mut vals = |s: &[MVal]| sl(K_VALUE, s.iter().map(&mut val).collect());
        let k = match &i.op {
          MOp::Alloc(_) => RVal::Alloc,
          MOp::Load(x) => RVal::Load(val(x)),
          MOp::Store(x, y) => RVal::Store(val(x), val(y)),
          MOp::GetPtr(x, y) => RVal::GetPtr(val(x), val(y)),
          MOp::GetElemPtr(x, y) => RVal::GetElemPtr(val(x), val(y)),
          MOp::Bin(o, x, y) => RVal::Bin(*o as u64, val(x), val(y)),
          MOp::Br(c, t, p, f, q) => {
            let c = vals(std::slice::from_ref(c)).items[0];
            RVal::Br(c, bs[*t], bs[*f], vals(p), vals(q))
          }
          MOp::Jump(t, p) => RVal::Jump(bs[*t], vals(p)),
          MOp::Call(f, p) => RVal::Call(fs[*f], vals(p)),
          MOp::Ret(None) => RVal::Ret(0),
          MOp::Ret(Some(v)) => RVal::Ret(val(v)),
        };
        let Obj::V { kind, .. } = &mut a.objs[ins[bi][ii] - 1] else { unreachable!() };
        *kind = k;
      }
    }
    let Obj::F { params, bbs, .. } = &mut a.objs[fs[fi] - 1] else { unreachable!() };
    *params = sl(K_VALUE, ps);
    *bbs = sl(K_BB, bs);
  }
  Img { values: sl(K_VALUE, gs), funcs: sl(K_FUNC, fs), objs: a.objs }
}
