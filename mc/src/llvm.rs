//! The installed LLVM library, loaded at run time: parsing and verifying the
//! text form, and reading the parsed module into plain data.
use crate::model::Ty;
use crate::sys;
use std::collections::HashMap;
use std::ffi::{CStr, CString, c_char, c_int, c_uint, c_void};

type P = *mut c_void;

macro_rules! api {
  ($($n:ident: fn($($t:ty),*) $(-> $r:ty)?;)*) => {
    #[allow(non_snake_case)]
    struct Api { $($n: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
    impl Api {
      fn load() -> Result<Api, String> {
        let mut h = std::ptr::null_mut();
        for l in [c"libLLVM.so.18.1", c"/usr/lib/llvm-18/lib/libLLVM.so.1", c"libLLVM-18.so"] {
          h = unsafe { sys::dlopen(l.as_ptr(), 2) };
          if !h.is_null() {
            break;
          }
        }
        if h.is_null() {
          return Err("libLLVM 18 is not installed".into());
        }
        Ok(Api { $($n: unsafe {
          let s = sys::dlsym(h, CString::new(stringify!($n)).unwrap().as_ptr());
          if s.is_null() {
            return Err(concat!(stringify!($n), " is missing").into());
          }
          std::mem::transmute::<P, unsafe extern "C" fn($($t),*) $(-> $r)?>(s)
        },)* })
      }
    }
  };
}

api! {
  LLVMContextCreate: fn() -> P;
  LLVMContextDispose: fn(P);
  LLVMCreateMemoryBufferWithMemoryRangeCopy: fn(*const c_char, usize, *const c_char) -> P;
  LLVMParseIRInContext: fn(P, P, *mut P, *mut *mut c_char) -> c_int;
  LLVMVerifyModule: fn(P, c_int, *mut *mut c_char) -> c_int;
  LLVMDisposeModule: fn(P);
  LLVMDisposeMessage: fn(*mut c_char);
  LLVMGetFirstFunction: fn(P) -> P;
  LLVMGetNextFunction: fn(P) -> P;
  LLVMGetFirstGlobal: fn(P) -> P;
  LLVMGetNextGlobal: fn(P) -> P;
  LLVMGetInitializer: fn(P) -> P;
  LLVMGlobalGetValueType: fn(P) -> P;
  LLVMGetValueName2: fn(P, *mut usize) -> *const c_char;
  LLVMCountParams: fn(P) -> c_uint;
  LLVMGetParam: fn(P, c_uint) -> P;
  LLVMGetReturnType: fn(P) -> P;
  LLVMGetFirstBasicBlock: fn(P) -> P;
  LLVMGetNextBasicBlock: fn(P) -> P;
  LLVMBasicBlockAsValue: fn(P) -> P;
  LLVMValueAsBasicBlock: fn(P) -> P;
  LLVMGetFirstInstruction: fn(P) -> P;
  LLVMGetNextInstruction: fn(P) -> P;
  LLVMGetInstructionOpcode: fn(P) -> c_int;
  LLVMGetNumOperands: fn(P) -> c_int;
  LLVMGetOperand: fn(P, c_uint) -> P;
  LLVMTypeOf: fn(P) -> P;
  LLVMGetTypeKind: fn(P) -> c_int;
  LLVMGetIntTypeWidth: fn(P) -> c_uint;
  LLVMGetArrayLength2: fn(P) -> u64;
  LLVMGetElementType: fn(P) -> P;
  LLVMGetICmpPredicate: fn(P) -> c_int;
  LLVMGetAllocatedType: fn(P) -> P;
  LLVMGetGEPSourceElementType: fn(P) -> P;
  LLVMConstIntGetSExtValue: fn(P) -> i64;
  LLVMIsAConstantInt: fn(P) -> P;
  LLVMIsConstant: fn(P) -> c_int;
  LLVMIsUndef: fn(P) -> c_int;
  LLVMIsNull: fn(P) -> c_int;
  LLVMGetAggregateElement: fn(P, c_uint) -> P;
  LLVMIsAGlobalVariable: fn(P) -> P;
  LLVMIsAFunction: fn(P) -> P;
  LLVMGetCalledValue: fn(P) -> P;
  LLVMGetNumArgOperands: fn(P) -> c_uint;
  LLVMCountIncoming: fn(P) -> c_uint;
  LLVMGetIncomingValue: fn(P, c_uint) -> P;
  LLVMGetIncomingBlock: fn(P, c_uint) -> P;
  LLVMGetNumSuccessors: fn(P) -> c_uint;
  LLVMGetSuccessor: fn(P, c_uint) -> P;
  LLVMGetNSW: fn(P) -> c_int;
  LLVMGetNUW: fn(P) -> c_int;
  LLVMGetExact: fn(P) -> c_int;
}

/// Types as LLVM sees them.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum LTy {
  Int(u32),
  Ptr,
  Arr(Box<LTy>, usize),
  Void,
  Other(i32),
}
impl LTy {
  pub fn of(t: &Ty) -> LTy {
    match t {
      Ty::I32 => LTy::Int(32),
      Ty::Unit => LTy::Void,
      Ty::Arr(b, n) => LTy::Arr(Box::new(LTy::of(b)), *n),
      Ty::Ptr(_) | Ty::Fun(..) => LTy::Ptr,
    }
  }
  pub fn size(&self) -> usize {
    match self {
      LTy::Int(_) => 4,
      LTy::Ptr => 8,
      LTy::Arr(b, n) => b.size() * n,
      _ => 0,
    }
  }
}

#[derive(Clone, Debug)]
pub enum LVal {
  Int(i64),
  Null(LTy),
  Undef(LTy),
  Agg(Vec<LVal>),
  Global(usize),
  Func(usize),
  Param(usize),
  /// block, instruction
  Inst(usize, usize),
  Other,
}

#[derive(Clone, Debug)]
pub struct LInst {
  pub op: i32,
  pub ty: LTy,
  pub name: String,
  /// types the instruction names: allocated type, element type of a pointer
  /// computation
  pub ety: LTy,
  pub pred: i32,
  /// nsw 1, nuw 2, exact 4
  pub flags: u8,
  pub args: Vec<LVal>,
  pub bbs: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct LFunc {
  pub name: String,
  pub params: Vec<(String, LTy)>,
  pub ret: LTy,
  pub bbs: Vec<(String, Vec<LInst>)>,
}

#[derive(Clone, Debug)]
pub struct LMod {
  pub globals: Vec<(String, LTy, LVal)>,
  pub funcs: Vec<LFunc>,
}

thread_local! {
  static API: Result<Api, String> = Api::load();
}

/// Parses and verifies; Err carries LLVM's message.
pub fn parse(text: &[u8]) -> Result<LMod, String> {
  API.with(|a| match a {
    Ok(a) => unsafe { parse_with(a, text) },
    Err(e) => panic!("ENGINE: {e}"),
  })
}

struct Rd<'a> {
  a: &'a Api,
  glob: HashMap<usize, usize>,
  func: HashMap<usize, usize>,
  loc: HashMap<usize, LVal>,
}

unsafe fn parse_with(a: &Api, text: &[u8]) -> Result<LMod, String> {
  unsafe {
    let ctx = (a.LLVMContextCreate)();
    let buf = (a.LLVMCreateMemoryBufferWithMemoryRangeCopy)(text.as_ptr() as *const c_char, text.len(), c"t".as_ptr());
    let mut m: P = std::ptr::null_mut();
    let mut msg: *mut c_char = std::ptr::null_mut();
    let take = |msg: *mut c_char| {
      if msg.is_null() {
        return String::new();
      }
      let s = CStr::from_ptr(msg).to_string_lossy().into_owned();
      (a.LLVMDisposeMessage)(msg);
      s
    };
    if (a.LLVMParseIRInContext)(ctx, buf, &mut m, &mut msg) != 0 {
      let s = take(msg);
      (a.LLVMContextDispose)(ctx);
      return Err(format!("LLVM rejects the text: {s}"));
    }
    let mut msg: *mut c_char = std::ptr::null_mut();
    let bad = (a.LLVMVerifyModule)(m, 2, &mut msg) != 0;
    let s = take(msg);
    let r = if bad { Err(format!("LLVM's verifier rejects the module: {s}")) } else { Ok(Rd { a, glob: HashMap::new(), func: HashMap::new(), loc: HashMap::new() }.module(m)) };
    (a.LLVMDisposeModule)(m);
    (a.LLVMContextDispose)(ctx);
    r
  }
}

impl Rd<'_> {
  unsafe fn name(&self, v: P) -> String {
    unsafe {
      let mut n = 0;
      let p = (self.a.LLVMGetValueName2)(v, &mut n);
      String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
  }
  unsafe fn ty(&self, t: P) -> LTy {
    unsafe {
      match (self.a.LLVMGetTypeKind)(t) {
        0 => LTy::Void,
        8 => LTy::Int((self.a.LLVMGetIntTypeWidth)(t)),
        11 => LTy::Arr(Box::new(self.ty((self.a.LLVMGetElementType)(t))), (self.a.LLVMGetArrayLength2)(t) as usize),
        12 => LTy::Ptr,
        k => LTy::Other(k),
      }
    }
  }
  unsafe fn val(&self, v: P) -> LVal {
    unsafe {
      let a = self.a;
      if let Some(g) = self.glob.get(&(v as usize)) {
        return LVal::Global(*g);
      }
      if let Some(g) = self.func.get(&(v as usize)) {
        return LVal::Func(*g);
      }
      if let Some(l) = self.loc.get(&(v as usize)) {
        return l.clone();
      }
      if (a.LLVMIsConstant)(v) == 0 {
        return LVal::Other;
      }
      let t = self.ty((a.LLVMTypeOf)(v));
      if (a.LLVMIsUndef)(v) != 0 {
        return LVal::Undef(t);
      }
      if !(a.LLVMIsAConstantInt)(v).is_null() {
        return LVal::Int((a.LLVMConstIntGetSExtValue)(v));
      }
      if (a.LLVMIsNull)(v) != 0 {
        return LVal::Null(t);
      }
      if let LTy::Arr(_, n) = t {
        let mut e = vec![];
        for i in 0..n {
          let x = (a.LLVMGetAggregateElement)(v, i as c_uint);
          if x.is_null() {
            return LVal::Other;
          }
          e.push(self.val(x));
        }
        return LVal::Agg(e);
      }
      LVal::Other
    }
  }
  unsafe fn module(mut self, m: P) -> LMod {
    unsafe {
      let a = self.a;
      let mut gs = vec![];
      let mut g = (a.LLVMGetFirstGlobal)(m);
      while !g.is_null() {
        self.glob.insert(g as usize, gs.len());
        gs.push(g);
        g = (a.LLVMGetNextGlobal)(g);
      }
      let mut fs = vec![];
      let mut f = (a.LLVMGetFirstFunction)(m);
      while !f.is_null() {
        self.func.insert(f as usize, fs.len());
        fs.push(f);
        f = (a.LLVMGetNextFunction)(f);
      }
      let globals = gs
        .iter()
        .map(|g| {
          let i = (a.LLVMGetInitializer)(*g);
          (self.name(*g), self.ty((a.LLVMGlobalGetValueType)(*g)), if i.is_null() { LVal::Other } else { self.val(i) })
        })
        .collect();
      let mut funcs = vec![];
      for f in fs {
        self.loc.clear();
        let ft = (a.LLVMGlobalGetValueType)(f);
        let mut params = vec![];
        for i in 0..(a.LLVMCountParams)(f) {
          let p = (a.LLVMGetParam)(f, i);
          params.push((self.name(p), self.ty((a.LLVMTypeOf)(p))));
          self.loc.insert(p as usize, LVal::Param(i as usize));
        }
        let mut bh = vec![];
        let mut bi = HashMap::new();
        let mut b = (a.LLVMGetFirstBasicBlock)(f);
        while !b.is_null() {
          bi.insert(b as usize, bh.len());
          let mut is = vec![];
          let mut i = (a.LLVMGetFirstInstruction)(b);
          while !i.is_null() {
            self.loc.insert(i as usize, LVal::Inst(bh.len(), is.len()));
            is.push(i);
            i = (a.LLVMGetNextInstruction)(i);
          }
          bh.push((b, is));
          b = (a.LLVMGetNextBasicBlock)(b);
        }
        let mut bbs = vec![];
        for (b, is) in &bh {
          let mut out = vec![];
          for i in is {
            let op = (a.LLVMGetInstructionOpcode)(*i);
            let mut args = vec![];
            let mut tgt = vec![];
            match op {
              44 => {
                for k in 0..(a.LLVMCountIncoming)(*i) {
                  args.push(self.val((a.LLVMGetIncomingValue)(*i, k)));
                  tgt.push(bi[&((a.LLVMGetIncomingBlock)(*i, k) as usize)]);
                }
              }
              45 => {
                args.push(self.val((a.LLVMGetCalledValue)(*i)));
                for k in 0..(a.LLVMGetNumArgOperands)(*i) {
                  args.push(self.val((a.LLVMGetOperand)(*i, k)));
                }
              }
              2 => {
                let n = (a.LLVMGetNumSuccessors)(*i);
                if n == 2 {
                  args.push(self.val((a.LLVMGetOperand)(*i, 0)));
                }
                for k in 0..n {
                  tgt.push(bi[&((a.LLVMGetSuccessor)(*i, k) as usize)]);
                }
              }
              _ => {
                for k in 0..(a.LLVMGetNumOperands)(*i) {
                  args.push(self.val((a.LLVMGetOperand)(*i, k as c_uint)));
                }
              }
            }
            out.push(LInst {
              op,
              ty: self.ty((a.LLVMTypeOf)(*i)),
              name: self.name(*i),
              ety: match op {
                26 => self.ty((a.LLVMGetAllocatedType)(*i)),
                29 => self.ty((a.LLVMGetGEPSourceElementType)(*i)),
                28 => self.ty((a.LLVMTypeOf)((a.LLVMGetOperand)(*i, 0))),
                _ => LTy::Void,
              },
              pred: if op == 42 { (a.LLVMGetICmpPredicate)(*i) } else { 0 },
              flags: match op {
                8 | 10 | 12 | 20 => ((a.LLVMGetNSW)(*i) | (a.LLVMGetNUW)(*i) << 1) as u8,
                14 | 15 | 21 | 22 => ((a.LLVMGetExact)(*i) << 2) as u8,
                _ => 0,
              },
              args,
              bbs: tgt,
            });
          }
          bbs.push((self.name((a.LLVMBasicBlockAsValue)(*b)), out));
        }
        funcs.push(LFunc { name: self.name(f), params, ret: self.ty((a.LLVMGetReturnType)(ft)), bbs });
      }
      LMod { globals, funcs }
    }
  }
}
