//! C01 to C06: the C library, through a C client compiled against its header.
use super::back::{koopa_text, llvm_text};
use super::front;
use crate::capi::*;
use crate::model::*;
use crate::r#gen;
use crate::render;
use crate::sup::{CheckDef, Ctx, hash64};
use crate::sys;
use crate::{extract, mk};
use std::ffi::{CString, c_char, c_void};

pub fn defs() -> Vec<CheckDef> {
  vec![
    CheckDef {
      id: "C01",
      level: "exploration",
      rule: "raw forms of enumerated programs, walked by a C program through the published header; distinct = distinct images compared object by object with the model",
      run: c01,
      assumptions: &["the C client and the library are compiled for this platform only"],
    },
    CheckDef {
      id: "C02",
      level: "exploration",
      rule: "enumerated programs converted to raw form and back, and the raw programs a C client assembles for models no text describes; distinct = distinct programs obtained and compared",
      run: c02,
      assumptions: &["raw programs in which a value is mentioned by itself through operands only are not judged: no order of creation exists for them"],
    },
    CheckDef {
      id: "C03",
      level: "exploration",
      rule: "every program of a corpus in both formats dumped to buffers of every length with guard bytes around; distinct = distinct (text, length) pairs",
      run: c03,
      assumptions: &["the checking allocator (c/qmalloc.c) reports writes next to heap blocks"],
    },
    CheckDef {
      id: "C04",
      level: "exploration",
      rule: "every entry point with every class of unusable input, and every single corruption of the fields of raw programs; distinct = distinct inputs answered with an error code",
      run: c04,
      assumptions: &["operands that belong to no list are not judged: the header has no error for them"],
    },
    CheckDef {
      id: "C05",
      level: "model_checking",
      rule: "all histories of build, delete, parse, convert and dump over two builders and three programs; state = which programs and builders are alive and which programs each builder has built",
      run: c05,
      assumptions: &["freed memory is filled and kept aside by the checking allocator (c/qmalloc.c), so that a use after free shows as a changed image or a fault"],
    },
    CheckDef {
      id: "C06",
      level: "exploration",
      rule: "a corpus of texts read from every source and written to every destination; distinct = distinct (text, source, destination, format) outcomes",
      run: c06,
      assumptions: &["descriptors handed to the library are closed by it (undocumented); the client hands over duplicates"],
    },
  ]
}

/// The image of a program, checked against `want` entity by entity.
fn image(p: &Prog, b: &Builder, want: Option<&MProg>) -> Result<Img, String> {
  let raw = b.build(p);
  let i = walk(raw.0)?;
  check_image(&i, want)?;
  Ok(i)
}

fn check_image(i: &Img, want: Option<&MProg>) -> Result<MProg, String> {
  let m = i.model()?;
  if let Some(w) = want
    && let Some(d) = diff(w, &m)
  {
    return Err(format!("the raw program is not the program: {d}"));
  }
  i.users()?;
  Ok(m)
}

fn parse_ok(t: &[u8]) -> Result<Prog, String> {
  parse(t)?.map_err(|c| format!("a well-formed text is refused with code {c}"))
}

/// What the reader makes of a text, block order and all.
fn exact(t: &[u8]) -> Option<MProg> {
  extract::extract(&front::read(t)?).ok()
}

fn each_text(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &MProg, &str) -> Result<(), String>) {
  let q = ctx.quick();
  let cp: *mut Ctx = ctx;
  // SAFETY: `programs` only reads the tier
  let c: &mut Ctx = unsafe { &mut *cp };
  let mut one = |m: &MProg| {
    if !c.mine_next() {
      c.skip();
      return;
    }
    let t = render::text(m);
    c.case(|| t.clone(), |ctx| f(ctx, m, &t));
  };
  front::programs(ctx, true, false, &mut one);
  big(q, true, &mut one);
}

/// Models that no text describes: functions that call later ones, blocks in
/// any order, unreachable blocks, empty names.
fn each_model(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &MProg) -> Result<(), String>) {
  let q = ctx.quick();
  let cp: *mut Ctx = ctx;
  // SAFETY: `programs` only reads the tier
  let c: &mut Ctx = unsafe { &mut *cp };
  let mut one = |m: &MProg| {
    if !c.mine_next() {
      c.skip();
      return;
    }
    c.case(|| show(m), |ctx| f(ctx, m));
  };
  front::programs(ctx, true, true, &mut one);
  big(q, false, &mut one);
  orders(q, &mut one);
  big(q, true, &mut one);
}

fn show(m: &MProg) -> String {
  let s = format!("{m:?}");
  if s.len() > 4000 { format!("{} ... ({} bytes, {:x})", &s[..4000], s.len(), hash64(s.as_bytes())) } else { s }
}

/// Graphs large enough to expose recursion over blocks, functions or values.
fn big(quick: bool, text: bool, out: r#gen::Out) {
  use r#gen::*;
  for n in if quick { vec![3000, 30000] } else { vec![3000, 30000, 100000] } {
    // a chain of blocks; for text in order, otherwise also in reverse
    for rev in [false, true] {
      if rev && text {
        continue;
      }
      let mut p = PB::new();
      let f = p.fun("@f", &[(Some("@x"), Ty::I32)], Ty::I32);
      for _ in 0..n {
        p.block(f, None, &[]);
      }
      // values used in the block after the one that defines them
      let mut v = MVal::Param(0);
      let at = |i: usize| if rev && i > 0 { n - i } else { i };
      for i in 0..n {
        v = p.inst(f, at(i), None, MOp::Bin(6, v, int(1)));
        if i + 1 < n {
          p.inst(f, at(i), None, MOp::Jump(at(i + 1), vec![]));
        }
      }
      p.inst(f, at(n - 1), None, MOp::Ret(Some(v)));
      out(&p.p);
    }
    // a chain of functions
    let n = n.min(50000);
    for rev in [false, true] {
      if rev && text {
        continue;
      }
      let mut p = PB::new();
      for i in 0..n {
        let f = p.fun(&format!("@f{i}"), &[], Ty::Unit);
        p.block(f, None, &[]);
      }
      for i in 0..n {
        let c = if rev { i + 1 } else { i.wrapping_sub(1) };
        if c < n {
          p.inst(i, 0, None, MOp::Call(c, vec![]));
        }
        p.inst(i, 0, None, MOp::Ret(None));
      }
      out(&p.p);
    }
  }
}

/// Small programs in every order of their blocks and functions.
fn orders(quick: bool, out: r#gen::Out) {
  use r#gen::*;
  // a loop with values that cross blocks; every order of the blocks but the
  // first
  let mut p = PB::new();
  p.global(Some("@g"), MConst::Int(3));
  let f = p.fun("@f", &[(Some("@x"), Ty::I32)], Ty::I32);
  p.block(f, Some("%entry"), &[]);
  let h = p.block(f, Some("%h"), &[(Some("%i"), Ty::I32)]);
  let b = p.block(f, None, &[]);
  let l = p.block(f, Some("@l"), &[(None, Ty::I32), (Some("@p"), ptr(Ty::I32))]);
  let e = p.block(f, Some("%e"), &[]);
  let a = p.inst(f, 0, Some("%a"), MOp::Alloc(Ty::I32));
  p.inst(f, 0, None, MOp::Jump(h, vec![MVal::Param(0)]));
  let c = p.inst(f, h, None, MOp::Bin(2, MVal::BParam(h, 0), int(0)));
  p.inst(f, h, None, MOp::Br(c.clone(), b, vec![], e, vec![]));
  let s = p.inst(f, b, Some("%s"), MOp::Bin(7, MVal::BParam(h, 0), int(1)));
  p.inst(f, b, None, MOp::Br(s.clone(), l, vec![s.clone(), a.clone()], e, vec![]));
  p.inst(f, l, None, MOp::Store(MVal::BParam(l, 0), MVal::BParam(l, 1)));
  p.inst(f, l, None, MOp::Jump(h, vec![s]));
  let r = p.inst(f, e, None, MOp::Load(a));
  let r = p.inst(f, e, None, MOp::Bin(6, r, c));
  p.inst(f, e, None, MOp::Ret(Some(r)));
  let base = p.p;
  let mut perms = vec![];
  perm(&mut vec![1, 2, 3, 4], 0, &mut perms);
  for q in &perms {
    let mut order = vec![0];
    order.extend(q);
    out(&permute_blocks(&base, 0, &order));
    // the entry block elsewhere: legal in raw form, whatever it means
    order.rotate_left(1);
    out(&permute_blocks(&base, 0, &order));
  }
  // functions that call each other in every order
  let mut p = PB::new();
  for (i, n) in ["@a", "%b", "@c", "@d"].iter().enumerate() {
    if i == 3 {
      p.decl(n, &[Ty::I32], Ty::I32);
    } else {
      let f = p.fun(n, &[(Some("@x"), Ty::I32)], Ty::I32);
      p.block(f, Some("%e"), &[]);
    }
  }
  for f in 0..3 {
    let mut v = MVal::Param(0);
    for c in 0..4 {
      v = p.inst(f, 0, None, MOp::Call((c + f) % 4, vec![v]));
    }
    p.inst(f, 0, None, MOp::Ret(Some(v)));
  }
  let mut perms = vec![];
  perm(&mut vec![0, 1, 2, 3], 0, &mut perms);
  for q in &perms {
    let mut m = p.p.clone();
    m.funcs = q.iter().map(|i| p.p.funcs[*i].clone()).collect();
    for f in &mut m.funcs {
      for i in f.bbs.iter_mut().flatten().flat_map(|b| &mut b.insts) {
        if let MOp::Call(c, _) = &mut i.op {
          *c = q.iter().position(|x| x == c).unwrap();
        }
      }
    }
    out(&m);
  }
  // every graph of three or four blocks with unreachable blocks that have
  // parameters, in reverse order as well
  let mut rev = |m: &MProg| {
    let n = m.funcs[0].bbs.as_ref().unwrap().len();
    let mut o: Vec<usize> = (1..n).rev().collect();
    o.insert(0, 0);
    out(&permute_blocks(m, 0, &o));
  };
  cfgs(3, &|b| b, true, false, &mut rev);
  if quick {
    cfgs(4, &|b| b % 2, true, true, &mut rev);
  } else {
    cfgs(4, &|b| b % 2, true, false, &mut rev);
  }
}

fn perm(v: &mut Vec<usize>, k: usize, out: &mut Vec<Vec<usize>>) {
  if k == v.len() {
    out.push(v.clone());
    return;
  }
  for i in k..v.len() {
    v.swap(k, i);
    perm(v, k + 1, out);
    v.swap(k, i);
  }
}

/// `order[n]` is the old number of the new block n.
fn permute_blocks(m: &MProg, f: usize, order: &[usize]) -> MProg {
  let mut m = m.clone();
  let old = m.funcs[f].bbs.take().unwrap();
  let mut new_of = vec![0; old.len()];
  for (n, o) in order.iter().enumerate() {
    new_of[*o] = n;
  }
  let mut bbs: Vec<MBlock> = order.iter().map(|o| old[*o].clone()).collect();
  for i in bbs.iter_mut().flat_map(|b| &mut b.insts) {
    match &mut i.op {
      MOp::Br(_, t, _, f, _) => {
        *t = new_of[*t];
        *f = new_of[*f];
      }
      MOp::Jump(t, _) => *t = new_of[*t],
      _ => {}
    }
    for v in i.op.vals_mut() {
      match v {
        MVal::Inst(x, _) | MVal::BParam(x, _) => *x = new_of[*x],
        _ => {}
      }
    }
  }
  m.funcs[f].bbs = Some(bbs);
  m
}

fn c01(ctx: &mut Ctx) {
  each_text(ctx, &mut |ctx, m, t| {
    let e = exact(t.as_bytes()).ok_or("a well-formed text is rejected")?;
    if let Some(d) = diff(&m.canon(), &e.canon()) {
      return Err(format!("the reader is wrong: {d}"));
    }
    let p = parse_ok(t.as_bytes())?;
    let b = Builder::new();
    let i = image(&p, &b, Some(&e))?;
    ctx.note(hash64(format!("{i:?}").as_bytes()));
    Ok(())
  });
  each_model(ctx, &mut |ctx, m| {
    let a = Asm::new(&assemble(m, Share::Func, K_VALUE));
    let p = generate(a.raw())?.map_err(|c| format!("a raw program is refused with code {c}"))?;
    drop(a);
    let b = Builder::new();
    let i = image(&p, &b, Some(m))?;
    ctx.note(hash64(format!("{i:?}").as_bytes()));
    Ok(())
  });
}

fn same_dumps(p: &Prog, want: &[Vec<u8>; 2], what: &str) -> Result<(), String> {
  for f in 0..2 {
    let d = dump(p, f)?;
    if d != want[f as usize] {
      return Err(format!(
        "{what}: the {} dump differs:\n{}\n--- instead of ---\n{}",
        if f == 0 { "text" } else { "LLVM" },
        String::from_utf8_lossy(&d),
        String::from_utf8_lossy(&want[f as usize])
      ));
    }
  }
  Ok(())
}

fn c02(ctx: &mut Ctx) {
  each_text(ctx, &mut |ctx, _, t| {
    let e = exact(t.as_bytes()).ok_or("a well-formed text is rejected")?;
    let p = parse_ok(t.as_bytes())?;
    let want = [dump(&p, 0)?, dump(&p, 1)?];
    let b = Builder::new();
    let raw = b.build(&p);
    drop(p);
    let q = generate(raw.0)?.map_err(|c| format!("the raw form of a program is refused with code {c}"))?;
    drop(raw);
    drop(b);
    let b = Builder::new();
    image(&q, &b, Some(&e))?;
    same_dumps(&q, &want, "after a round trip")?;
    ctx.note(e.hash());
    Ok(())
  });
  each_model(ctx, &mut |ctx, m| {
    let huge = m.funcs.len() > 100 || m.funcs.iter().any(|f| f.bbs.as_ref().is_some_and(|b| b.len() > 100));
    let built = mk::build(m);
    let want = [koopa_text(&built.prog)?, llvm_text(&built.prog)?];
    drop(built);
    for (share, ub) in [(Share::Func, K_VALUE), (Share::None, 0), (Share::Prog, K_VALUE)] {
      if huge && share == Share::None {
        continue;
      }
      let a = Asm::new(&assemble(m, share, ub));
      let p = generate(a.raw())?.map_err(|c| format!("an assembled raw program is refused with code {c}"))?;
      drop(a);
      let b = Builder::new();
      image(&p, &b, Some(m))?;
      same_dumps(&p, &want, "assembled")?;
      ctx.count("assembled", 1);
    }
    ctx.note(m.hash());
    Ok(())
  });
}

/// A few dozen different texts.
fn corpus(thorough: bool) -> Vec<String> {
  let mut v = vec![String::new(), "// nothing\n".into()];
  for s in r#gen::seeds() {
    v.push(render::text(&s));
  }
  r#gen::sweeps_at(&mut (0..=if thorough { 12 } else { 4 }), true, &mut |m| v.push(render::text(m)));
  let mut k = 0;
  r#gen::matrix(1, true, &mut |m| {
    k += 1;
    if k % if thorough { 7 } else { 29 } == 0 {
      v.push(render::text(m));
    }
  });
  v.dedup();
  v
}

fn c03(ctx: &mut Ctx) {
  for t in corpus(true) {
    for f in 0..2 {
      if !ctx.mine_next() {
        ctx.skip();
        continue;
      }
      ctx.case(|| format!("{} of\n{t}", ["text", "LLVM"][f]), |ctx| {
        let p = parse_ok(t.as_bytes())?;
        let own = front::read(t.as_bytes()).ok_or("rejected")?;
        let want = if f == 0 { koopa_text(&own)? } else { llvm_text(&own)? };
        let n = want.len();
        let call = |b: *mut u8, l: &mut usize| unsafe { (api().dump_string)(f as i32, p.0, b as *mut c_char, l) };
        // no buffer, whatever the length says
        for l0 in [0, 1, n, n + 1, usize::MAX] {
          let mut l = l0;
          let r = call(std::ptr::null_mut(), &mut l);
          if r != SUCCESS || l != n {
            return Err(format!("no buffer, length {l0}: code {r}, length {l} reported, the text has {n}"));
          }
          ctx.count("evaluations", 1);
        }
        let mut lens: Vec<usize> = (0..n + 5).collect();
        lens.extend([2 * n + 9, 4096 + n, 1 << 32, isize::MAX as usize, usize::MAX]);
        for len in lens {
          // the block ends where the buffer does, so that the allocator
          // guards the far side
          let cap = len.min(n + 64);
          for cap in if cap == 0 { vec![1] } else { vec![cap, cap + 40] } {
            let mut buf = vec![0xeeu8; 32 + cap];
            buf.shrink_to_fit();
            let mut l = len;
            let r = call(unsafe { buf.as_mut_ptr().add(32) }, &mut l);
            let (pre, rest) = buf.split_at(32);
            let written = if len > n { n + 1 } else { 0 };
            if pre.iter().any(|c| *c != 0xee) || rest[written..].iter().any(|c| *c != 0xee) {
              return Err(format!("length {len}: bytes outside the {written} expected ones are written"));
            }
            if len > n {
              if r != SUCCESS || rest[..n] != want[..] || rest[n] != 0 {
                return Err(format!("length {len} of {} needed: code {r} and {:?}", n + 1, String::from_utf8_lossy(&rest[..n + 1])));
              }
            } else if r != INSUFFICIENT {
              return Err(format!("length {len} of {} needed: code {r}", n + 1));
            }
          }
          ctx.count("evaluations", 1);
          ctx.note(hash64(format!("{f} {len} {t}").as_bytes()));
        }
        Ok(())
      });
    }
  }
}

// ---- C04 ----

fn cstr(b: &[u8]) -> CString {
  CString::new(b).unwrap()
}

fn expect(what: &str, got: i32, want: &[i32]) -> Result<(), String> {
  if want.is_empty() {
    if got == SUCCESS || got == 255 {
      return Err(format!("{what}: code {got} instead of an error code of the header"));
    }
  } else if !want.contains(&got) {
    return Err(format!("{what}: code {got} instead of {want:?}"));
  }
  Ok(())
}

fn parse_file(path: &[u8]) -> Result<Result<Prog, i32>, String> {
  let c = cstr(path);
  let mut out = SENTINEL as Ptr;
  let r = unsafe { (api().parse_file)(c.as_ptr(), &mut out) };
  outcome(r, out)
}
fn parse_fd(fd: i32) -> Result<Result<Prog, i32>, String> {
  let mut out = SENTINEL as Ptr;
  let r = unsafe { (api().parse_raw)(fd, &mut out) };
  outcome(r, out)
}
fn code<T>(r: Result<T, i32>) -> i32 {
  match r {
    Ok(_) => SUCCESS,
    Err(c) => c,
  }
}
fn open(p: &str, flags: i32) -> i32 {
  let f = unsafe { sys::open(cstr(p.as_bytes()).as_ptr(), flags | 0x80000, 0o600) };
  assert!(f >= 0, "open {p}");
  f
}

const GOOD: &str = "global @g = alloc i32, 1\nfun @f(): i32 {\n%e:\n  %0 = load @g\n  ret %0\n}\n";

fn c04(ctx: &mut Ctx) {
  let dir = ctx.dir.join(format!("c04.{}", ctx.shard));
  let _ = std::fs::create_dir_all(&dir);
  let d = dir.to_str().unwrap().to_string();
  std::fs::write(format!("{d}/good"), GOOD).unwrap();
  // texts of every verdict through all three sources that need no process of
  // their own
  let mut texts: Vec<String> = corpus(true);
  for s in r#gen::seeds().iter().take(if ctx.quick() { 3 } else { 9 }) {
    let t = render::tokens(s);
    let al = front::alphabet(&t);
    let k = if ctx.quick() { 3 } else { 1 };
    let mut n = 0;
    front::edits(&t, &al, &mut |e| {
      n += 1;
      if n % k == 0 {
        texts.push(render::join(&e));
      }
    });
  }
  for t in texts {
    if !ctx.mine_next() {
      ctx.skip();
      continue;
    }
    ctx.case(|| format!("text\n{t}"), |ctx| {
      let want = if front::read(t.as_bytes()).is_some() { SUCCESS } else { INVALID_PROGRAM };
      expect("from a string", code(parse(t.as_bytes())?), &[want])?;
      let f = format!("{d}/t");
      std::fs::write(&f, &t).unwrap();
      expect("from a file", code(parse_file(f.as_bytes())?), &[want])?;
      expect("from a descriptor", code(parse_fd(sys::memfile(t.as_bytes()))?), &[want])?;
      if want != SUCCESS {
        ctx.note(hash64(t.as_bytes()));
      }
      Ok(())
    });
  }
  // bytes that are no UTF-8, everywhere a string goes
  for bad in [&b"\xff"[..], b"a\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\x80", b"ok \xc0\xaf"] {
    ctx.case(|| format!("bytes {bad:x?}"), |ctx| {
      expect("source string", code(parse(bad)?), &[INVALID_UTF8])?;
      let mut t = GOOD.as_bytes().to_vec();
      t.extend_from_slice(b"// ");
      t.extend_from_slice(bad);
      expect("comment in a source string", code(parse(&t)?), &[INVALID_UTF8])?;
      expect("path to read", code(parse_file(bad)?), &[INVALID_UTF8])?;
      let p = parse_ok(GOOD.as_bytes())?;
      let mut path = d.clone().into_bytes();
      path.push(b'/');
      path.extend_from_slice(bad);
      let c = cstr(&path);
      for f in 0..2 {
        expect("path to write", unsafe { (api().dump_file)(f, p.0, c.as_ptr()) }, &[INVALID_UTF8])?;
      }
      let f = format!("{d}/bytes");
      std::fs::write(&f, &t).unwrap();
      // not a string: the reader may take such bytes inside comments
      let any = [SUCCESS, INVALID_UTF8, INVALID_PROGRAM];
      expect("file", code(parse_file(f.as_bytes())?), &any)?;
      expect("descriptor", code(parse_fd(sys::memfile(&t))?), &any)?;
      ctx.note(hash64(bad));
      Ok(())
    });
  }
  // paths
  let long = "x".repeat(5000);
  for path in ["", "/nonexistent/x", &format!("{d}/none"), &format!("{d}/good/x"), &format!("{d}/{long}"), "/proc/self/nothing"] {
    ctx.case(|| format!("path {}", &path[..path.len().min(80)]), |ctx| {
      expect("reading", code(parse_file(path.as_bytes())?), &[INVALID_FILE])?;
      if !path.ends_with("none") {
        let p = parse_ok(GOOD.as_bytes())?;
        for f in 0..2 {
          let c = cstr(path.as_bytes());
          expect("writing", unsafe { (api().dump_file)(f, p.0, c.as_ptr()) }, &[INVALID_FILE])?;
        }
      }
      ctx.note(hash64(path.as_bytes()));
      Ok(())
    });
  }
  ctx.case(|| "a directory as file".into(), |ctx| {
    expect("reading", code(parse_file(d.as_bytes())?), &[])?;
    let p = parse_ok(GOOD.as_bytes())?;
    for f in 0..2 {
      let c = cstr(d.as_bytes());
      expect("writing", unsafe { (api().dump_file)(f, p.0, c.as_ptr()) }, &[INVALID_FILE])?;
    }
    expect("reading a descriptor", code(parse_fd(open(&d, 0))?), &[])?;
    ctx.note(1);
    Ok(())
  });
  // writing fails
  for f in 0..2 {
    ctx.case(|| format!("a full device, format {f}"), |ctx| {
      for t in corpus(false) {
        let p = parse_ok(t.as_bytes())?;
        let empty = dump(&p, f)?.is_empty();
        let want: &[i32] = if empty { &[SUCCESS] } else { &[IO_ERROR] };
        expect("to a file", unsafe { (api().dump_file)(f, p.0, c"/dev/full".as_ptr()) }, want)?;
        expect("to a descriptor", unsafe { (api().dump_raw)(f, p.0, open("/dev/full", 1)) }, want)?;
        expect("to a descriptor open for reading", unsafe { (api().dump_raw)(f, p.0, open("/dev/null", 0)) }, want)?;
        let mut pp = [0i32; 2];
        unsafe {
          sys::pipe(pp.as_mut_ptr());
          sys::close(pp[0]);
        }
        expect("to a pipe nobody reads", unsafe { (api().dump_raw)(f, p.0, pp[1]) }, want)?;
        let r = sys::in_child(|| unsafe {
          sys::dup2(open("/dev/full", 1), 1);
          vec![(api().dump_stdout)(f, p.0) as u8]
        })?;
        expect("to the standard output", r[0] as i32, want)?;
        ctx.note(hash64(t.as_bytes()) ^ f as u64);
      }
      Ok(())
    });
    // limits at every byte: a pipe that takes only so much
    ctx.case(|| format!("a file of limited size, format {f}"), |ctx| {
      let p = parse_ok(GOOD.as_bytes())?;
      let n = dump(&p, f)?.len();
      let path = cstr(format!("{d}/limited").as_bytes());
      let r = sys::in_child(|| unsafe {
        let mut v = vec![];
        // SIGXFSZ is ignored so that the write fails with EFBIG
        signal(25, 1);
        for lim in 0..=n as u64 {
          sys::setrlimit(1, [lim, u64::MAX].as_ptr());
          v.push((api().dump_file)(f, p.0, path.as_ptr()) as u8);
        }
        sys::setrlimit(1, [u64::MAX, u64::MAX].as_ptr());
        v
      });
      let r = r?;
      for (lim, c) in r.iter().enumerate() {
        expect(&format!("a file that takes {lim} of {n} bytes"), *c as i32, if lim < n { &[IO_ERROR] } else { &[SUCCESS] })?;
        ctx.note((lim as u64) << 8 | f as u64);
      }
      Ok(())
    });
  }
  // descriptors
  for fd in [-1, -2, 900, 1 << 20, i32::MAX, i32::MIN] {
    ctx.case(|| format!("descriptor {fd}"), |ctx| {
      expect("reading", code(parse_fd(fd)?), &[])?;
      let p = parse_ok(GOOD.as_bytes())?;
      for f in 0..2 {
        expect("writing", unsafe { (api().dump_raw)(f, p.0, fd) }, &[])?;
      }
      ctx.note(fd as u64 | 1 << 40);
      Ok(())
    });
  }
  ctx.case(|| "a descriptor open for writing only".into(), |ctx| {
    expect("reading", code(parse_fd(open("/dev/null", 1))?), &[])?;
    ctx.note(2);
    Ok(())
  });
  // standard input
  for (k, (what, want)) in [("good", vec![SUCCESS]), ("bad", vec![INVALID_PROGRAM]), ("directory", vec![]), ("bytes", vec![SUCCESS, INVALID_UTF8, INVALID_PROGRAM])].into_iter().enumerate() {
    ctx.case(|| format!("standard input: {what}"), |ctx| {
      let r = sys::in_child(|| unsafe {
        let fd = match k {
          0 => sys::memfile(GOOD.as_bytes()),
          1 => sys::memfile(b"global @g = alloc i32, {\n"),
          2 => open("/", 0),
          _ => sys::memfile(b"global @g = alloc i32, 1 // \xff\n"),
        };
        sys::dup2(fd, 0);
        let mut out = SENTINEL as Ptr;
        let r = (api().parse_stdin)(&mut out);
        match outcome(r, out) {
          Ok(r) => vec![code(r) as u8],
          Err(_) => vec![200],
        }
      })?;
      expect("standard input", r[0] as i32, &want)?;
      ctx.note(k as u64 | 1 << 41);
      Ok(())
    });
  }
  corruptions(ctx);
  let _ = std::fs::remove_dir_all(&dir);
}

unsafe extern "C" {
  fn signal(n: i32, h: usize) -> usize;
}

#[derive(Clone, Debug)]
enum Want {
  /// this code
  Code(i32),
  /// this program, or the code
  CodeOr(i32, Box<MProg>),
  /// the program the image describes, or an error if it describes none
  Judge,
  /// any answer
  Free,
}

/// The library's own rules for instructions, as the builders document them.
fn typed(m: &MProg) -> bool {
  let unit = |t: &Ty| *t == Ty::Unit;
  fn ok(t: &Ty) -> bool {
    match t {
      Ty::I32 | Ty::Unit => true,
      Ty::Arr(b, n) => *n > 0 && ok(b),
      Ty::Ptr(b) => ok(b),
      Ty::Fun(p, r) => p.iter().all(ok) && ok(r),
    }
  }
  fn cok(c: &MConst) -> bool {
    match c {
      MConst::Agg(v) => v.iter().all(|e| cok(e) && e.ty() == v[0].ty()),
      MConst::Int(_) => true,
      MConst::Zero(t) | MConst::Undef(t) => *t != Ty::Unit && ok(t),
    }
  }
  for g in &m.globals {
    if !cok(&g.init) {
      return false;
    }
  }
  for f in &m.funcs {
    if !ok(&f.fty()) || f.params.iter().any(|p| unit(&p.1)) {
      return false;
    }
    let Some(bbs) = &f.bbs else { continue };
    if bbs.iter().any(|b| b.params.iter().any(|p| unit(&p.1) || !ok(&p.1))) {
      return false;
    }
    for i in bbs.iter().flat_map(|b| &b.insts) {
      if i.op.vals().iter().any(|v| matches!(v, MVal::Const(c) if !cok(c))) {
        return false;
      }
      let t = |v: &MVal| f.val_ty(m, v);
      let i32_ = |v: &MVal| t(v) == Ty::I32;
      let args = |b: usize, a: &[MVal]| {
        let p = &bbs[b].params;
        p.len() == a.len() && p.iter().zip(a).all(|(p, a)| p.1 == t(a))
      };
      let good = match &i.op {
        MOp::Alloc(b) => !unit(b) && ok(b),
        MOp::Load(a) => matches!(t(a), Ty::Ptr(_)),
        MOp::Store(a, b) => ptr(t(a)) == t(b),
        MOp::GetPtr(a, b) => matches!(t(a), Ty::Ptr(_)) && i32_(b),
        MOp::GetElemPtr(a, b) => matches!(t(a).deref(), Some(Ty::Arr(..))) && i32_(b),
        MOp::Bin(_, a, b) => i32_(a) && i32_(b),
        MOp::Br(c, x, p, y, q) => i32_(c) && args(*x, p) && args(*y, q) && (x != y || (p.is_empty() && q.is_empty())),
        MOp::Jump(x, p) => args(*x, p),
        MOp::Call(g, a) => {
          let p = &m.funcs[*g].params;
          p.len() == a.len() && p.iter().zip(a).all(|(p, a)| p.1 == t(a))
        }
        MOp::Ret(v) => v.as_ref().is_none_or(|v| !unit(&t(v))),
      };
      if !good || (!matches!(i.op, MOp::Alloc(_)) && i.ty != result_ty(m, f, &i.op)) {
        return false;
      }
    }
  }
  true
}

fn result_ty(m: &MProg, f: &MFunc, op: &MOp) -> Ty {
  match op {
    MOp::Load(a) => f.val_ty(m, a).deref().cloned().unwrap_or(Ty::Unit),
    MOp::GetElemPtr(a, _) => match f.val_ty(m, a).deref() {
      Some(Ty::Arr(b, _)) => ptr((**b).clone()),
      _ => Ty::Unit,
    },
    o => r#gen::op_ty(m, f, o),
  }
}

/// Values that mention themselves through operands alone.
fn cyclic(m: &MProg) -> bool {
  for f in &m.funcs {
    let Some(bbs) = &f.bbs else { continue };
    let mut st: std::collections::HashMap<(usize, usize), u8> = Default::default();
    fn go(b: &[MBlock], k: (usize, usize), st: &mut std::collections::HashMap<(usize, usize), u8>) -> bool {
      match st.get(&k) {
        Some(1) => return true,
        Some(_) => return false,
        None => {}
      }
      st.insert(k, 1);
      for v in b[k.0].insts[k.1].op.vals() {
        if let MVal::Inst(x, y) = v
          && go(b, (*x, *y), st)
        {
          return true;
        }
      }
      st.insert(k, 2);
      false
    }
    for (bi, b) in bbs.iter().enumerate() {
      for ii in 0..b.insts.len() {
        if go(bbs, (bi, ii), &mut st) {
          return true;
        }
      }
    }
  }
  false
}

fn corruptions(ctx: &mut Ctx) {
  let mut bases = r#gen::seeds();
  // the smallest declarations and globals as well
  let mut p = r#gen::PB::new();
  p.decl("@d", &[Ty::I32], Ty::Unit);
  p.global(Some("@g"), MConst::Agg(vec![MConst::Int(1), MConst::Int(2)]));
  bases.push(p.p);
  for (bi, m) in bases.iter().enumerate() {
    for share in [Share::Func, Share::None] {
      if share == Share::None && ctx.quick() && bi == 0 {
        continue;
      }
      let img = assemble(m, share, K_VALUE);
      mutate(&img, m, &mut |what, i, want| {
        // no type mentions itself
        if type_circle(i) {
          return;
        }
        if !ctx.mine_next() {
          ctx.skip();
          return;
        }
        let name = format!("raw program {bi}{}: {what}", if share == Share::None { " (unshared)" } else { "" });
        ctx.case(|| name.clone(), |ctx| {
          let a = Asm::new(i);
          let r = generate(a.raw())?;
          drop(a);
          let want = match want.clone() {
            Want::Judge => match i.model() {
              Ok(m) if typed(&m) && !cyclic(&m) => None.ok_or(m),
              Ok(m) if !cyclic(&m) => Ok(vec![]),
              Ok(_) => return Ok(()),
              Err(_) => return Ok(()),
            },
            Want::Code(c) => Ok(vec![c]),
            Want::CodeOr(c, m) => {
              if let Err(e) = &r {
                return expect("conversion", *e, if c == 0 { &[] } else { std::slice::from_ref(&c) });
              }
              Err(*m)
            }
            Want::Free => return Ok(()),
          };
          match want {
            Ok(c) => {
              expect("conversion", code(r), &c)?;
              ctx.note(hash64(name.as_bytes()));
              Ok(())
            }
            Err(m) => {
              let p = r.map_err(|c| format!("a raw program that describes a program is refused with code {c}"))?;
              let b = Builder::new();
              image(&p, &b, Some(&m))?;
              ctx.count("accepted", 1);
              Ok(())
            }
          }
        });
      });
    }
  }
}

/// The types that no other part of the program implies: of functions,
/// allocations, zero initializers, undefined values and block parameters.
fn types_read(i: &Img) -> Vec<bool> {
  fn go(i: &Img, t: usize, r: &mut Vec<bool>) {
    if t == 0 || r[t] {
      return;
    }
    r[t] = true;
    match &i.objs[t - 1] {
      Obj::T(RTy::Arr(b, _) | RTy::Ptr(b)) => go(i, *b, r),
      Obj::T(RTy::Fun(p, x)) => {
        p.items.iter().for_each(|x| go(i, *x, r));
        go(i, *x, r)
      }
      _ => {}
    }
  }
  let mut r = vec![false; i.objs.len() + 1];
  for o in &i.objs {
    match o {
      Obj::F { ty, .. } | Obj::V { ty, kind: RVal::Zero | RVal::Undef | RVal::Alloc | RVal::BArg(_), .. } => go(i, *ty, &mut r),
      _ => {}
    }
  }
  r
}

fn type_circle(i: &Img) -> bool {
  // 0 not seen, 1 open, 2 done
  fn go(i: &Img, t: usize, st: &mut Vec<u8>) -> bool {
    if t == 0 || st[t] == 2 {
      return false;
    }
    if st[t] == 1 {
      return true;
    }
    st[t] = 1;
    let r = match &i.objs[t - 1] {
      Obj::T(RTy::Arr(b, _) | RTy::Ptr(b)) => go(i, *b, st),
      Obj::T(RTy::Fun(p, r)) => p.items.iter().any(|x| go(i, *x, st)) || go(i, *r, st),
      _ => false,
    };
    st[t] = 2;
    r
  }
  let mut st = vec![0; i.objs.len() + 1];
  (1..=i.objs.len()).any(|t| go(i, t, &mut st))
}

type Sink<'a> = &'a mut dyn FnMut(String, &Img, Want);

/// Every single corruption of an image.
fn mutate(img: &Img, m: &MProg, out: Sink) {
  let n = img.objs.len();
  let types: Vec<usize> = (1..=n).filter(|i| matches!(img.objs[i - 1], Obj::T(_))).collect();
  let vals: Vec<usize> = (1..=n).filter(|i| matches!(img.objs[i - 1], Obj::V { .. })).collect();
  let bbs: Vec<usize> = (1..=n).filter(|i| matches!(img.objs[i - 1], Obj::B { .. })).collect();
  let funcs: Vec<usize> = (1..=n).filter(|i| matches!(img.objs[i - 1], Obj::F { .. })).collect();
  // lists: root and per object, by position
  let nlists = |o: &Obj| lists(o).len();
  let mut slots: Vec<(usize, usize)> = vec![(0, 0), (0, 1)];
  for i in 1..=n {
    for k in 0..nlists(&img.objs[i - 1]) {
      slots.push((i, k));
    }
  }
  let original = Box::new(m.clone());
  let read = types_read(img);
  for (i, k) in slots {
    let get = |im: &mut Img| -> *mut Sl {
      if i == 0 {
        if k == 0 { &mut im.values } else { &mut im.funcs }
      } else {
        lists_mut(&mut im.objs[i - 1]).remove(k)
      }
    };
    let mut c = img.clone();
    let cur = unsafe { &*get(&mut c) }.clone();
    let users = i > 0 && is_users(&img.objs[i - 1], k);
    let at = if i == 0 { format!("root list {k}") } else { format!("object {i} list {k}") };
    for kind in 0..5 {
      if kind == cur.kind {
        continue;
      }
      let mut c = img.clone();
      unsafe { (*get(&mut c)).kind = kind };
      let idle = i > 0 && matches!(img.objs[i - 1], Obj::T(_)) && !read[i];
      let want = if idle {
        Want::Free
      } else if users {
        Want::CodeOr(-1, original.clone())
      } else if cur.items.is_empty() {
        Want::CodeOr(KIND_MISMATCH, original.clone())
      } else {
        Want::Code(KIND_MISMATCH)
      };
      out(format!("{at} tagged {kind}"), &c, want);
    }
    if users {
      continue;
    }
    // shorter, longer, other items
    let params = i > 0 && k == 0 && matches!(img.objs[i - 1], Obj::F { .. });
    let w = if params { Want::Code(PARAM_NUM) } else { Want::Judge };
    // types the library need not look at
    let idle = i > 0 && matches!(img.objs[i - 1], Obj::T(_)) && !read[i];
    let decl = params && matches!(&img.objs[i - 1], Obj::F { bbs, .. } if bbs.items.is_empty());
    let w = if decl || idle { Want::Free } else { w };
    let judge = if idle { Want::Free } else { Want::Judge };
    if !cur.items.is_empty() {
      let mut c = img.clone();
      unsafe { (&mut *get(&mut c)).items.pop() };
      out(format!("{at} without its last item"), &c, w.clone());
      let mut c = img.clone();
      unsafe { (&mut *get(&mut c)).items.remove(0) };
      out(format!("{at} without its first item"), &c, w.clone());
      let mut c = img.clone();
      unsafe { (&mut *get(&mut c)).items[0] = 0 };
      out(format!("{at} with a null item"), &c, if idle { Want::Free } else { Want::Code(NULL_POINTER) });
      let mut c = img.clone();
      unsafe { (&mut *get(&mut c)).items.push(cur.items[0]) };
      out(format!("{at} with its first item again"), &c, w.clone());
    }
    let pool = match cur.kind {
      K_TYPE => &types,
      K_VALUE => &vals,
      K_BB => &bbs,
      _ => &funcs,
    };
    for (j, old) in cur.items.iter().enumerate() {
      for x in pool {
        if x != old && !params {
          let mut c = img.clone();
          unsafe { (&mut *get(&mut c)).items[j] = *x };
          out(format!("{at} item {j} is object {x}"), &c, judge.clone());
        }
      }
    }
    if pool.len() < 200 && i > 0 && !params && !matches!(img.objs[i - 1], Obj::B { .. }) {
      for x in pool {
        let mut c = img.clone();
        unsafe { (&mut *get(&mut c)).items.push(*x) };
        out(format!("{at} with object {x} added"), &c, judge.clone());
      }
    }
  }
  for i in 1..=n {
    let o = &img.objs[i - 1];
    // names
    let is_const = matches!(o, Obj::V { kind: RVal::Int(_) | RVal::Zero | RVal::Undef | RVal::Agg(_), .. });
    if let Some(cur) = name_of(o) {
      for (nm, bad) in [(None, false), (Some(b"@\xff".to_vec()), true), (Some(b"%\xe2\x82".to_vec()), true), (Some(b"@other_9".to_vec()), false)] {
        if nm == *cur {
          continue;
        }
        let mut c = img.clone();
        *name_mut(&mut c.objs[i - 1]).unwrap() = nm.clone();
        let want = if is_const {
          Want::CodeOr(if bad { INVALID_UTF8 } else { 0 }, original.clone())
        } else if bad {
          Want::Code(INVALID_UTF8)
        } else if nm.is_none() && matches!(o, Obj::F { .. }) {
          Want::Code(NULL_POINTER)
        } else {
          Want::Judge
        };
        // a constant with a name may keep it
        let want = if is_const && nm.is_some() && !bad { Want::Free } else { want };
        out(format!("object {i} named {:?}", nm.as_ref().map(|b| String::from_utf8_lossy(b).into_owned())), &c, want);
      }
      // what is no name
      for nm in ["", "@", "%", "x", "main", "0", "$x", "&@x"] {
        let mut c = img.clone();
        *name_mut(&mut c.objs[i - 1]).unwrap() = Some(nm.as_bytes().to_vec());
        let want = if is_const { Want::CodeOr(INVALID_PROGRAM, original.clone()) } else { Want::Code(INVALID_PROGRAM) };
        out(format!("object {i} named {nm:?}"), &c, want);
      }
    }
    // types
    match o {
      Obj::V { ty, kind, .. } => {
        for t in types.iter().chain([&0]) {
          if t == ty {
            continue;
          }
          let mut c = img.clone();
          let Obj::V { ty, .. } = &mut c.objs[i - 1] else { unreachable!() };
          *ty = *t;
          let derived = !matches!(kind, RVal::Zero | RVal::Undef | RVal::Alloc | RVal::BArg(_));
          let want = if derived {
            Want::CodeOr(0, original.clone())
          } else if *t == 0 {
            Want::Code(NULL_POINTER)
          } else if img.ty(*t, 0).ok() == img.ty(type_of(o), 0).ok() {
            Want::Judge
          } else if matches!(kind, RVal::Alloc) && !matches!(img.ty(*t, 0), Ok(Ty::Ptr(_))) {
            Want::Code(TYPE_MISMATCH)
          } else {
            Want::Judge
          };
          out(format!("object {i} of type {t}"), &c, want);
        }
      }
      Obj::F { bbs, ty, .. } => {
        for t in types.iter().chain([&0]) {
          if t == ty {
            continue;
          }
          let mut c = img.clone();
          let Obj::F { ty, .. } = &mut c.objs[i - 1] else { unreachable!() };
          *ty = *t;
          let old = img.ty(type_of(o), 0);
          let want = match (old, if *t == 0 { Err(String::new()) } else { img.ty(*t, 0) }) {
            (_, Err(_)) => Want::Code(NULL_POINTER),
            (Ok(Ty::Fun(a, _)), Ok(Ty::Fun(b, _))) if a.len() != b.len() && !bbs.items.is_empty() => Want::Code(PARAM_NUM),
            (_, Ok(Ty::Fun(..))) => Want::Judge,
            _ => Want::Code(TYPE_MISMATCH),
          };
          // parameters that disagree with the type in their redundant field
          let want = if matches!(want, Want::Judge) && !bbs.items.is_empty() { Want::Free } else { want };
          out(format!("function {i} of type {t}"), &c, want);
        }
      }
      Obj::T(t) => {
        let mut alts = vec![];
        match t {
          RTy::Arr(b, l) => {
            for l2 in [0, 1, 2, 3] {
              if l2 != *l {
                alts.push(RTy::Arr(*b, l2));
              }
            }
            alts.push(RTy::Arr(0, *l));
            alts.push(RTy::Ptr(*b));
          }
          RTy::Ptr(b) => {
            alts.push(RTy::Ptr(0));
            alts.push(RTy::Arr(*b, 2));
            alts.push(RTy::I32);
          }
          RTy::Fun(p, r) => {
            alts.push(RTy::Fun(p.clone(), 0));
            alts.push(RTy::Unit);
            for x in &types {
              if x != r && *x != i {
                alts.push(RTy::Fun(p.clone(), *x));
              }
            }
          }
          RTy::I32 => alts.extend([RTy::Unit, RTy::Ptr(0)]),
          _ => alts.extend([RTy::I32, RTy::Ptr(0)]),
        }
        for a in alts {
          // a null or a circle inside
          let null = matches!(a, RTy::Arr(0, _) | RTy::Ptr(0) | RTy::Fun(_, 0));
          let mut c = img.clone();
          c.objs[i - 1] = Obj::T(a.clone());
          if c.ty(i, 0).is_err() && !null {
            continue;
          }
          // the type may stand in fields the library need not look at
          let want = match c.model() {
            _ if null && read[i] => Want::Code(NULL_POINTER),
            _ if null => Want::Free,
            Ok(m2) if typed(&m2) && !cyclic(&m2) => Want::Judge,
            _ => Want::Free,
          };
          out(format!("type {i} is {a:?}"), &c, want);
        }
      }
      _ => {}
    }
    // operands
    if let Obj::V { kind, .. } = o {
      let slots = refs(&mut kind.clone()).len();
      for s in 0..slots {
        let (cur, what) = {
          let mut k = kind.clone();
          let r = refs(&mut k);
          (*r[s].0, r[s].1)
        };
        let pool = match what {
          K_VALUE => &vals,
          K_BB => &bbs,
          _ => &funcs,
        };
        for x in pool.iter().chain([&0]) {
          if *x == cur {
            continue;
          }
          let mut c = img.clone();
          let Obj::V { kind: k, .. } = &mut c.objs[i - 1] else { unreachable!() };
          *refs(k)[s].0 = *x;
          let want = if *x != 0 {
            Want::Judge
          } else if matches!(kind, RVal::Ret(_)) {
            Want::Judge
          } else {
            Want::Code(NULL_POINTER)
          };
          out(format!("object {i} mentions {x} instead of {cur} ({s})"), &c, want);
        }
      }
      if let RVal::Bin(op, ..) = kind {
        for o2 in 0..17 {
          if o2 != *op {
            let mut c = img.clone();
            let Obj::V { kind: RVal::Bin(p, ..), .. } = &mut c.objs[i - 1] else { unreachable!() };
            *p = o2;
            out(format!("object {i} with operator {o2}"), &c, Want::Judge);
          }
        }
      }
      if let RVal::FArg(x) | RVal::BArg(x) = kind {
        for y in [x + 1, 77, u64::MAX] {
          let mut c = img.clone();
          let Obj::V { kind: RVal::FArg(p) | RVal::BArg(p), .. } = &mut c.objs[i - 1] else { unreachable!() };
          *p = y;
          out(format!("object {i} with index {y}"), &c, Want::CodeOr(0, original.clone()));
        }
      }
    }
  }
}

fn lists(o: &Obj) -> Vec<&Sl> {
  match o {
    Obj::T(RTy::Fun(p, _)) => vec![p],
    Obj::T(_) => vec![],
    Obj::F { params, bbs, .. } => vec![params, bbs],
    Obj::B { params, used_by, insts, .. } => vec![params, used_by, insts],
    Obj::V { used_by, kind, .. } => {
      let mut v = vec![used_by];
      match kind {
        RVal::Agg(a) | RVal::Jump(_, a) | RVal::Call(_, a) => v.push(a),
        RVal::Br(_, _, _, a, b) => v.extend([a, b]),
        _ => {}
      }
      v
    }
  }
}
fn lists_mut(o: &mut Obj) -> Vec<&mut Sl> {
  match o {
    Obj::T(RTy::Fun(p, _)) => vec![p],
    Obj::T(_) => vec![],
    Obj::F { params, bbs, .. } => vec![params, bbs],
    Obj::B { params, used_by, insts, .. } => vec![params, used_by, insts],
    Obj::V { used_by, kind, .. } => {
      let mut v = vec![used_by];
      match kind {
        RVal::Agg(a) | RVal::Jump(_, a) | RVal::Call(_, a) => v.push(a),
        RVal::Br(_, _, _, a, b) => v.extend([a, b]),
        _ => {}
      }
      v
    }
  }
}
fn is_users(o: &Obj, k: usize) -> bool {
  matches!((o, k), (Obj::B { .. }, 1) | (Obj::V { .. }, 0))
}
fn name_of(o: &Obj) -> Option<&Option<Vec<u8>>> {
  match o {
    Obj::F { name, .. } | Obj::B { name, .. } | Obj::V { name, .. } => Some(name),
    _ => None,
  }
}
fn name_mut(o: &mut Obj) -> Option<&mut Option<Vec<u8>>> {
  match o {
    Obj::F { name, .. } | Obj::B { name, .. } | Obj::V { name, .. } => Some(name),
    _ => None,
  }
}
fn type_of(o: &Obj) -> usize {
  match o {
    Obj::F { ty, .. } | Obj::V { ty, .. } => *ty,
    _ => 0,
  }
}
/// The references outside lists, with what they refer to.
fn refs(k: &mut RVal) -> Vec<(&mut usize, u64)> {
  match k {
    RVal::GAlloc(a) | RVal::Load(a) | RVal::Ret(a) => vec![(a, K_VALUE)],
    RVal::Store(a, b) | RVal::GetPtr(a, b) | RVal::GetElemPtr(a, b) | RVal::Bin(_, a, b) => vec![(a, K_VALUE), (b, K_VALUE)],
    RVal::Br(c, t, f, ..) => vec![(c, K_VALUE), (t, K_BB), (f, K_BB)],
    RVal::Jump(t, _) => vec![(t, K_BB)],
    RVal::Call(f, _) => vec![(f, K_FUNC)],
    _ => vec![],
  }
}

// ---- C05 ----

const P5: [&str; 3] = [
  "global @g = alloc [i32, 2], {1, undef}\ndecl @d(i32): i32\nfun @f(@x: i32): i32 {\n%e:\n  %a = alloc i32\n  store @x, %a\n  jump %l(@x)\n%l(%i: i32):\n  %s = sub %i, 1\n  %c = call @d(%s)\n  br %c, %l(%s), %r\n%r:\n  %p = getelemptr @g, 1\n  %v = load %p\n  ret %v\n}\n",
  "global @g = alloc [i32, 2], zeroinit\nfun @f(@x: i32): i32 {\n%e:\n  ret @x\n}\nfun @main(): i32 {\n%e:\n  %a = call @f(7)\n  %s = add %a, %a\n  ret %s\n}\n",
  "fun @f(@x: i32): i32 {\n%e:\n  ret @x\n}\n",
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op5 {
  Build(usize, usize),
  Delete(usize),
  Parse(usize),
  NewB(usize),
  DelB(usize),
  Convert(usize),
  Dump(usize),
}

struct W5 {
  progs: [Option<Prog>; 3],
  builders: [Option<Builder>; 2],
  /// builder, program, structure, first image
  raws: Vec<(usize, usize, Raw, Img)>,
}

fn enabled5(progs: &[bool; 3], builders: &[bool; 2], built: &[Vec<usize>; 2], last: Option<Op5>) -> Vec<Op5> {
  let mut v = vec![];
  for b in 0..2 {
    for p in 0..3 {
      if builders[b] && progs[p] {
        v.push(Op5::Build(b, p));
      }
    }
    v.push(if builders[b] { Op5::DelB(b) } else { Op5::NewB(b) });
    if !built[b].is_empty() && !matches!(last, Some(Op5::Convert(_))) {
      v.push(Op5::Convert(b));
    }
  }
  for p in 0..3 {
    v.push(if progs[p] { Op5::Delete(p) } else { Op5::Parse(p) });
    if progs[p] && !matches!(last, Some(Op5::Dump(_))) {
      v.push(Op5::Dump(p));
    }
  }
  v
}

fn c05(ctx: &mut Ctx) {
  let want: Vec<MProg> = P5.iter().map(|t| exact(t.as_bytes()).expect("corpus")).collect();
  let depth = ctx.pick(5, 6);
  // programs 0 and 1 and builder 0 exist at the start
  let mut hist: Vec<Op5> = vec![];
  let mut st = (vec![[true, true, false]], vec![[true, false]], vec![[vec![], vec![]] as [Vec<usize>; 2]]);
  fn rec(
    ctx: &mut Ctx,
    want: &[MProg],
    depth: usize,
    hist: &mut Vec<Op5>,
    st: &mut (Vec<[bool; 3]>, Vec<[bool; 2]>, Vec<[Vec<usize>; 2]>),
  ) {
    if ctx.stop() {
      return;
    }
    if hist.len() == depth {
      // only maximal histories are run: each includes all its prefixes
      if !ctx.mine_next() {
        ctx.skip();
        return;
      }
      ctx.case(|| format!("{hist:?}"), |ctx| run5(ctx, want, hist));
      return;
    }
    let (progs, builders, built) = (*st.0.last().unwrap(), *st.1.last().unwrap(), st.2.last().unwrap().clone());
    for o in enabled5(&progs, &builders, &built, hist.last().copied()) {
      let (mut p, mut b, mut u) = (progs, builders, built.clone());
      match o {
        Op5::Build(x, y) => u[x].push(y),
        Op5::Delete(x) => p[x] = false,
        Op5::Parse(x) => p[x] = true,
        Op5::NewB(x) => b[x] = true,
        Op5::DelB(x) => {
          b[x] = false;
          u[x].clear();
        }
        _ => {}
      }
      st.0.push(p);
      st.1.push(b);
      st.2.push(u);
      hist.push(o);
      rec(ctx, want, depth, hist, st);
      hist.pop();
      st.0.pop();
      st.1.pop();
      st.2.pop();
    }
  }
  rec(ctx, &want, depth, &mut hist, &mut st);
  // one builder, the same program over and over, then many programs
  for n in [2, 3, 10, 100] {
    for del in [false, true] {
      ctx.case(|| format!("{n} builds, program deleted in between: {del}"), |ctx| {
        let mut h = vec![];
        for i in 0..n {
          h.push(Op5::Build(0, i % 2));
          if del {
            h.extend([Op5::Delete(i % 2), Op5::Parse(i % 2)]);
          }
        }
        run5(ctx, &want, &h)
      });
    }
  }
}

fn run5(ctx: &mut Ctx, want: &[MProg], hist: &[Op5]) -> Result<(), String> {
  let mut w = W5 {
    progs: [Some(parse_ok(P5[0].as_bytes())?), Some(parse_ok(P5[1].as_bytes())?), None],
    builders: [Some(Builder::new()), None],
    raws: vec![],
  };
  let texts: Vec<Vec<u8>> = P5.iter().map(|t| koopa_text(&front::read(t.as_bytes()).unwrap())).collect::<Result<_, _>>()?;
  for (k, o) in hist.iter().enumerate() {
    let at = |e: String| format!("step {k} {o:?}: {e}");
    match *o {
      Op5::Build(b, p) => {
        let raw = w.builders[b].as_ref().unwrap().build(w.progs[p].as_ref().unwrap());
        let i = walk(raw.0).map_err(at)?;
        check_image(&i, Some(&want[p])).map_err(at)?;
        w.raws.push((b, p, raw, i));
      }
      Op5::Delete(p) => w.progs[p] = None,
      Op5::Parse(p) => w.progs[p] = Some(parse_ok(P5[p].as_bytes())?),
      Op5::NewB(b) => w.builders[b] = Some(Builder::new()),
      Op5::DelB(b) => {
        w.raws.retain(|r| r.0 != b);
        w.builders[b] = None;
      }
      Op5::Convert(b) => {
        let r = w.raws.iter().rfind(|r| r.0 == b).unwrap();
        let q = generate(r.2.0)?.map_err(|c| at(format!("conversion fails with code {c}")))?;
        let d = dump(&q, 0)?;
        if d != texts[r.1] {
          return Err(at(format!("the converted program prints {:?}", String::from_utf8_lossy(&d))));
        }
      }
      Op5::Dump(p) => {
        let d = dump(w.progs[p].as_ref().unwrap(), 0)?;
        if d != texts[p] {
          return Err(at(format!("the program prints {:?}", String::from_utf8_lossy(&d))));
        }
      }
    }
    for (j, r) in w.raws.iter().enumerate() {
      let i = walk(r.2.0).map_err(at)?;
      if i != r.3 {
        let why = check_image(&i, Some(&want[r.1])).err().unwrap_or_default();
        return Err(at(format!("raw program {j} (builder {}, program {}) is no longer what it was: {why}", r.0, r.1)));
      }
    }
    ctx.count("transitions", 1);
    let alive: Vec<bool> = w.progs.iter().map(|p| p.is_some()).chain(w.builders.iter().map(|b| b.is_some())).collect();
    let mut built: Vec<(usize, usize)> = w.raws.iter().map(|r| (r.0, r.1)).collect();
    built.sort();
    ctx.note(hash64(format!("{alive:?}{built:?}").as_bytes()));
  }
  ctx.count("traces", 1);
  Ok(())
}

// ---- C06 ----

const SOURCES: [&str; 4] = ["file", "string", "stdin", "descriptor"];
const DESTS: [&str; 4] = ["file", "string", "stdout", "descriptor"];

fn from_source(s: usize, t: &[u8], dir: &str) -> Result<Result<Prog, i32>, String> {
  match s {
    0 => {
      let f = format!("{dir}/in");
      std::fs::write(&f, t).unwrap();
      parse_file(f.as_bytes())
    }
    1 => parse(t),
    2 => {
      let fd = sys::memfile(t);
      unsafe {
        sys::dup2(fd, 0);
        sys::close(fd);
      }
      let mut out = SENTINEL as Ptr;
      let r = unsafe { (api().parse_stdin)(&mut out) };
      outcome(r, out)
    }
    _ => parse_fd(sys::memfile(t)),
  }
}

fn to_dest(d: usize, f: i32, p: &Prog, dir: &str) -> Result<(i32, Vec<u8>), String> {
  let a = api();
  Ok(match d {
    0 => {
      let path = format!("{dir}/out");
      // an older, longer file of the same name
      std::fs::write(&path, vec![b'#'; 1 << 16]).unwrap();
      let c = cstr(path.as_bytes());
      let r = unsafe { (a.dump_file)(f, p.0, c.as_ptr()) };
      (r, std::fs::read(&path).unwrap())
    }
    1 => (SUCCESS, dump(p, f)?),
    2 => unsafe {
      let fd = sys::memfile(b"");
      sys::dup2(fd, 1);
      let r = (a.dump_stdout)(f, p.0);
      (r, sys::content(fd))
    },
    _ => unsafe {
      let fd = sys::memfile(b"");
      let r = (a.dump_raw)(f, p.0, sys::fcntl(fd, 1030, 3));
      let v = sys::content(fd);
      sys::close(fd);
      (r, v)
    },
  })
}

/// The same for the Rust interface: every source, then every destination.
fn rust_ways(t: &[u8], texts: &Option<[Vec<u8>; 2]>, dir: &str) -> Result<(), String> {
  use koopa::back::{KoopaGenerator, LlvmGenerator};
  use koopa::front::Driver;
  use koopa::front::span::FileType;
  let (fin, fout) = (format!("{dir}/rin"), format!("{dir}/rout"));
  std::fs::write(&fin, t).unwrap();
  let Ok(st) = std::str::from_utf8(t) else { return Ok(()) };
  for s in 0..5 {
    if s == 3 {
      let fd = sys::memfile(t);
      unsafe {
        sys::dup2(fd, 0);
        sys::close(fd);
      }
    }
    let what = ["&str", "String", "a path", "the standard input", "an open file"][s];
    let p = match s {
      0 => Driver::from(st).generate_program(),
      1 => Driver::from(st.to_string()).generate_program(),
      2 => Driver::from_path(fin.clone()).map_err(|e| e.to_string())?.generate_program(),
      3 => Driver::from(std::io::stdin()).generate_program(),
      _ => Driver::new(FileType::Buffer, std::fs::File::open(&fin).map_err(|e| e.to_string())?).generate_program(),
    };
    let (p, w) = match (p, texts) {
      (Err(_), None) => continue,
      (Ok(_), None) => return Err(format!("Driver from {what}: a rejected text is accepted")),
      (Err(_), Some(_)) => return Err(format!("Driver from {what}: an accepted text is refused")),
      (Ok(p), Some(w)) => (p, w),
    };
    for f in 0..2 {
      for d in 0..3 {
        std::fs::write(&fout, vec![b'#'; if d == 0 { 1 << 16 } else { 0 }]).unwrap();
        let e = |e: std::io::Error| e.to_string();
        let got = match (d, f) {
          (0, 0) => {
            let mut g = KoopaGenerator::from_path(&fout).map_err(e)?;
            g.generate_on(&p).map_err(e)?;
            std::fs::read(&fout).map_err(e)?
          }
          (0, _) => {
            let mut g = LlvmGenerator::from_path(&fout).map_err(e)?;
            g.generate_on(&p).map_err(e)?;
            std::fs::read(&fout).map_err(e)?
          }
          (1, 0) => {
            let mut buf = vec![];
            KoopaGenerator::new(&mut buf).generate_on(&p).map_err(e)?;
            buf
          }
          (1, _) => {
            let mut buf = vec![];
            LlvmGenerator::new(&mut buf).generate_on(&p).map_err(e)?;
            buf
          }
          (_, 0) => {
            let mut g = KoopaGenerator::new(std::io::BufWriter::new(std::fs::File::create(&fout).map_err(e)?));
            g.generate_on(&p).map_err(e)?;
            drop(g.writer());
            std::fs::read(&fout).map_err(e)?
          }
          (..) => {
            let mut g = LlvmGenerator::new(std::io::BufWriter::new(std::fs::File::create(&fout).map_err(e)?));
            g.generate_on(&p).map_err(e)?;
            drop(g.writer());
            std::fs::read(&fout).map_err(e)?
          }
        };
        if got != w[f] {
          return Err(format!("Driver from {what}, format {f} to {}: {} bytes instead of {}", ["a path", "a buffer", "a buffered file"][d], got.len(), w[f].len()));
        }
      }
    }
  }
  Ok(())
}

fn c06(ctx: &mut Ctx) {
  let dir = ctx.dir.join(format!("c06.{}", ctx.shard));
  let _ = std::fs::create_dir_all(&dir);
  let d = dir.to_str().unwrap().to_string();
  let mut texts = corpus(true);
  for s in r#gen::seeds().iter().skip(1) {
    let t = render::tokens(s);
    let al = front::alphabet(&t);
    let k = ctx.pick(11, 1);
    let mut n = 0;
    front::edits(&t, &al, &mut |e| {
      n += 1;
      if n % k == 0 {
        texts.push(render::join(&e));
      }
    });
  }
  // without a line break at the end, with other line breaks, across the sizes
  // buffers tend to have
  texts.push(GOOD.trim_end().into());
  texts.push(GOOD.replace('\n', "\r\n"));
  for n in [4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537] {
    texts.push(format!("{}{GOOD}", " ".repeat(n - 20)));
    texts.push(format!("//{}\n{GOOD}", "x".repeat(n)));
    let mut p = r#gen::PB::new();
    for i in 0..n / 30 {
      p.global(Some(&format!("@global_number_{i}")), MConst::Int(i as i32));
    }
    texts.push(render::text(&p.p));
  }
  for t in texts {
    if !ctx.mine_next() {
      ctx.skip();
      continue;
    }
    let shown = if t.len() > 2000 { format!("{} ... ({} bytes)", &t[..300], t.len()) } else { t.clone() };
    ctx.case(|| shown.clone(), |ctx| {
      let own = front::read(t.as_bytes());
      let texts = match &own {
        Some(p) => Some([koopa_text(p)?, llvm_text(p)?]),
        None => None,
      };
      let r = sys::in_child(|| rust_ways(t.as_bytes(), &texts, &d).err().unwrap_or_default().into_bytes())?;
      if !r.is_empty() {
        return Err(String::from_utf8_lossy(&r).into_owned());
      }
      ctx.count("evaluations", 1);
      for s in 0..4 {
        // a process of its own, so that its standard streams are fresh; every
        // combination twice in a row
        let r = sys::in_child(|| {
          let go = || -> Result<(), String> {
            for round in 0..2 {
              if s == 2 && round == 1 {
                // what the first read left in the stream's buffer is unknown
                break;
              }
              let what = format!("from {} (round {round})", SOURCES[s]);
              match (from_source(s, t.as_bytes(), &d)?, &texts) {
                (Err(_), None) => {}
                (Ok(_), None) => return Err(format!("{what}: a rejected text is accepted")),
                (Err(c), Some(_)) => return Err(format!("{what}: an accepted text is refused with code {c}")),
                (Ok(p), Some(w)) => {
                  for dst in 0..4 {
                    for f in 0..2 {
                      for again in 0..2 {
                        let (c, v) = to_dest(dst, f, &p, &d)?;
                        if c != SUCCESS || v != w[f as usize] {
                          return Err(format!(
                            "{what} to {} format {f} (time {again}): code {c}, {} bytes instead of {}: {:?}",
                            DESTS[dst],
                            v.len(),
                            w[f as usize].len(),
                            String::from_utf8_lossy(&v[..v.len().min(600)])
                          ));
                        }
                      }
                    }
                  }
                }
              }
            }
            Ok(())
          };
          match go() {
            Ok(()) => vec![],
            Err(e) => e.into_bytes(),
          }
        })?;
        if !r.is_empty() {
          return Err(String::from_utf8_lossy(&r).into_owned());
        }
        ctx.count("evaluations", 1);
        for k in 0..if texts.is_some() { 8 } else { 1 } {
          ctx.note(hash64(format!("{s} {k} {t}").as_bytes()));
        }
      }
      Ok(())
    });
  }
  let _ = std::fs::remove_dir_all(&dir);
}

#[allow(unused)]
fn unused(_: *mut c_void) {}
