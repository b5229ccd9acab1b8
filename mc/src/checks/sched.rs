//! I06: creation of entities under a controlled scheduler.
//!
//! The real, unmodified code runs on helper threads with the processor's trap
//! flag set, so that a signal handler sees every instruction before it is
//! executed. A helper can thus be stopped anywhere. Two explorations:
//!
//! * one preemption at *every instruction* of an operation: the other
//!   thread's operation runs completely in between;
//! * *every* interleaving at the granularity of accesses to memory that
//!   threads can share. Such memory is reached through the statics of the
//!   program, so the handler decodes the operands of each instruction and
//!   makes those that lie in `.data`/`.bss`, and that any execution so far
//!   has written, scheduling points. (Found anew: the exploration restarts.)
use super::back::{koopa_text, llvm_text};
use super::front;
use crate::r#gen;
use crate::mk;
use crate::render;
use crate::sup::{CheckDef, Ctx, hash64};
use koopa::ir::builder_traits::*;
use koopa::ir::{BasicBlock, BinaryOp, Function, FunctionData, Program, Type, Value};
use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::c_void;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};

pub fn defs() -> Vec<CheckDef> {
  vec![CheckDef {
    id: "I06",
    level: "model_checking",
    rule: "all interleavings of two or three threads creating entities: one preemption at every instruction, and every schedule at shared memory accesses",
    run: i06,
    assumptions: &[
      "sequentially consistent memory: the orders weaker memory allows for single atomic read-modify-write operations are the same",
      "memory that threads share is reached through statics; heap reached from there is only switched at in the instruction-level exploration",
      "fewer than 2^30 - 1 globals and 3 * 2^30 local values are created in one process",
    ],
  }]
}

// ---- the machine ----

unsafe extern "C" {
  static __data_start: u8;
  static _end: u8;
  static __executable_start: u8;
  static etext: u8;
  fn sigaction(sig: i32, act: *const SigAction, old: *mut c_void) -> i32;
  fn syscall(n: i64, ...) -> i64;
}
#[repr(C)]
struct SigAction {
  handler: usize,
  mask: [u64; 16],
  flags: i32,
  restorer: usize,
}

fn futex_wait(a: &AtomicU32, v: u32, us: Option<u64>) {
  let ts = us.map(|m| [(m / 1_000_000) as i64, (m % 1_000_000 * 1000) as i64]);
  let p = ts.as_ref().map_or(std::ptr::null(), |t| t.as_ptr());
  unsafe { syscall(202, a.as_ptr(), 128i64, v as i64, p, 0i64, 0i64) };
}
fn futex_wake(a: &AtomicU32) {
  unsafe { syscall(202, a.as_ptr(), 129i64, 64i64, 0i64, 0i64, 0i64) };
}

const IDLE: u32 = 0;
const RUN: u32 = 1;
const PARKED: u32 = 2;
const DONE: u32 = 3;
const QUIT: u32 = 4;

/// How a helper is stopped.
const FREE: u32 = 0;
/// the addresses of all instructions are written down
const TRACE: u32 = 1;
/// parked when the breakpoint is reached for the `target`th time, then free
const NTH: u32 = 4;
/// parked before every access to hot memory, found by looking at every
/// instruction
const ACCESS: u32 = 2;
/// the same, but only looking at the instructions at which that was found to
/// happen so far, where breakpoints are put
const BREAK: u32 = 3;

const NT: usize = 3;
const HOT: usize = 512;
const BREAKS: usize = 1024;
const STEPS: usize = 1 << 18;

struct Slot {
  state: AtomicU32,
  mode: AtomicU32,
  target: AtomicU64,
  steps: AtomicU64,
  points: AtomicU64,
  tid: AtomicU32,
  // the access that the previous instruction made
  addr: AtomicUsize,
  len: AtomicUsize,
  before: [AtomicU32; 8],
  locked: AtomicBool,
  /// where the last point was, and whether nothing has changed since
  last: [AtomicUsize; 2],
  seen: AtomicU32,
  inside: AtomicBool,
  /// the breakpoint being stepped over
  over: AtomicUsize,
}
impl Slot {
  /// Whether an access is a point: not if the same instruction saw the same
  /// contents before, as in a loop that waits.
  fn fresh(&self, rip: usize, a: usize) -> bool {
    let now = unsafe { ((a & !3) as *const u32).read_volatile() };
    self.last[0].load(Relaxed) != rip || self.last[1].load(Relaxed) != a || self.seen.load(Relaxed) != now
  }
  fn remember(&self, rip: usize, a: usize) {
    self.last[0].store(rip, Relaxed);
    self.last[1].store(a, Relaxed);
    self.seen.store(unsafe { ((a & !3) as *const u32).read_volatile() }, Relaxed);
  }
}
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU32 = AtomicU32::new(0);
impl Slot {
  const fn new() -> Slot {
    Slot {
      state: AtomicU32::new(IDLE),
      mode: AtomicU32::new(FREE),
      target: AtomicU64::new(0),
      steps: AtomicU64::new(0),
      points: AtomicU64::new(0),
      tid: AtomicU32::new(0),
      addr: AtomicUsize::new(0),
      len: AtomicUsize::new(0),
      before: [ZERO; 8],
      locked: AtomicBool::new(false),
      last: [AtomicUsize::new(0), AtomicUsize::new(0)],
      seen: AtomicU32::new(0),
      inside: AtomicBool::new(false),
      over: AtomicUsize::new(0),
    }
  }
}

/// Shared by the controller, the helpers and the handler; on the heap, so that
/// it is no static memory of the program.
struct Machine {
  slots: [Slot; NT + 1],
  /// changes whenever a helper stops
  bell: AtomicU32,
  lo: usize,
  hi: usize,
  code: (usize, usize),
  /// addresses of 4-byte words that threads have written
  hot: [AtomicUsize; HOT],
  nhot: AtomicUsize,
  /// instructions that access them, and the first byte of each
  breaks: Vec<(AtomicUsize, AtomicU32)>,
  nbreaks: AtomicUsize,
  trace: Vec<AtomicUsize>,
  grown: AtomicBool,
  full: AtomicBool,
  armed: AtomicBool,
}
impl Machine {
  fn new() -> Machine {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicUsize = AtomicUsize::new(0);
    Machine {
      slots: [Slot::new(), Slot::new(), Slot::new(), Slot::new()],
      bell: AtomicU32::new(0),
      lo: &raw const __data_start as usize,
      hi: &raw const _end as usize,
      code: (&raw const __executable_start as usize, &raw const etext as usize),
      hot: [Z; HOT],
      nhot: AtomicUsize::new(0),
      breaks: (0..BREAKS).map(|_| Default::default()).collect(),
      nbreaks: AtomicUsize::new(0),
      trace: vec![],
      grown: AtomicBool::new(false),
      full: AtomicBool::new(false),
      armed: AtomicBool::new(false),
    }
  }
  fn is_hot(&self, a: usize, len: usize) -> bool {
    let n = self.nhot.load(Acquire).min(HOT);
    self.hot[..n].iter().any(|h| {
      let h = h.load(Relaxed);
      h + 4 > a && h < a + len
    })
  }
  fn heat(&self, a: usize) {
    let a = a & !3;
    if self.is_hot(a, 1) {
      return;
    }
    let i = self.nhot.load(Relaxed);
    if i >= HOT {
      self.full.store(true, Relaxed);
      return;
    }
    self.hot[i].store(a, Relaxed);
    self.nhot.store(i + 1, Release);
    self.grown.store(true, Relaxed);
  }
  fn add_break(&self, rip: usize) {
    let n = self.nbreaks.load(Relaxed);
    if self.breaks[..n].iter().any(|b| b.0.load(Relaxed) == rip) {
      return;
    }
    if n >= BREAKS {
      self.full.store(true, Relaxed);
      return;
    }
    self.breaks[n].0.store(rip, Relaxed);
    self.breaks[n].1.store(unsafe { *(rip as *const u8) } as u32, Relaxed);
    self.nbreaks.store(n + 1, Release);
    self.grown.store(true, Relaxed);
  }
  fn original(&self, rip: usize) -> Option<u8> {
    let n = self.nbreaks.load(Acquire);
    self.breaks[..n].iter().find(|b| b.0.load(Relaxed) == rip).map(|b| b.1.load(Relaxed) as u8)
  }
  /// Puts or removes all breakpoints.
  fn arm(&self, on: bool) {
    self.armed.store(on, SeqCst);
    // a thread that is stepping over one puts it back
    while !on && self.slots.iter().any(|s| s.over.load(SeqCst) != 0) {
      std::hint::spin_loop();
    }
    for (r, o) in &self.breaks[..self.nbreaks.load(Acquire)] {
      poke(r.load(Relaxed), if on { 0xcc } else { o.load(Relaxed) as u8 });
    }
  }
  fn stop_here(&self, s: &Slot) {
    s.points.fetch_add(1, Relaxed);
    s.state.store(PARKED, Release);
    self.bell.fetch_add(1, AcqRel);
    futex_wake(&self.bell);
    while s.state.load(Acquire) == PARKED {
      futex_wait(&s.state, PARKED, None);
    }
  }
}

fn poke(a: usize, b: u8) {
  unsafe { (a as *mut u8).write_volatile(b) }
}

thread_local! {
  static ME: Cell<(*const Machine, usize)> = const { Cell::new((std::ptr::null(), 0)) };
}

/// The memory operand of an instruction: address, length, locked.
fn operand(rip: usize, g: &[usize; 23]) -> Option<(usize, usize, bool)> {
  operand_with(rip, g, unsafe { *(rip as *const u8) })
}
/// The same for an instruction whose first byte is hidden by a breakpoint.
fn operand_with(rip: usize, g: &[usize; 23], first: u8) -> Option<(usize, usize, bool)> {
  let at = |i: usize| if i == 0 { first } else { unsafe { *((rip + i) as *const u8) } };
  let mut i = 0;
  let (mut opsize, mut lock, mut seg, mut rep) = (false, false, false, false);
  loop {
    match at(i) {
      0x66 => opsize = true,
      0xf0 => lock = true,
      0xf2 | 0xf3 => rep = true,
      0x64 | 0x65 => seg = true,
      0x67 | 0x2e | 0x36 | 0x3e | 0x26 => {}
      _ => break,
    }
    i += 1;
  }
  let reg = |n: usize| g[[13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7][n]];
  let mut rex = 0u8;
  if at(i) & 0xf0 == 0x40 {
    rex = at(i);
    i += 1;
  }
  let (mut x, mut b) = ((rex & 2) as usize * 4, (rex & 1) as usize * 8);
  let mut map = 0;
  let mut wide = false;
  match at(i) {
    0x0f => {
      map = 1;
      i += 1;
      match at(i) {
        0x38 => {
          map = 2;
          i += 1
        }
        0x3a => {
          map = 3;
          i += 1
        }
        _ => {}
      }
    }
    0xc5 => {
      (map, wide, x, b) = (1, true, 0, 0);
      i += 2;
    }
    0xc4 => {
      (map, wide) = ((at(i + 1) & 31) as usize, true);
      x = if at(i + 1) & 0x40 == 0 { 8 } else { 0 };
      b = if at(i + 1) & 0x20 == 0 { 8 } else { 0 };
      i += 3;
    }
    0x62 => {
      (map, wide) = ((at(i + 1) & 3) as usize, true);
      x = if at(i + 1) & 0x40 == 0 { 8 } else { 0 };
      b = if at(i + 1) & 0x20 == 0 { 8 } else { 0 };
      i += 4;
    }
    _ => {}
  }
  let op = at(i);
  i += 1;
  if map == 0 && matches!(op, 0xa4 | 0xa5 | 0xaa | 0xab | 0xa6 | 0xa7 | 0xae | 0xaf) {
    let n = if rep { g[14].min(4) * 8 } else { 8 };
    return Some((g[8], n, lock));
  }
  let has_modrm = match map {
    0 => {
      matches!(op, 0x00..=0x3f) && op & 7 < 4
        || matches!(op, 0x63 | 0x69 | 0x6b | 0x80..=0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6 | 0xf7 | 0xfe | 0xff)
    }
    1 => !matches!(op, 0x05..=0x09 | 0x0b | 0x0e | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa | 0xc8..=0xcf),
    _ => true,
  };
  if !has_modrm || map == 0 && op == 0x8d || map == 1 && !wide && matches!(op, 0x18..=0x1f | 0x0d) {
    return None;
  }
  let m = at(i);
  i += 1;
  let (md, r, rm) = (m >> 6, (m >> 3) & 7, (m & 7) as usize);
  if md == 3 || seg {
    return None;
  }
  let mut addr = 0usize;
  let mut riprel = false;
  if rm == 4 {
    let sib = at(i);
    i += 1;
    let (sc, ix, bs) = (sib >> 6, ((sib >> 3) & 7) as usize + x, (sib & 7) as usize);
    if ix != 4 {
      addr = addr.wrapping_add(reg(ix) << sc);
    }
    if bs == 5 && md == 0 {
      addr = addr.wrapping_add(unsafe { ((rip + i) as *const i32).read_unaligned() } as usize);
      i += 4;
    } else {
      addr = addr.wrapping_add(reg(bs + b));
    }
  } else if rm == 5 && md == 0 {
    riprel = true;
    addr = unsafe { ((rip + i) as *const i32).read_unaligned() } as usize;
    i += 4;
  } else {
    addr = reg(rm + b);
  }
  match md {
    1 => {
      addr = addr.wrapping_add(at(i) as i8 as usize);
      i += 1;
    }
    2 => {
      addr = addr.wrapping_add(unsafe { ((rip + i) as *const i32).read_unaligned() } as usize);
      i += 4;
    }
    _ => {}
  }
  if riprel {
    let z = if opsize { 2 } else { 4 };
    i += match (map, op) {
      (0, 0x80 | 0x82 | 0x83 | 0xc0 | 0xc1 | 0xc6 | 0x6b) => 1,
      (0, 0x81 | 0xc7 | 0x69) => z,
      (0, 0xf6) if r < 2 => 1,
      (0, 0xf7) if r < 2 => z,
      (1, 0x70..=0x73 | 0xa4 | 0xac | 0xba | 0xc2 | 0xc4..=0xc6) => 1,
      (3, _) => 1,
      _ => 0,
    };
    addr = addr.wrapping_add(rip + i);
  }
  let vector = wide || map == 1 && matches!(op, 0x10..=0x17 | 0x28..=0x2f | 0x50..=0x7f | 0xd0..=0xff);
  let len = if vector { 32 } else if rex & 8 != 0 || map == 1 && op == 0xc7 { 8 } else if op & 1 == 0 && map == 0 { 1 } else { 4 };
  Some((addr, len, lock || map == 0 && matches!(op, 0x86 | 0x87)))
}

extern "C" fn on_trap(_sig: i32, info: *mut c_void, ctx: *mut c_void) {
  let (m, n) = ME.with(|m| m.get());
  if m.is_null() {
    return;
  }
  let m = unsafe { &*m };
  let s = &m.slots[n];
  let g = unsafe { &mut *((ctx as usize + 40) as *mut [usize; 23]) };
  let int3 = unsafe { *(info as *const i32).add(2) } == 0x80;
  if int3 {
    let rip = g[16] - 1;
    g[16] = rip;
    let Some(o) = m.original(rip) else { return };
    if s.inside.load(Relaxed) && s.mode.load(Relaxed) == NTH && s.target.fetch_sub(1, Relaxed) == 0 {
      m.stop_here(s);
      s.mode.store(FREE, Relaxed);
      // the controller has removed the breakpoint
      return;
    }
    if s.inside.load(Relaxed) && s.mode.load(Relaxed) == BREAK {
      if let Some((a, l, _)) = operand_with(rip, g, o) {
        let l = l.min(28);
        if a >= m.lo && a + l + 8 <= m.hi && m.is_hot(a, l) && s.fresh(rip, a) {
          m.stop_here(s);
          s.remember(rip, a);
        }
      }
    }
    s.over.store(rip, SeqCst);
    poke(rip, o);
    g[17] |= 0x100;
    return;
  }
  let over = s.over.load(Relaxed);
  if over != 0 {
    if m.armed.load(SeqCst) && m.original(over).is_some() {
      poke(over, 0xcc);
    }
    s.over.store(0, SeqCst);
    g[17] &= !0x100;
    return;
  }
  // the handler itself runs without TF. Calls into libc are one step: a thread
  // stopped inside malloc would keep the lock of an arena
  if s.mode.load(Relaxed) != FREE && !(m.code.0..m.code.1).contains(&g[16]) {
    return;
  }
  let k = s.steps.fetch_add(1, Relaxed);
  match s.mode.load(Relaxed) {
    TRACE => {
      if let Some(t) = m.trace.get(k as usize) {
        t.store(g[16], Relaxed);
      }
    }
    ACCESS => {
      // what did the previous instruction write?
      let (a, l) = (s.addr.swap(0, Relaxed), s.len.load(Relaxed));
      if a != 0 {
        let locked = s.locked.load(Relaxed);
        for (i, w) in s.before.iter().enumerate() {
          let p = (a & !3) + 4 * i;
          if p >= a + l {
            break;
          }
          let now = unsafe { (p as *const u32).read_volatile() };
          if locked || now != w.load(Relaxed) {
            m.heat(p);
          }
        }
      }
      let rip = g[16];
      if let Some((a, l, locked)) = operand(rip, g) {
        let l = l.min(28);
        if a >= m.lo && a + l + 8 <= m.hi {
          if m.is_hot(a, l) {
            m.add_break(rip);
            if s.fresh(rip, a) {
              m.stop_here(s);
              s.remember(rip, a);
            }
          }
          for (i, w) in s.before.iter().enumerate() {
            let p = (a & !3) + 4 * i;
            if p < a + l {
              w.store(unsafe { (p as *const u32).read_volatile() }, Relaxed);
            }
          }
          s.locked.store(locked, Relaxed);
          s.len.store(l, Relaxed);
          s.addr.store(a, Relaxed);
        }
      }
    }
    _ => g[17] &= !0x100,
  }
}

fn trap_on() {
  unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
}
fn trap_off() {
  unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
}

/// Runs `f` so that the handler sees its instructions.
#[inline(never)]
fn stepped<R>(m: &Machine, n: usize, f: impl FnOnce() -> R) -> R {
  let s = &m.slots[n];
  let mode = s.mode.load(Relaxed);
  if mode == ACCESS || mode == BREAK {
    m.stop_here(s);
  }
  s.inside.store(true, Relaxed);
  if mode == ACCESS || mode == TRACE {
    trap_on();
  }
  let r = f();
  trap_off();
  s.inside.store(false, Relaxed);
  r
}

// ---- the operations ----

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum H {
  V(Value, bool),
  B(BasicBlock),
  F(Function),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
  Global,
  GlobalAlloc,
  Local,
  Binary,
  Block,
  BlockParams,
  Func,
  Decl,
  Remove,
  Types,
  Read,
  Print,
  Llvm,
  Extern,
}
const SMALL: [Op; 9] = [Op::Global, Op::GlobalAlloc, Op::Local, Op::Binary, Op::Block, Op::BlockParams, Op::Func, Op::Decl, Op::Remove];
const LARGE: [Op; 5] = [Op::Types, Op::Read, Op::Print, Op::Llvm, Op::Extern];

const TEXT: &str = "global @g=alloc i32,1\nfun @f(@a:i32):i32{\n%e:\n%x=add @a,2\njump %b(%x)\n%b(%p:i32):\nstore %p,@g\nret %p\n}\n";

/// A program every operation works on, and what is in it.
struct World {
  p: Program,
  g: Value,
  f: Function,
  x: Value,
  b: BasicBlock,
  loose: Value,
}
fn world(made: &mut Vec<H>) -> World {
  let mut p = Program::new();
  let one = p.new_value().integer(1);
  let g = p.new_value().global_alloc(one);
  let f = p.new_func(FunctionData::with_param_names("@f".into(), vec![(Some("@a".into()), Type::get_i32())], Type::get_i32()));
  let fd = p.func_mut(f);
  let a = fd.params()[0];
  let b = fd.dfg_mut().new_bb().basic_block(Some("%e".into()));
  fd.layout_mut().bbs_mut().push_key_back(b).unwrap();
  let x = fd.dfg_mut().new_value().integer(2);
  let y = fd.dfg_mut().new_value().binary(BinaryOp::Add, a, x);
  let r = fd.dfg_mut().new_value().ret(Some(y));
  fd.layout_mut().bb_mut(b).insts_mut().extend([y, r]);
  let loose = fd.dfg_mut().new_value().integer(9);
  made.extend([H::V(one, true), H::V(g, true), H::F(f), H::V(a, false), H::B(b), H::V(x, false), H::V(y, false), H::V(r, false), H::V(loose, false)]);
  World { p, g, f, x, b, loose }
}

/// Performs operations on a world of its own; returns what was created and a
/// description of all that can be seen.
fn perform(m: &Machine, n: usize, ops: &[Op], made: &mut Vec<H>) -> Result<String, String> {
  let mut w = world(made);
  let mut out = String::new();
  // what the stepped code fills must not allocate in between
  made.reserve(64);
  for &op in ops {
    let before = made.len();
    match op {
      Op::Global => {
        let v = stepped(m, n, || w.p.new_value().integer(7));
        made.push(H::V(v, true));
      }
      Op::GlobalAlloc => {
        let i = w.p.new_value().integer(3);
        made.push(H::V(i, true));
        let v = stepped(m, n, || w.p.new_value().global_alloc(i));
        made.push(H::V(v, true));
      }
      Op::Local => {
        let v = stepped(m, n, || w.p.func_mut(w.f).dfg_mut().new_value().integer(5));
        made.push(H::V(v, false));
      }
      Op::Binary => {
        let v = stepped(m, n, || w.p.func_mut(w.f).dfg_mut().new_value().binary(BinaryOp::Mul, w.x, w.x));
        made.push(H::V(v, false));
        w.p.func_mut(w.f).layout_mut().bb_mut(w.b).insts_mut().push_key_front(v).unwrap();
      }
      Op::Block => {
        let b = stepped(m, n, || w.p.func_mut(w.f).dfg_mut().new_bb().basic_block(None));
        made.push(H::B(b));
      }
      Op::BlockParams => {
        let b = stepped(m, n, || {
          let t = vec![(None, Type::get_i32()), (None, Type::get_i32())];
          w.p.func_mut(w.f).dfg_mut().new_bb().basic_block_with_params(None, t.into_iter().map(|(_, t): (Option<()>, Type)| t).collect())
        });
        made.push(H::B(b));
        made.extend(w.p.func(w.f).dfg().bb(b).params().iter().map(|v| H::V(*v, false)));
      }
      Op::Func => {
        let f = stepped(m, n, || {
          w.p.new_func(FunctionData::new("@h".into(), vec![Type::get_i32(), Type::get_i32()], Type::get_unit()))
        });
        made.push(H::F(f));
        made.extend(w.p.func(f).params().iter().map(|v| H::V(*v, false)));
        let fd = w.p.func_mut(f);
        let b = fd.dfg_mut().new_bb().basic_block(None);
        fd.layout_mut().bbs_mut().push_key_back(b).unwrap();
        let r = fd.dfg_mut().new_value().ret(None);
        fd.layout_mut().bb_mut(b).insts_mut().push_key_back(r).unwrap();
        made.extend([H::B(b), H::V(r, false)]);
      }
      Op::Decl => {
        let f = stepped(m, n, || w.p.new_func(FunctionData::new_decl("@d".into(), vec![Type::get_i32()], Type::get_i32())));
        made.push(H::F(f));
      }
      Op::Remove => {
        let v = stepped(m, n, || {
          let d = w.p.func_mut(w.f).dfg_mut();
          let old = w.loose;
          w.loose = d.new_value().integer(11);
          d.remove_value(old);
          w.loose
        });
        made.push(H::V(v, false));
      }
      Op::Types => {
        let t = stepped(m, n, || {
          let a = Type::get_array(Type::get_pointer(Type::get_i32()), 3);
          let b = Type::get_function(vec![a.clone()], Type::get_pointer(a.clone()));
          (a == Type::get_array(Type::get_pointer(Type::get_i32()), 3), format!("{a} {b} {}", b.size()))
        });
        out += &format!("{t:?}\n");
      }
      Op::Read => {
        let p = stepped(m, n, || koopa::front::Driver::from(TEXT).generate_program());
        let Ok(p) = p else { return Err("a well-formed text is rejected".into()) };
        note_all(&p, made);
        out += &text(&p)?;
      }
      Op::Print => {
        let mut g = koopa::back::KoopaGenerator::new(Vec::with_capacity(1000));
        let r = stepped(m, n, || g.generate_on(&w.p));
        r.map_err(|e| e.to_string())?;
        out += std::str::from_utf8(&g.writer()).unwrap();
      }
      Op::Llvm => {
        let mut g = koopa::back::LlvmGenerator::new(Vec::with_capacity(1000));
        let r = stepped(m, n, || g.generate_on(&w.p));
        r.map_err(|e| e.to_string())?;
        out += std::str::from_utf8(&g.writer()).unwrap();
      }
      Op::Extern => {
        // edits that make no entity
        stepped(m, n, || {
          w.p.set_value_name(w.g, Some("@g1".into()));
          w.p.func_mut(w.f).dfg_mut().set_value_name(w.x, None);
          w.p.func_mut(w.f).set_name("@f1".into());
        });
      }
    }
    // kinds as soon as the entity exists
    for h in &made[before..] {
      check_kind(*h)?;
    }
  }
  out += &text(&w.p)?;
  let e = crate::extract::extract(&w.p)?;
  out += &format!("{e:?}");
  Ok(out)
}

impl H {
  fn key(self) -> H {
    match self {
      H::V(v, _) => H::V(v, false),
      h => h,
    }
  }
}

fn check_kind(h: H) -> Result<(), String> {
  match h {
    H::V(v, g) if v.is_global() != g => Err(format!("{v:?} is {}, but says otherwise", if g { "global" } else { "local" })),
    _ => Ok(()),
  }
}

fn note_all(p: &Program, made: &mut Vec<H>) {
  for v in p.borrow_values().keys() {
    made.push(H::V(*v, true));
  }
  for (f, d) in p.funcs() {
    made.push(H::F(*f));
    made.extend(d.dfg().values().keys().map(|v| H::V(*v, false)));
    made.extend(d.dfg().bbs().keys().map(|b| H::B(*b)));
  }
}

fn text(p: &Program) -> Result<String, String> {
  let t = koopa_text(p)?;
  let l = llvm_text(p)?;
  Ok(format!("{}{}", String::from_utf8_lossy(&t), String::from_utf8_lossy(&l)))
}

// ---- helpers and the controller ----

type Outcome = (Vec<H>, Result<String, String>);

struct Crew {
  m: Arc<Machine>,
  jobs: Arc<[Mutex<(Vec<Op>, Option<Outcome>)>; NT]>,
  threads: Vec<std::thread::JoinHandle<()>>,
  n: usize,
  lost: bool,
}

impl Crew {
  fn new(n: usize) -> Crew {
    Crew::make(n, Machine::new())
  }
  fn with_trace(n: usize) -> Crew {
    let mut m = Machine::new();
    m.trace = (0..STEPS).map(|_| AtomicUsize::new(0)).collect();
    Crew::make(n, m)
  }
  fn make(n: usize, m: Machine) -> Crew {
    let m = Arc::new(m);
    ME.with(|x| x.set((Arc::as_ptr(&m), NT)));
    let jobs: Arc<[Mutex<(Vec<Op>, Option<Outcome>)>; NT]> = Arc::new([Mutex::default(), Mutex::default(), Mutex::default()]);
    let threads = (0..n)
      .map(|i| {
        let (m, jobs) = (m.clone(), jobs.clone());
        std::thread::spawn(move || {
          ME.with(|x| x.set((Arc::as_ptr(&m), i)));
          let s = &m.slots[i];
          s.tid.store(unsafe { syscall(186) } as u32, Release);
          loop {
            while matches!(s.state.load(Acquire), IDLE | DONE) {
              let v = s.state.load(Acquire);
              if matches!(v, IDLE | DONE) {
                futex_wait(&s.state, v, None);
              }
            }
            if s.state.load(Acquire) == QUIT {
              return;
            }
            let ops = jobs[i].lock().unwrap().0.clone();
            let mut made = Vec::with_capacity(256);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(&m, i, &ops, &mut made)));
            trap_off();
            s.inside.store(false, Relaxed);
            let r = r.unwrap_or_else(|_| Err(format!("panic: {}", crate::sup::last_panic())));
            drop(ops);
            jobs[i].lock().unwrap().1 = Some((made, r));
            s.state.store(DONE, Release);
            m.bell.fetch_add(1, AcqRel);
            futex_wake(&m.bell);
          }
        })
      })
      .collect();
    Crew { m, jobs, threads, n, lost: false }
  }

  fn start(&self, i: usize, ops: &[Op], mode: u32, target: u64) {
    *self.jobs[i].lock().unwrap() = (ops.to_vec(), None);
    let s = &self.m.slots[i];
    s.mode.store(mode, Relaxed);
    s.target.store(target, Relaxed);
    s.steps.store(0, Relaxed);
    s.points.store(0, Relaxed);
    s.addr.store(0, Relaxed);
    s.last[0].store(0, Relaxed);
    self.go(i);
  }

  fn go(&self, i: usize) {
    let s = &self.m.slots[i];
    s.state.store(RUN, Release);
    futex_wake(&s.state);
  }

  fn state(&self, i: usize) -> u32 {
    self.m.slots[i].state.load(Acquire)
  }

  /// Waits until helper `i` has stopped. False if it is blocked: it sleeps, or
  /// (a spinning lock) has been running for long.
  fn wait(&self, i: usize) -> bool {
    self.wait_for(i, 3, 4000)
  }
  fn wait_for(&self, i: usize, naps: u32, ms: u64) -> bool {
    let mut asleep = 0;
    let t = std::time::Instant::now();
    while t.elapsed().as_millis() < ms as u128 {
      let b = self.m.bell.load(Acquire);
      if self.state(i) != RUN {
        return true;
      }
      futex_wait(&self.m.bell, b, Some(if naps > 100 { 2000 } else { 100 }));
      if self.state(i) != RUN {
        return true;
      }
      if self.m.bell.load(Acquire) != b {
        continue;
      }
      let tid = self.m.slots[i].tid.load(Acquire);
      let st = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
      let c = st.rsplit(") ").next().and_then(|r| r.chars().next());
      asleep = if c == Some('S') { asleep + 1 } else { 0 };
      if asleep >= naps && self.state(i) == RUN {
        return false;
      }
    }
    self.state(i) != RUN
  }
  /// Waits for a helper that nothing can hold up.
  fn finish(&self, i: usize) -> bool {
    self.wait_for(i, 1000, 15_000)
  }

  fn outcome(&self, i: usize) -> Outcome {
    self.jobs[i].lock().unwrap().1.take().unwrap_or((vec![], Err("no outcome".into())))
  }
}

impl Drop for Crew {
  fn drop(&mut self) {
    if self.lost {
      // its threads may still run
      self.m.arm(false);
      std::mem::forget(self.m.clone());
      ME.with(|x| x.set((std::ptr::null(), 0)));
      return;
    }
    for i in 0..self.n {
      self.m.slots[i].state.store(QUIT, Release);
      futex_wake(&self.m.slots[i].state);
    }
    for t in self.threads.drain(..) {
      let _ = t.join();
    }
    ME.with(|x| x.set((std::ptr::null(), 0)));
  }
}

/// Compares the outcomes of one execution with those expected, and the handles
/// with each other.
fn judge(c: &Crew, scen: &[Vec<Op>], want: &HashMap<String, String>, when: &dyn Fn() -> String) -> Result<(), String> {
  let mut all: Vec<(H, usize)> = vec![];
  for i in 0..scen.len() {
    let (made, r) = c.outcome(i);
    let r = r.map_err(|e| format!("{}: thread {i}: {e}", when()))?;
    if &r != want.get(&format!("{:?}", scen[i])).unwrap() {
      return Err(format!("{}: thread {i} made something else:\n{r}\n-- than alone --\n{}", when(), want[&format!("{:?}", scen[i])]));
    }
    for h in made {
      check_kind(h).map_err(|e| format!("{}: thread {i}: {e}", when()))?;
      all.push((h, i));
    }
  }
  let mut seen: HashMap<H, usize> = HashMap::new();
  for (h, i) in &all {
    if let Some(j) = seen.insert(h.key(), *i) {
      return Err(format!("{}: {h:?} was made twice, by threads {j} and {i}", when()));
    }
  }
  Ok(())
}

/// Every way to run the helpers, switching at accesses to shared memory, with
/// at most `bound` preemptions. Returns the number of schedules.
fn schedules(ctx: &mut Ctx, c: &mut Crew, scen: &[Vec<Op>], want: &HashMap<String, String>, bound: usize, cap: u64) -> Result<u64, String> {
  let n = scen.len();
  'again: loop {
    c.m.grown.store(false, Relaxed);
    // (choices not yet made at this depth, choice made)
    let mut stack: Vec<(Vec<usize>, usize)> = vec![];
    let mut done = 0u64;
    loop {
      // every now and then all instructions are looked at again
      let mode = if done < 2 || done % 1024 == 0 { ACCESS } else { BREAK };
      for (i, ops) in scen.iter().enumerate() {
        c.start(i, ops, mode, 0);
        if !c.finish(i) {
          c.lost = true;
          return Err(format!("thread {i} does not begin"));
        }
      }
      if mode == BREAK {
        c.m.arm(true);
      }
      let mut last: Option<usize> = None;
      let mut preemptions = 0;
      let mut depth = 0;
      let mut trace: Vec<usize> = vec![];
      loop {
        let ready: Vec<usize> = (0..n).filter(|i| c.state(*i) == PARKED).collect();
        if ready.is_empty() {
          if (0..n).all(|i| c.state(i) == DONE) {
            break;
          }
          let i = (0..n).find(|i| c.state(*i) == RUN).unwrap_or(0);
          if c.state(i) == RUN && !c.finish(i) {
            c.lost = true;
            return Err(format!("after {trace:?}: all threads wait for each other"));
          }
          continue;
        }
        // the previous one first; others cost a preemption if it could go on
        let mut opts = ready.clone();
        if let Some(l) = last {
          if let Some(p) = opts.iter().position(|x| *x == l) {
            opts.remove(p);
            opts.insert(0, l);
            if preemptions >= bound {
              opts.truncate(1);
            }
          }
        }
        let pickd = if depth < stack.len() {
          let x = stack[depth].1;
          if ready.contains(&x) { x } else { opts[0] }
        } else {
          let x = opts.remove(0);
          opts.reverse();
          stack.push((opts, x));
          x
        };
        depth += 1;
        if let Some(l) = last {
          if l != pickd && ready.contains(&l) {
            preemptions += 1;
          }
        }
        last = Some(pickd);
        trace.push(pickd);
        ctx.count("transitions", 1);
        c.go(pickd);
        if !c.wait(pickd) {
          ctx.count("blocked", 1);
        }
        // those that were blocked may go on now
        for i in 0..n {
          if i != pickd && c.state(i) == RUN {
            c.wait(i);
          }
        }
        if trace.len() > 5000 {
          c.lost = true;
          return Err(format!("no end after {} switches", trace.len()));
        }
      }
      if mode == BREAK {
        c.m.arm(false);
      }
      done += 1;
      ctx.beat();
      ctx.count("schedules", 1);
      judge(c, scen, want, &|| format!("schedule {trace:?}"))?;
      ctx.note(hash64(format!("{scen:?} {trace:?}").as_bytes()));
      if c.m.grown.load(Relaxed) {
        continue 'again;
      }
      stack.truncate(depth);
      // the next schedule
      loop {
        match stack.pop() {
          None => return Ok(done),
          Some((mut o, _)) => {
            if let Some(x) = o.pop() {
              stack.push((o, x));
              break;
            }
          }
        }
      }
      if done >= cap || late(ctx) {
        ctx.count("truncated", 1);
        return Ok(done);
      }
    }
  }
}

fn expectations(c: &Crew, scens: &[Vec<Vec<Op>>]) -> Result<HashMap<String, String>, String> {
  let mut want = HashMap::new();
  for ops in scens.iter().flatten() {
    let k = format!("{ops:?}");
    if want.contains_key(&k) {
      continue;
    }
    let mut r = vec![];
    // each helper alone, which also makes its thread-local tables
    for i in 0..c.n {
      c.start(i, ops, FREE, 0);
      while !c.wait(i) {}
      r.push(c.outcome(i).1?);
    }
    if r.iter().any(|x| x != &r[0]) {
      return Err(format!("{k} yields different results on different threads:\n{}\n--\n{}", r[0], r[c.n - 1]));
    }
    want.insert(k, r.remove(0));
  }
  Ok(want)
}

fn i06(ctx: &mut Ctx) {
  // the very first entities of the process
  let first = {
    let mut made = vec![];
    world(&mut made);
    made
  };
  let act = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
  // breakpoints need writable code
  let (lo, hi) = (&raw const __executable_start as usize & !4095, &raw const etext as usize);
  assert_eq!(unsafe { syscall(10, lo, (hi - lo + 4095) & !4095, 7i64) }, 0);
  assert_eq!(unsafe { sigaction(5, &act, std::ptr::null_mut()) }, 0);
  ctx.case(|| "the first entities of a process".into(), |_| first.iter().try_for_each(|h| check_kind(*h)));
  ctx.case(|| "handles across many programs".into(), |ctx| many(ctx));
  for kind in ["global values", "local values", "basic blocks", "functions"] {
    ctx.case(|| format!("long runs of {kind} on three threads in turn"), |ctx| runs(ctx, kind));
  }

  // one preemption at every instruction, by each kind of operation in turn
  let mut every: Vec<Op> = SMALL.to_vec();
  every.push(Op::Read);
  let mut pairs: Vec<(Op, Vec<Op>)> = SMALL.iter().map(|a| (*a, every.clone())).collect();
  if ctx.thorough() {
    pairs.extend(LARGE.iter().map(|a| (*a, every.clone())));
    for a in SMALL {
      for b in SMALL.iter().chain(&LARGE) {
        pairs.push((a, vec![*b]));
      }
    }
  }
  let parts = 8u64;
  for (a, b) in pairs {
    for part in 0..parts {
      if !ctx.mine_next() {
        ctx.skip();
        continue;
      }
      let b = b.clone();
      ctx.case(|| format!("{a:?} interrupted at every instruction by {b:?} (part {part} of {parts})"), |ctx| {
        let scen = vec![vec![a], b.clone()];
        let mut c = Crew::with_trace(2);
        let want = expectations(&c, &[scen.clone()])?;
        // what it executes when alone
        c.start(0, &scen[0], TRACE, 0);
        while !c.wait(0) {}
        judge_alone(&c)?;
        let steps = c.m.slots[0].steps.load(Relaxed) as usize;
        let trace: Vec<usize> = c.m.trace[..steps.min(STEPS)].iter().map(|t| t.load(Relaxed)).collect();
        if steps > STEPS {
          ctx.count("truncated", 1);
        }
        let mut times: HashMap<usize, u64> = HashMap::new();
        for (i, rip) in trace.iter().enumerate() {
          let nth = *times.entry(*rip).and_modify(|n| *n += 1).or_insert(0);
          if i as u64 % parts != part {
            continue;
          }
          if late(ctx) {
            ctx.count("truncated", 1);
            break;
          }
          // hash tables are probed differently each time, so a rare place may
          // take a few attempts
          for _ in 0..12 {
            c.m.nbreaks.store(0, Relaxed);
            c.m.add_break(*rip);
            c.start(0, &scen[0], NTH, nth);
            c.m.arm(true);
            if !c.finish(0) {
              c.lost = true;
              return Err(format!("{a:?} does not end"));
            }
            c.m.arm(false);
            if c.state(0) != DONE {
              break;
            }
            judge_alone(&c)?;
          }
          if c.state(0) == DONE {
            ctx.count("missed", 1);
            continue;
          }
          c.start(1, &scen[1], FREE, 0);
          let blocked = !c.wait(1);
          c.go(0);
          for k in [0, 1] {
            if !c.finish(k) {
              c.lost = true;
              return Err(format!("interrupted at instruction {i}: thread {k} does not end"));
            }
          }
          ctx.beat();
          ctx.count("transitions", 3);
          ctx.count("schedules", 1);
          ctx.count("blocked", blocked as u64);
          judge(&c, &scen, &want, &|| format!("interrupted at instruction {i}"))?;
          ctx.note(hash64(format!("{a:?} {b:?} {i}").as_bytes()));
        }
        Ok(())
      });
    }
  }

  // every schedule
  let mut scens: Vec<(Vec<Vec<Op>>, usize)> = vec![];
  let unbounded = 1000;
  for a in SMALL {
    for b in SMALL {
      scens.push((vec![vec![a], vec![b]], unbounded));
      for c in SMALL {
        if ctx.thorough() || a == b {
          let many = |o: Op| matches!(o, Op::Func | Op::BlockParams);
          scens.push((vec![vec![a, c], vec![b, c]], if many(a) && many(c) { ctx.pick(3, unbounded) } else { unbounded }));
        }
        if ctx.thorough() {
          scens.push((vec![vec![a], vec![b], vec![c]], unbounded));
        }
      }
      if ctx.thorough() {
        scens.push((vec![vec![a, b], vec![b, a], vec![a]], 4));
      }
    }
    for b in LARGE {
      scens.push((vec![vec![a], vec![b]], ctx.pick(2, unbounded)));
    }
    scens.push((vec![vec![a], vec![a], vec![a]], ctx.pick(3, unbounded)));
  }
  for a in LARGE {
    for b in LARGE {
      scens.push((vec![vec![a], vec![b]], ctx.pick(2, 4)));
    }
  }
  let cap = ctx.pick(20_000, 100_000);
  for (scen, bound) in scens {
    if !ctx.mine_next() {
      ctx.skip();
      continue;
    }
    ctx.case(|| format!("all schedules of {scen:?}, at most {bound} preemptions"), |ctx| {
      let mut c = Crew::new(scen.len());
      let want = expectations(&c, &[scen.clone()])?;
      let n = schedules(ctx, &mut c, &scen, &want, bound, cap)?;
      ctx.count("traces", n);
      ctx.count("shared_words", c.m.nhot.load(Relaxed) as u64);
      if c.m.full.load(Relaxed) {
        ctx.count("table_full", 1);
      }
      Ok(())
    });
  }
}

/// Locks in the code under test make executions many and slow: what is not
/// explored in time is reported as left out.
fn late(ctx: &Ctx) -> bool {
  static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
  START.get_or_init(std::time::Instant::now).elapsed().as_secs() > ctx.pick(300, 3600)
}

fn judge_alone(c: &Crew) -> Result<(), String> {
  c.outcome(0).1.map(|_| ())
}

/// Handles of many programs alive and dropped, on one thread.
fn many(ctx: &mut Ctx) -> Result<(), String> {
  let mut seen: HashMap<H, usize> = HashMap::new();
  let mut keep = vec![];
  let mut n = 0;
  let mut progs: Vec<Program> = vec![];
  for s in r#gen::seeds() {
    progs.push(mk::build(&s).prog);
    if let Some(p) = front::read(render::text(&s).as_bytes()) {
      progs.push(p);
    }
  }
  for (i, p) in progs.into_iter().enumerate() {
    let mut made = vec![];
    note_all(&p, &mut made);
    for h in made {
      check_kind(h)?;
      n += 1;
      if let Some(j) = seen.insert(h.key(), i) {
        return Err(format!("{h:?} is in programs {j} and {i}"));
      }
    }
    if i % 2 == 0 {
      keep.push(p);
    }
  }
  ctx.count("traces", 1);
  ctx.count("transitions", n);
  Ok(())
}

/// Creates `n` entities of one kind.
fn produce(kind: &str, n: usize) -> Vec<H> {
  let mut p = Program::new();
  let f = p.new_func(FunctionData::new("@f".into(), vec![], Type::get_unit()));
  (0..n)
    .map(|i| match kind {
      "global values" => H::V(p.new_value().integer(i as i32), true),
      "local values" => H::V(p.func_mut(f).dfg_mut().new_value().integer(i as i32), false),
      "basic blocks" => H::B(p.func_mut(f).dfg_mut().new_bb().basic_block(None)),
      _ => H::F(p.new_func(FunctionData::new_decl("@g".into(), vec![], Type::get_unit()))),
    })
    .collect()
}

/// Two lasting threads and one new thread for each run, in turn.
fn runs(ctx: &mut Ctx, kind: &'static str) -> Result<(), String> {
  use std::sync::mpsc::channel;
  let mut lens: Vec<usize> = vec![1, 2, 3];
  for k in 3..ctx.pick(16, 18) {
    lens.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
  }
  lens.extend([10, 99, 100, 101, 1000, 10000]);
  let crew: Vec<_> = (0..2)
    .map(|_| {
      let (to, orders) = channel::<usize>();
      let (back, from) = channel();
      std::thread::spawn(move || orders.iter().try_for_each(|n| back.send(produce(kind, n))));
      (to, from)
    })
    .collect();
  let mut seen: HashMap<H, usize> = HashMap::new();
  let mut n = 0;
  for (i, len) in lens.into_iter().enumerate() {
    for who in 0..3 {
      let made = if who < 2 {
        crew[who].0.send(len).map_err(|e| e.to_string())?;
        crew[who].1.recv().map_err(|e| e.to_string())?
      } else {
        std::thread::spawn(move || produce(kind, len)).join().map_err(|_| "a thread failed")?
      };
      for h in made {
        check_kind(h)?;
        n += 1;
        if let Some(j) = seen.insert(h.key(), i) {
          return Err(format!("{h:?} of run {i} is also in run {j}"));
        }
      }
      ctx.count("traces", 1);
    }
    ctx.beat();
  }
  ctx.count("transitions", n);
  Ok(())
}
