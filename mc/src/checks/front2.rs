//! F05 to F07: isolation of readings, stream delivery, diagnostics.
use super::front::{alphabet, edits, flat, read, show, surroundings, texts};
use crate::extract;
use crate::r#gen;
use crate::model::*;
use crate::reftext::{self, Verdict, Why};
use crate::render;
use crate::sup::{CheckDef, Ctx, hash64};
use crate::sys::Capture;
use koopa::front::Driver;
use koopa::front::span::FileType;
use koopa::ir::Program;
use std::collections::HashSet;
use std::io::{self, Cursor, ErrorKind, Read};
use std::sync::mpsc::{Receiver, Sender, channel};

pub fn defs() -> Vec<CheckDef> {
  vec![
    CheckDef {
      id: "F05",
      level: "model_checking",
      rule: "states: which readings exist, which text each is of, and whether it has run; transitions: creating, running or dropping one, or one thread running on to its next scheduling point; every order is executed on the real code and each outcome compared with the reference reader's",
      run: f05,
      assumptions: &[
        "readers do not themselves read Koopa text while they are read from",
        "threads interact only at the granularity of single reads from their streams and of whole steps",
      ],
    },
    CheckDef {
      id: "F06",
      level: "fault_enumeration",
      rule: "every fault kind at every byte of each text and every delivery pattern; distinct = distinct pairs of a text and a fault script",
      run: f06,
      assumptions: &["an error of kind Interrupted asks for a retry; all other kinds used here mean failure"],
    },
    CheckDef {
      id: "F07",
      level: "exploration",
      rule: "every single-token edit of seed programs in several layouts and reading modes; distinct = distinct texts whose first diagnostic had a position fixed by the rules",
      run: f07,
      assumptions: &["a position is written name:line:column in the diagnostics, after the word error, whatever surrounds it; columns count bytes of ASCII text"],
    },
  ]
}

#[derive(Clone)]
enum Want {
  Prog(MProg),
  Err,
}

fn want(t: &str) -> Want {
  match reftext::read(t.as_bytes()) {
    Verdict::Accept(m) => Want::Prog(m.canon()),
    Verdict::Reject(_) => Want::Err,
    Verdict::Unspecified(u) => panic!("corpus text without a verdict ({u}): {t}"),
  }
}

fn agrees(w: &Want, p: Option<&Program>) -> Result<(), String> {
  match (w, p) {
    (Want::Err, None) => Ok(()),
    (Want::Err, Some(_)) => Err("an ill-formed text passed".into()),
    (Want::Prog(_), None) => Err("a well-formed text failed".into()),
    (Want::Prog(m), Some(p)) => match diff(m, &extract::extract(p)?.canon()) {
      None => Ok(()),
      Some(d) => Err(format!("another program was obtained: {d}")),
    },
  }
}

fn corpus() -> Vec<String> {
  let many = {
    let mut s = String::from("fun @f() { %e: ");
    for i in 0..25 {
      s += &format!("%v{i} = load %nope ");
    }
    s + "ret\n}"
  };
  vec![
    "global @g = alloc i32, 1 fun @f(@x: i32): i32 { %e: %y = add @x, 1 ret %y }".into(),
    "decl @f() decl @f()".into(),
    "fun @f() { %e: ret\n%u: ret\n}".into(),
    "fun @g(): i32 { %e: ret %nope }".into(),
    "".into(),
    "@1".into(),
    "decl @h(i32,".into(),
    many,
    "decl @k(*i32): i32".into(),
    "fun @f(@x: i32) { %e: jump %b(@x) %b(%p: i32): ret\n}".into(),
    "global @g = alloc [i32, 2], {1}".into(),
    "/* unclosed".into(),
  ]
}

// ---- F05 ----

fn f05(ctx: &mut Ctx) {
  let texts = corpus();
  let wants: Vec<Want> = texts.iter().map(|t| want(t)).collect();
  // one thread: every order of the steps of n readings
  let plans: Vec<(usize, usize, bool)> =
    if ctx.quick() { vec![(1, 12, true), (2, 12, true), (3, 8, false)] } else { vec![(2, 12, true), (3, 9, true), (4, 5, false)] };
  for (n, nt, drops) in plans {
    // steps: 0..n create, n..2n end (run or drop)
    let mut orders: Vec<Vec<usize>> = vec![];
    fn rec(n: usize, st: &mut Vec<u8>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
      if cur.len() == 2 * n {
        out.push(cur.clone());
        return;
      }
      for i in 0..n {
        if st[i] < 2 {
          // readings are interchangeable: create them in order
          if st[i] == 0 && i > 0 && st[i - 1] == 0 {
            continue;
          }
          cur.push(i);
          st[i] += 1;
          rec(n, st, cur, out);
          st[i] -= 1;
          cur.pop();
        }
      }
    }
    rec(n, &mut vec![0; n], &mut vec![], &mut orders);
    let tot = nt.pow(n as u32);
    let dm = if drops { 1usize << n } else { 1 };
    for o in &orders {
      // all text assignments of one order and drop mask in batches of one text
      // for the first reading
      for mask in 0..dm {
        for first in 0..nt {
          if !ctx.mine_next() {
            ctx.skip();
            continue;
          }
          let desc = |code: usize| {
            let mut st = vec![false; n];
            let mut s = String::new();
            for i in o {
              let t = &texts[(code / nt.pow(*i as u32)) % nt];
              if !st[*i] {
                st[*i] = true;
                s += &format!("create {i} {t:?}; ");
              } else {
                s += &format!("{} {i}; ", if mask >> i & 1 == 1 { "drop" } else { "run" });
              }
            }
            s
          };
          ctx.case(|| format!("order {o:?}, dropped mask {mask}, first text {:?}, every choice of the others", texts[first]), |ctx| {
            for rest in 0..tot / nt {
              let code = rest * nt + first;
              let pick = |i: usize| (code / nt.pow(i as u32)) % nt;
              let mut ds: Vec<Option<Driver<Cursor<&str>>>> = (0..n).map(|_| None).collect();
              let mut st = vec![0u8; n];
              for i in o {
                let t = pick(*i);
                ctx.count("transitions", 1);
                if st[*i] == 0 {
                  ds[*i] = Some(Driver::from(texts[t].as_str()));
                  st[*i] = 1;
                } else {
                  let d = ds[*i].take().unwrap();
                  if mask >> i & 1 == 1 {
                    drop(d);
                    st[*i] = 3;
                  } else {
                    let p = d.generate_program().ok();
                    agrees(&wants[t], p.as_ref()).map_err(|e| format!("{}reading {i}: {e}", desc(code)))?;
                    st[*i] = 2;
                  }
                }
                let mut key = vec![n as u8];
                for k in 0..n {
                  key.push(st[k]);
                  key.push(if st[k] == 0 { 255 } else { pick(k) as u8 });
                }
                ctx.note(hash64(&key));
              }
              ctx.count("traces", 1);
            }
            Ok(())
          });
        }
      }
    }
  }
  // two threads: one reading each, switching at every pair of read positions
  let nt = ctx.pick(6, 12);
  for a in 0..nt {
    for b in 0..nt {
      let (ta, tb) = (&texts[a], &texts[b]);
      for p in 0..=ta.len() + 1 {
        if !ctx.mine_next() {
          ctx.skip();
          continue;
        }
        ctx.case(|| format!("two threads; first {ta:?} up to read {p}, then {tb:?} up to each of its reads, then the first to its end, then the second"), |ctx| {
          let step = if ctx.quick() { 3 } else { 1 };
          for q in (0..=tb.len() + 1).step_by(step) {
            let (ra, rb) = two(ta, p, tb, q);
            agrees_flat(&wants[a], &ra).map_err(|e| format!("second thread stopped before its read {q}: first reading: {e}"))?;
            agrees_flat(&wants[b], &rb).map_err(|e| format!("second thread stopped before its read {q}: second reading: {e}"))?;
            ctx.count("transitions", 4);
            ctx.count("traces", 1);
            for k in [[0u8, 1], [1, 1], [1, 2], [2, 2]] {
              ctx.note(hash64(&[&k[..], &[a as u8, b as u8], &(p as u32).to_le_bytes(), &(q as u32).to_le_bytes()].concat()));
            }
          }
          Ok(())
        });
      }
    }
  }
}

struct Stepped<'a> {
  data: &'a [u8],
  reads: usize,
  stop: usize,
  go: Option<(Sender<()>, &'a Receiver<()>)>,
}
impl Read for Stepped<'_> {
  fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
    if self.reads == self.stop {
      if let Some((s, r)) = &self.go {
        let _ = s.send(());
        let _ = r.recv();
      }
    }
    self.reads += 1;
    // one byte at a time
    let n = self.data.len().min(b.len()).min(1);
    b[..n].copy_from_slice(&self.data[..n]);
    self.data = &self.data[n..];
    Ok(n)
  }
}

type Flat = Result<Option<MProg>, String>;

fn agrees_flat(w: &Want, r: &Flat) -> Result<(), String> {
  let r = r.as_ref().map_err(|e| e.clone())?;
  match (w, r) {
    (Want::Err, None) => Ok(()),
    (Want::Err, Some(_)) => Err("an ill-formed text passed".into()),
    (Want::Prog(_), None) => Err("a well-formed text failed".into()),
    (Want::Prog(m), Some(p)) => match diff(m, p) {
      None => Ok(()),
      Some(d) => Err(format!("another program was obtained: {d}")),
    },
  }
}

/// Runs the first reading to its read `p`, then the second to its read `q`,
/// then the first to the end, then the second.
fn two(a: &str, p: usize, b: &str, q: usize) -> (Flat, Flat) {
  let (sa, ra) = channel::<()>();
  let (sb, rb) = channel::<()>();
  fn reading(t: &str, stop: usize, s: Sender<()>, r: &Receiver<()>) -> Flat {
    crate::sup::guarded(|| {
      let rd = Stepped { data: t.as_bytes(), reads: 0, stop, go: Some((s.clone(), r)) };
      let p = Driver::new(FileType::Buffer, rd).generate_program().ok();
      match p {
        None => Ok(None),
        Some(p) => extract::extract(&p).map(|m| Some(m.canon())),
      }
    })
    .unwrap_or_else(|e| Err(format!("panic: {e}")))
  }
  std::thread::scope(|sc| {
    let h = sc.spawn(move || {
      // the second thread starts when the first stops
      let _ = rb.recv();
      let x = reading(b, q, sa.clone(), &rb);
      drop(sa);
      x
    });
    let x = reading(a, p, sb.clone(), &ra);
    let _ = sb.send(());
    drop(sb);
    (x, h.join().unwrap())
  })
}

// ---- F06 ----

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
  Retry(u32),
  Hard(ErrorKind, bool),
  Eof(bool),
}

struct Scripted<'a> {
  data: &'a [u8],
  at: usize,
  chunks: &'a dyn Fn(usize) -> usize,
  call: usize,
  faults: Vec<(usize, Fault)>,
}
impl Read for Scripted<'_> {
  fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
    let k = self.call;
    self.call += 1;
    if b.is_empty() {
      return Ok(0);
    }
    let mut limit = self.data.len();
    for (i, (p, f)) in self.faults.iter_mut().enumerate() {
      if *p == self.at {
        match f {
          Fault::Retry(n) => {
            if *n > 0 {
              *n -= 1;
              return Err(ErrorKind::Interrupted.into());
            }
          }
          Fault::Hard(kind, persist) => {
            let e = *kind;
            if !*persist {
              self.faults.remove(i);
            }
            return Err(e.into());
          }
          Fault::Eof(persist) => {
            if !*persist {
              self.faults.remove(i);
            }
            return Ok(0);
          }
        }
      } else if *p > self.at {
        limit = limit.min(*p);
      }
    }
    let n = (limit - self.at).min(b.len()).min((self.chunks)(k).max(1));
    b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
    self.at += n;
    Ok(n)
  }
}

fn plain(b: &[u8]) -> Option<MProg> {
  read(b).map(|p| extract::extract(&p).unwrap().canon())
}

fn f06_one(t: &[u8], faults: &[(usize, Fault)], chunks: &dyn Fn(usize) -> usize, base: &dyn Fn(usize) -> Option<MProg>) -> Result<(), String> {
  let r = Scripted { data: t, at: 0, chunks, call: 0, faults: faults.to_vec() };
  let got = Driver::new(FileType::Buffer, r).generate_program().ok();
  // the first hard error or early end decides
  let mut fs: Vec<_> = faults.to_vec();
  fs.sort_by_key(|f| f.0);
  let mut end = t.len();
  let mut fail = false;
  for (p, f) in fs {
    match f {
      Fault::Retry(_) => {}
      Fault::Hard(..) => {
        fail = true;
        break;
      }
      Fault::Eof(_) => {
        end = p;
        break;
      }
    }
  }
  if fail {
    return match got {
      None => Ok(()),
      Some(_) => Err("a stream that failed yielded a program".into()),
    };
  }
  match (base(end), got) {
    (None, None) => Ok(()),
    (None, Some(_)) => Err("accepted, but the same bytes from memory are rejected".into()),
    (Some(_), None) => Err("rejected, but the same bytes from memory are accepted".into()),
    (Some(m), Some(p)) => match diff(&m, &extract::extract(&p)?.canon()) {
      None => Ok(()),
      Some(d) => Err(format!("another program than for the same bytes from memory: {d}")),
    },
  }
}

fn f06(ctx: &mut Ctx) {
  let mut ts: Vec<String> = r#gen::seeds().iter().map(render::text).collect();
  ts.extend(corpus());
  ts.push("decl @a() // c\n/* d */ decl @b(): *[i32, 3]".into());
  ts.push("global @g = alloc [[i32, 2], 2], {{1, -2}, zeroinit} fun @f() { %e: br 1, %a, %b %a: jump %c(1) %b: jump %c(2) %c(%p: i32): ret\n}".into());
  let kinds = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::NotFound,
  ];
  for t in &ts {
    let b = t.as_bytes();
    let cache = std::cell::RefCell::new(std::collections::HashMap::new());
    let base = |n: usize| -> Option<MProg> { cache.borrow_mut().entry(n).or_insert_with(|| plain(&b[..n])).clone() };
    for p in 0..=b.len() {
      if !ctx.mine_next() {
        ctx.skip();
        continue;
      }
      ctx.case(|| format!("all single faults before byte {p} of {t:?}"), |ctx| {
        let mut fs: Vec<Fault> = vec![Fault::Retry(1), Fault::Retry(2), Fault::Retry(40), Fault::Eof(true), Fault::Eof(false)];
        for k in kinds {
          fs.push(Fault::Hard(k, true));
          fs.push(Fault::Hard(k, false));
        }
        for f in fs {
          for c in [1usize, 7, 1 << 20] {
            f06_one(b, &[(p, f)], &|_| c, &base).map_err(|e| format!("{f:?} before byte {p}, {c} bytes per read: {e}"))?;
            ctx.count("evaluations", 1);
            ctx.note(hash64(format!("{t}{p}{f:?}{c}").as_bytes()));
          }
        }
        // one read that delivers a different number of bytes
        for odd in [1usize, 2, 3, 5] {
          for reg in [1usize, 4, 64] {
            f06_one(b, &[], &|k| if k == p { odd } else { reg }, &base).map_err(|e| format!("{reg} bytes per read, {odd} in read {p}: {e}"))?;
            ctx.count("evaluations", 1);
            ctx.note(hash64(format!("{t}{p}{odd}c{reg}").as_bytes()));
          }
        }
        Ok(())
      });
    }
    // pairs of faults
    if b.len() > ctx.pick(200, 400) {
      continue;
    }
    for p in 0..=b.len() {
      if !ctx.mine_next() {
        ctx.skip();
        continue;
      }
      ctx.case(|| format!("all pairs of faults, the first before byte {p} of {t:?}"), |ctx| {
        for q in p + 1..=b.len() {
          for f in [Fault::Retry(1), Fault::Retry(3), Fault::Eof(false), Fault::Hard(ErrorKind::Other, false)] {
            for g in [Fault::Retry(1), Fault::Eof(true), Fault::Hard(ErrorKind::UnexpectedEof, false), Fault::Hard(ErrorKind::Other, true)] {
              f06_one(b, &[(p, f), (q, g)], &|_| 16, &base).map_err(|e| format!("{f:?} before byte {p}, {g:?} before byte {q}: {e}"))?;
              ctx.count("evaluations", 1);
              ctx.note(hash64(format!("{t}{p}{f:?}{q}{g:?}").as_bytes()));
            }
          }
        }
        Ok(())
      });
    }
  }
}

// ---- F07 ----

pub fn strip_ansi(b: &[u8]) -> String {
  let s = String::from_utf8_lossy(b);
  let mut o = String::new();
  let mut it = s.chars().peekable();
  while let Some(c) = it.next() {
    if c == '\u{1b}' {
      for d in it.by_ref() {
        if d.is_ascii_alphabetic() {
          break;
        }
      }
    } else {
      o.push(c);
    }
  }
  o
}

/// The first `name:line:col` after the word "error".
fn position(out: &str, name: &str) -> Option<(u32, u32)> {
  let mut rest = &out[out.find("error")?..];
  let pat = format!("{name}:");
  loop {
    let i = rest.find(&pat)?;
    rest = &rest[i + pat.len()..];
    let num = |s: &str| -> Option<(u32, usize)> {
      let e = s.bytes().position(|c| !c.is_ascii_digit()).unwrap_or(s.len());
      s[..e].parse().ok().map(|n| (n, e))
    };
    if let Some((l, e)) = num(rest) {
      if let Some(s) = rest[e..].strip_prefix(':') {
        if let Some((c, _)) = num(s) {
          return Some((l, c));
        }
      }
    }
  }
}

/// Every diagnostic of `out` points at tokens of the text; in files the lines
/// it shows are the lines of the file, marked exactly below the tokens.
fn diagnostics(out: &str, name: &str, src: &[u8], file: bool, fault: Option<(u32, u32)>) -> Result<u64, String> {
  let Ok(toks) = reftext::lex(src) else { return Ok(0) };
  let starts: HashSet<(u32, u32)> = toks.iter().map(|t| (t.line, t.col)).collect();
  // the line and column of the last byte of every token
  let ends: HashSet<(u32, u32)> = toks.iter().map(|t| (t.line, t.col + (t.end - t.start).max(1) as u32 - 1)).collect();
  let bad = matches!(toks.last(), Some(t) if t.k == reftext::K::Bad);
  let src_lines: Vec<&[u8]> = src.split(|c| *c == b'\n').collect();
  let lines: Vec<&str> = out.split('\n').collect();
  let (mut errors, mut warnings, mut checked) = (0u64, 0u64, 0u64);
  let mut i = 0;
  while i < lines.len() {
    let l = lines[i];
    i += 1;
    if l.starts_with("warning: ") {
      warnings += 1;
      continue;
    }
    if let Some(n) = l.strip_suffix(" emitted") {
      let count = |what: &str| -> Option<u64> {
        n.split(" and ").find_map(|p| p.trim_end_matches('s').strip_suffix(what)?.trim().parse().ok())
      };
      if count("error").unwrap_or(0) != errors || count("warning").unwrap_or(0) != warnings {
        return Err(format!("{errors} errors and {warnings} warnings are reported, the summary says {l:?}"));
      }
      checked += 1;
      continue;
    }
    if !l.starts_with("error: ") {
      continue;
    }
    errors += 1;
    let Some(at) = lines.get(i).and_then(|l| l.trim_start().strip_prefix("at ")) else { continue };
    let Some((line, col)) = at.strip_prefix(name).and_then(|r| r.strip_prefix(':')).and_then(|r| r.split_once(':')) else {
      return Err(format!("the place of a diagnostic is not in {name}: {at:?}"));
    };
    let (Ok(line), Ok(col)) = (line.parse::<u32>(), col.parse::<u32>()) else {
      return Err(format!("the place of a diagnostic is no line and column: {at:?}"));
    };
    i += 1;
    // after a fault in the bytes themselves tokens are no longer comparable
    let last = toks.last().map(|t| (t.line, t.col)).unwrap_or((1, 1));
    if bad && (line, col) >= last {
      continue;
    }
    let eof = (line, col) >= last || col == 0;
    if !starts.contains(&(line, col)) && !eof {
      return Err(format!("a diagnostic points at {line}:{col}, where no token begins: {l:?}"));
    }
    checked += 1;
    let mut rows = vec![];
    while i < lines.len() && !lines[i].is_empty() && !lines[i].starts_with("error: ") {
      rows.push(lines[i]);
      i += 1;
    }
    if !file {
      continue;
    }
    if eof {
      continue;
    }
    // the mark of a syntax fault covers just the token at fault
    let one: HashSet<(u32, u32)> = match fault {
      Some(p) if p == (line, col) && errors == 1 => {
        let t = toks.iter().find(|t| (t.line, t.col) == p).ok_or("no token at the fault")?;
        [(t.line, t.col + (t.end - t.start).max(1) as u32 - 1)].into()
      }
      _ => HashSet::new(),
    };
    let ends = if one.is_empty() { &ends } else { &one };
    excerpt(&rows, &src_lines, line, col, ends, bad.then_some(last)).map_err(|e| format!("{e}, in the diagnostic at {line}:{col}:\n{}", rows.join("\n")))?;
    checked += 1;
  }
  Ok(checked)
}

/// The lines shown for a diagnostic that begins at `line`:`col`. Where tokens
/// end behind `open` is not known.
fn excerpt(rows: &[&str], src: &[&[u8]], line: u32, col: u32, ends: &HashSet<(u32, u32)>, open: Option<(u32, u32)>) -> Result<(), String> {
  // a source line as shown, with tabs as `w` blanks, and the offset in it of
  // every byte of the line
  let shown = |n: u32, w: usize| -> Option<(String, Vec<usize>)> {
    let l = src.get(n.checked_sub(1)? as usize)?;
    let l = l.strip_suffix(b"\r").unwrap_or(l);
    let (mut at, mut bytes) = (vec![], vec![]);
    for c in l.iter() {
      if *c == b'\t' {
        bytes.extend(std::iter::repeat_n(b' ', w));
        at.push(bytes.len() - 1);
      } else {
        at.push(bytes.len());
        bytes.push(*c);
      }
    }
    Some((String::from_utf8_lossy(&bytes).into_owned(), at))
  };
  let try_width = |w: usize| -> Result<(), String> {
    let mut numbered: Vec<(u32, usize)> = vec![];
    let mut marks: Vec<(u32, usize, usize, bool)> = vec![];
    for r in rows {
      let Some(bar) = r.find('|') else { return Err(format!("a row without a bar: {r:?}")) };
      let head = r[..bar].trim();
      let rest = &r[bar + 1..];
      if let Ok(n) = head.parse::<u32>() {
        let Some((text, _)) = shown(n, w) else { return Err(format!("line {n} is shown, the file is shorter")) };
        // the text follows blanks or the bar of a range
        let Some(off) = [" ", "   ", " | "].iter().find_map(|p| (rest.strip_prefix(p)? == text).then_some(bar + 1 + p.len())) else {
          return Err(format!("line {n} is {text:?}, shown as {r:?}"));
        };
        if numbered.last().is_some_and(|(m, _)| *m >= n) {
          return Err("lines are shown out of order".into());
        }
        numbered.push((n, off));
      } else if head.is_empty() {
        if let (Some(a), Some(z)) = (rest.find('^'), rest.rfind('^')) {
          let Some((n, off)) = numbered.last() else { return Err("a mark above the first line".into()) };
          let (a, z) = (a + bar + 1, z + bar + 1);
          if a < *off && !rest.contains('_') {
            return Err("a mark left of the text".into());
          }
          marks.push((*n, a.wrapping_sub(*off), z.wrapping_sub(*off), rest.contains('_')));
        }
      } else if !head.bytes().all(|c| c == b'.') {
        return Err(format!("a row that is none: {r:?}"));
      } else if !rest.trim().trim_matches('|').is_empty() {
        return Err(format!("rows run together: {r:?}"));
      }
    }
    if numbered.first().map(|f| f.0) != Some(line) {
      return Err(format!("the first line shown is {:?}", numbered.first()));
    }
    let (Some(first), Some(last)) = (marks.first(), marks.last()) else { return Err("no marks".into()) };
    let want = shown(line, w).unwrap().1.get(col as usize - 1).copied().ok_or("a column beyond the line")?;
    if first.0 != line || first.1 != want {
      return Err(format!("the mark of the first line is at {:?}, the text at {want}", (first.0, first.1)));
    }
    let (at, len) = shown(last.0, w).map(|(t, a)| (a, t.len())).unwrap();
    // the mark ends with a token, whose column it is
    let Some(end) = at.iter().position(|a| *a == last.2) else {
      return Err(format!("the last mark is at {}, the line has {len}", last.2));
    };
    let end_at = (last.0, end as u32 + 1);
    if !ends.contains(&end_at) && open.is_none_or(|o| end_at < o) {
      return Err(format!("the last mark is at column {}, where no token ends", end + 1));
    }
    if numbered.last().unwrap().0 != last.0 {
      return Err("a line below the marked ones".into());
    }
    if last.0 != line && marks.len() != 2 {
      return Err("marks on lines between".into());
    }
    Ok(())
  };
  let first = try_width(2);
  match first {
    Err(e) if [1usize, 3, 4, 8].iter().all(|w| try_width(*w).is_err()) => Err(e),
    _ => Ok(()),
  }
}

struct Diag {
  cap: Capture,
  file: std::path::PathBuf,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
  Buffer,
  Stdin,
  File,
}

fn diag(ctx: &mut Ctx, d: &Diag, t: &str, mode: Mode) -> Result<(), String> {
  let b = t.as_bytes();
  let (ok, out) = d.cap.run(|| match mode {
    Mode::Buffer => Driver::new(FileType::Buffer, Cursor::new(b)).generate_program().is_ok(),
    Mode::Stdin => Driver::new(FileType::Stdin, Cursor::new(b)).generate_program().is_ok(),
    Mode::File => {
      std::fs::write(&d.file, b).unwrap();
      Driver::from_path(d.file.clone()).unwrap().generate_program().is_ok()
    }
  });
  let out = strip_ansi(&out);
  if ok && out.contains("error") {
    return Err(format!("accepted, but an error is reported:\n{out}"));
  }
  if !ok && !out.contains("error") {
    return Err("rejected without a diagnostic".into());
  }
  if ok {
    return Ok(());
  }
  let name = match mode {
    Mode::Buffer => "<buffer>".to_string(),
    Mode::Stdin => "<stdin>".to_string(),
    Mode::File => d.file.display().to_string(),
  };
  if t.is_ascii() {
    let fault = match reftext::read(b) {
      Verdict::Reject(Why::Syntax(l, c)) if reftext::prefix_clean(b) => Some((l, c)),
      _ => None,
    };
    let n = diagnostics(&out, &name, b, mode == Mode::File, fault)?;
    ctx.count("diagnostics", n);
    if let Some((a, z)) = reftext::faulty_item(b) {
      match position(&out, &name) {
        Some(p) if a <= p && (p < z || z.1 == 0) => {
          ctx.count("rule_faults", 1);
        }
        g => return Err(format!("the rules are broken between {a:?} and {z:?}, but the first diagnostic says {g:?} ({mode:?}):\n{}", out.lines().take(6).collect::<Vec<_>>().join("\n"))),
      }
    }
  }
  if let Verdict::Reject(Why::Syntax(l, c)) = reftext::read(b) {
    if t.is_ascii() && reftext::prefix_clean(b) {
      match position(&out, &name) {
        Some((gl, gc)) if gl == l && (gc == c || c == 0) => {
          ctx.note(hash64(format!("{mode:?}{t}").as_bytes()));
        }
        g => {
          return Err(format!(
            "the first fault is at line {l}{}, but the first diagnostic says {g:?} ({mode:?}):\n{}",
            if c == 0 { " (end of text)".into() } else { format!(" column {c}") },
            out.lines().take(6).collect::<Vec<_>>().join("\n")
          ));
        }
      }
    }
  }
  Ok(())
}

/// One of three layouts of a text.
pub fn lay(t: &[render::Tok], k: usize) -> String {
  match k {
    0 => flat(t),
    1 => render::join(t),
    _ => {
      let seps = ["\n", "\t", " /* c\n d */ ", "\r\n", " ", "// x\n", "\n\n  ", "/**/"];
      let mut s = String::from("\n  ");
      for (i, k) in t.iter().enumerate() {
        s += &k.s;
        if k.next == 2 {
          s.push('\n');
        } else if k.next == 1 {
          s.push(' ');
        } else {
          s += seps[(i * 5 + 3) % seps.len()];
        }
      }
      s
    }
  }
}

fn f07(ctx: &mut Ctx) {
  let d = Diag { cap: Capture::new(2), file: ctx.dir.join(format!("in.{}.{}", ctx.shard, std::process::id())) };
  let modes = [Mode::Buffer, Mode::Stdin, Mode::File];
  for t in texts() {
    ctx.case(|| t.clone(), |ctx| {
      for m in modes {
        diag(ctx, &d, &t, m)?;
        for (a, b) in surroundings() {
          diag(ctx, &d, &format!("{a}{t}{b}"), m)?;
        }
      }
      Ok(())
    });
  }
  for (si, s) in r#gen::seeds().iter().enumerate() {
    let t = render::tokens(s);
    let al = alphabet(&t);
    let mut k = 0usize;
    edits(&t, &al, &mut |e| {
      k += 1;
      if !ctx.mine_next() {
        ctx.skip();
        return;
      }
      // every layout as a buffer, one of them in another mode
      let rot = k;
      ctx.case(|| flat(&e), |ctx| {
        for l in 0..3 {
          diag(ctx, &d, &lay(&e, l), Mode::Buffer)?;
        }
        if ctx.thorough() || si > 0 {
          diag(ctx, &d, &lay(&e, rot % 3), if rot % 2 == 0 { Mode::File } else { Mode::Stdin })?;
        }
        if ctx.thorough() {
          for l in 0..3 {
            diag(ctx, &d, &lay(&e, l), Mode::File)?;
          }
        }
        Ok(())
      });
    });
    // the same faults far from the start
    for lines in [9usize, 10, 99, 100, 1000] {
      for cols in [0usize, 9, 300] {
        let pre = format!("{}{}", "\n".repeat(lines), " ".repeat(cols));
        for i in 0..t.len() {
          if !ctx.mine_next() {
            ctx.skip();
            continue;
          }
          let mut e = t.clone();
          e[i].s = "#".into();
          let x = format!("{pre}{}", flat(&e));
          ctx.case(|| show(x.as_bytes()), |ctx| {
            diag(ctx, &d, &x, Mode::Buffer)?;
            diag(ctx, &d, &x, Mode::File)
          });
        }
      }
    }
  }
  let _ = std::fs::remove_file(&d.file);
}
