//! F11: what is reported about texts of several definitions; F12: reports
//! depend on the text alone, warnings about unreachable blocks.
use super::front;
use super::front2::strip_ansi;
use crate::extract::extract;
use crate::r#gen as gen_;
use crate::reftext;
use crate::render;
use crate::sup::{CheckDef, Ctx, hash64};
use crate::sys::{self, Capture};
use koopa::front::Driver;
use koopa::front::span::{FileType, Span};
use std::collections::HashMap;
use std::io::Cursor;
use std::sync::atomic::Ordering;

pub fn defs() -> Vec<CheckDef> {
  vec![
    CheckDef {
      id: "F11",
      level: "exploration",
      rule: "every sequence of up to a number of definitions from a pool of faulty and faultless ones, the places of all diagnostics against the places of the faulty ones; distinct = distinct texts compared",
      run: f11,
      assumptions: &["the reader gives up after 20 errors, which no text here reaches"],
    },
    CheckDef {
      id: "F12",
      level: "exploration",
      rule: "every text read once per hash seed, in a new thread each time, the diagnostics compared byte by byte and counted; warnings against the blocks that a search from the entry does not reach; distinct = distinct texts compared",
      run: f12,
      assumptions: &["hash maps take their seed from getrandom, which the harness replaces"],
    },
  ]
}

/// Definitions, each with `$` for its number and whether it is faultless.
fn pool() -> Vec<(&'static str, bool)> {
  vec![
    ("decl @f$(i32): i32", true),
    ("global @f$ = alloc [i32, 2], {1, 2}", true),
    ("fun @f$() {\n%e: ret\n}", true),
    ("fun @f$(@p: i32): i32 {\n%e: br @p, %a, %b\n%a: %x = add @p, 1\njump %c(%x)\n%b: jump %c(2)\n%c(%y: i32): ret %y\n}", true),
    ("decl @g$()\nfun @f$() {\n%e: call @g$()\nret\n}", true),
    // the grammar
    ("decl @f$(i32", false),
    ("decl f$()", false),
    ("decl @f$(): [i32, 0]", false),
    ("decl @f$(): [i32]", false),
    ("global @f$ = alloc i32", false),
    ("global @f$ alloc i32, 0", false),
    ("global @f$ = alloc i32, {}", false),
    ("global @f$ = alloc i32, @g", false),
    ("fun @f$() { }", false),
    ("fun @f$() {\n%e: ret 1 2\n}", false),
    ("fun @f$() {\n%e: foo\nret\n}", false),
    ("fun @f$() {\n%e: store 1 @x\nret\n}", false),
    ("fun @f$() {\n%e: @0 = alloc i32\nret\n}", false),
    ("fun @f$() {\n%e: %x = alloc i32\n}", false),
    ("fun @f$() {\n%e: jump %e", false),
    ("fun @f$() {\n%e ret\n}", false),
    ("fun @f$() {\n%e: %x = 5\nret\n}", false),
    ("fun @f$() {\n%e: br 1, %e\n}", false),
    ("fun @f$(@p) {\n%e: ret\n}", false),
    ("fun @f$() {\n%e: ret\n} }", false),
    ("foo$", false),
    ("@f$", false),
    ("# $", false),
    // the rules
    ("decl @f$()\ndecl @f$()", false),
    ("global @f$ = alloc i32, 0\nglobal @f$ = alloc i32, 1", false),
    ("global @f$ = alloc i32, 0\ndecl @f$()", false),
    ("decl @f$()\nfun @f$() {\n%e: ret\n}", false),
    ("global @f$ = alloc i32, {1}", false),
    ("global @f$ = alloc *i32, 1", false),
    ("global @f$ = alloc [i32, 2], {1}", false),
    ("global @f$ = alloc [[i32, 2], 2], {{1, 2}, {1}}", false),
    ("fun @f$(@a: i32, @a: i32) {\n%e: ret\n}", false),
    ("fun @f$() {\n%e: ret\n%e: ret\n}", false),
    ("fun @f$() {\n%e: call @nope()\nret\n}", false),
    ("fun @f$() {\n%e: %x = load @nope\nret\n}", false),
    ("fun @f$() {\n%e: %x = add %y, 1\n%y = add 1, 2\nret\n}", false),
    ("fun @f$() {\n%e: %x = add 1, 2\n%x = add 1, 2\nret\n}", false),
    ("fun @f$() {\n%e: jump %nope\n}", false),
    ("fun @f$() {\n%e: jump %e\n}", false),
    ("fun @f$() {\n%e: jump %a(1)\n%a: ret\n}", false),
    ("fun @f$() {\n%e: jump %a\n%a(%x: i32): ret\n}", false),
    ("fun @f$(@p: *i32) {\n%e: jump %a(@p)\n%a(%x: i32): ret\n}", false),
    ("fun @f$(@p: *i32) {\n%e: br @p, %a, %a\n%a: ret\n}", false),
    ("fun @f$() {\n%e: ret 1\n}", false),
    ("fun @f$(): i32 {\n%e: ret\n}", false),
    ("fun @f$(@p: *i32): i32 {\n%e: ret @p\n}", false),
    ("fun @f$(@p: i32) {\n%e: store 1, @p\nret\n}", false),
    ("fun @f$(@p: **i32) {\n%e: store 1, @p\nret\n}", false),
    ("fun @f$(@p: *i32) {\n%e: %x = getelemptr @p, 1\nret\n}", false),
    ("fun @f$(@p: i32) {\n%e: %x = getptr @p, 1\nret\n}", false),
    ("fun @f$(@p: *i32) {\n%e: %x = mul @p, 1\nret\n}", false),
    ("fun @f$(@p: i32) {\n%e: call @f$()\nret\n}", false),
    ("fun @f$(@p: *i32) {\n%e: call @f$(1)\nret\n}", false),
    ("fun @f$() {\n%e: %x = call @f$()\nret\n}", false),
  ]
}

type Report = Vec<(u32, u32, String)>;

/// Every diagnostic with a place, and whether the text is accepted.
fn report(cap: &Capture, text: &str) -> Result<(bool, Report), String> {
  let (ok, out) = cap.run(|| Driver::new(FileType::Buffer, Cursor::new(text.as_bytes())).generate_program().is_ok());
  let out = strip_ansi(&out);
  let lines: Vec<&str> = out.lines().collect();
  let mut v = vec![];
  for i in 0..lines.len() {
    let Some(m) = lines[i].strip_prefix("error: ") else { continue };
    let at = lines.get(i + 1).and_then(|l| l.trim_start().strip_prefix("at <buffer>:")).and_then(|r| r.split_once(':'));
    let Some((Ok(l), Ok(c))) = at.map(|(l, c)| (l.parse(), c.parse())) else {
      return Err(format!("a diagnostic without a place: {}", lines[i]));
    };
    v.push((l, c, m.to_string()));
  }
  Ok((ok, v))
}

fn f11(ctx: &mut Ctx) {
  let cap = Capture::new(2);
  let pool = pool();
  let mut alone: HashMap<(usize, usize), Report> = HashMap::new();
  let n = pool.len();
  let most = ctx.pick(3usize, 4);
  for len in 1..=most {
    for k in 0..n.pow(len as u32) {
      let pick: Vec<usize> = (0..len).map(|i| k / n.pow((len - 1 - i) as u32) % n).collect();
      // the longest sequences with at least one faultless part between others
      if len == 4 && !pick[1..3].iter().any(|p| pool[*p].1) {
        continue;
      }
      if !ctx.mine_next() {
        ctx.skip();
        continue;
      }
      let parts: Vec<String> = pick.iter().enumerate().map(|(i, p)| pool[*p].0.replace('$', &i.to_string())).collect();
      let text = parts.join("\n") + "\n";
      ctx.case(|| text.clone(), |ctx| {
        let mut want: Report = vec![];
        // where each part begins, and where the text after the last one does
        let mut starts = vec![1u32];
        for (i, p) in pick.iter().enumerate() {
          let line = starts[i] - 1;
          let r = match alone.get(&(i, *p)) {
            Some(r) => r,
            None => {
              let one = format!("{}\ndecl @tail()\n", parts[i]);
              let (ok, r) = report(&cap, &one)?;
              let lines = parts[i].lines().count() as u32;
              let good = matches!(reftext::read(one.as_bytes()), reftext::Verdict::Accept(_));
              if good != pool[*p].1 {
                panic!("the reference does not agree about {one}");
              }
              if ok != good || r.is_empty() != good {
                return Err(format!("{} is {}, diagnostics: {r:?}", if good { "a faultless definition" } else { "a faulty definition" }, if ok { "accepted" } else { "rejected" }));
              }
              if let Some(d) = r.iter().find(|d| d.0 > lines + 1) {
                return Err(format!("a diagnostic outside the faulty definition: {d:?}"));
              }
              alone.entry((i, *p)).or_insert(r)
            }
          };
          want.extend(r.iter().map(|(l, c, m)| (l + line, *c, m.clone())));
          let lines = parts[i].lines().count() as u32;
          // what is missing at the end of a part may be found in the next one
          let stray = pick.get(i + 1).is_some_and(|n| !["decl ", "fun ", "global "].iter().any(|w| pool[*n].0.starts_with(w)));
          if stray && r.iter().any(|d| d.0 > lines) {
            return Ok(());
          }
          starts.push(starts[i] + lines);
        }
        // where a text ends within its last line is not fixed
        let text = format!("{text}decl @tail()\n");
        if want.len() > 18 {
          return Ok(());
        }
        let (ok, got) = report(&cap, &text)?;
        let faulty = pick.iter().any(|p| !pool[*p].1);
        if ok == faulty {
          return Err(format!("{}, though {} definition is faulty", if ok { "accepted" } else { "rejected" }, if faulty { "a" } else { "no" }));
        }
        for (i, p) in pick.iter().enumerate() {
          let (from, to) = (starts[i], starts[i + 1]);
          if pool[*p].1 {
            if let Some(d) = got.iter().find(|d| d.0 > from && d.0 < to || d.0 == from && d.1 > 1) {
              return Err(format!("a diagnostic in a faultless definition: {d:?}, of all: {got:?}"));
            }
          } else if i > 0 && !pool[pick[i - 1]].1 && !["decl ", "fun ", "global "].iter().any(|w| pool[*p].0.starts_with(w)) {
            // skipped along with the rest of the fault before it
          } else if !got.iter().any(|d| d.0 >= from && d.0 < to || d.0 == to && d.1 <= 1) {
            return Err(format!("no diagnostic about the faulty definition in lines {from} to {}: {got:?}", to - 1));
          }
        }
        ctx.note(hash64(text.as_bytes()));
        Ok(())
      });
    }
  }
}

// ---- F12 ----

/// Reads a text in a new thread whose hash maps have the given seed:
/// the diagnostics as printed, the numbers of errors and warnings, and
/// what was read.
fn read_seeded(cap: &Capture, text: &[u8], seed: u64) -> Result<(Vec<u8>, usize, usize, Option<u64>), String> {
  sys::HASH_SEED.store(seed, Ordering::Relaxed);
  let (r, out) = cap.run(|| {
    std::thread::scope(|s| {
      s.spawn(|| {
        let p = Driver::new(FileType::Buffer, Cursor::new(text)).generate_program().ok();
        let h = match &p {
          Some(p) => Some(extract(p)?.hash()),
          None => None,
        };
        Ok::<_, String>((Span::error_num(), Span::warning_num(), h))
      })
      .join()
    })
  });
  sys::HASH_SEED.store(1, Ordering::Relaxed);
  let (e, w, h) = r.map_err(|_| "reading panics".to_string())??;
  Ok((out, e, w, h))
}

fn same_report(cap: &Capture, text: &[u8], seeds: u64) -> Result<(String, Option<u64>), String> {
  let first = read_seeded(cap, text, 1000)?;
  for s in 1..seeds {
    let r = read_seeded(cap, text, 1000 + s)?;
    if r != first {
      return Err(format!(
        "another reading of the same text: {} errors, {} warnings:\n{}\n-- at first {} errors, {} warnings --\n{}",
        r.1, r.2, strip_ansi(&r.0), first.1, first.2, strip_ansi(&first.0)
      ));
    }
  }
  let out = strip_ansi(&first.0);
  let n = |w: &str| out.lines().filter(|l| l.starts_with(w)).count();
  if (n("error: "), n("warning: ")) != (first.1, first.2) {
    return Err(format!("{} errors and {} warnings are counted, printed is\n{out}", first.1, first.2));
  }
  if (first.1 == 0) != first.3.is_some() {
    return Err(format!("{} errors, and the text is {}", first.1, if first.3.is_some() { "accepted" } else { "rejected" }));
  }
  // the summary, which a reader that gives up does not print
  if first.1 > 18 {
    return Ok((out, first.3));
  }
  let s = |n: usize, w: &str| (n > 0).then(|| format!("{n} {w}{}", if n > 1 { "s" } else { "" }));
  let parts: Vec<String> = [s(first.1, "error"), s(first.2, "warning")].into_iter().flatten().collect();
  let last = out.lines().next_back().unwrap_or("").to_string();
  if parts.is_empty() && !out.is_empty() || !parts.is_empty() && last != parts.join(" and ") + " emitted" {
    return Err(format!("{} errors and {} warnings are counted, printed is\n{out}", first.1, first.2));
  }
  Ok((out, first.3))
}

fn f12(ctx: &mut Ctx) {
  let cap = Capture::new(2);
  let seeds = ctx.pick(3u64, 6);
  // control flow: each block returns, jumps or branches to any block but the first
  let most = ctx.pick(5usize, 6);
  for n in 2..=most {
    // ret; jump b; br b, b
    let alt = 1 + (n - 1) + if n <= 4 { (n - 1) * (n - 1) } else { n - 2 };
    for k in 0..alt.pow(n as u32) {
      if !ctx.mine_next() {
        ctx.skip();
        continue;
      }
      let ends: Vec<Vec<usize>> = (0..n)
        .map(|i| {
          let a = k / alt.pow(i as u32) % alt;
          match a {
            0 => vec![],
            a if a < n => vec![a],
            // larger ones only branch to neighbours
            a if n > 4 => vec![a - n + 1, a - n + 2],
            a => vec![(a - n) / (n - 1) + 1, (a - n) % (n - 1) + 1],
          }
        })
        .collect();
      for layout in 0..2 {
        // names neither in the order of the text nor all of one length
        let name = |i: usize| format!("%{}{}", if layout == 0 { "b" } else { "" }, ["x", "m1", "a", "zz", "c", "k9"][(i * 5 + 2) % 6]);
        let mut text = String::from("global @g = alloc i32, 0\nfun @f(@p: i32) {\n");
        let mut at = vec![];
        for (i, e) in ends.iter().enumerate() {
          if layout == 1 {
            text += &"\n".repeat(i % 2);
            text += &" ".repeat(i + 1);
          }
          let line = text.matches('\n').count() + 1;
          let col = text.len() - text.rfind('\n').unwrap();
          at.push((line as u32, col as u32));
          text += &name(i);
          text += if layout == 1 { ": store @p, @g" } else { ":" };
          text += "\n  ";
          match e.as_slice() {
            [] => text += "ret\n",
            [a] => text += &format!("jump {}\n", name(*a)),
            [a, b] => text += &format!("br @p, {}, {}\n", name(*a), name(*b)),
            _ => unreachable!(),
          }
        }
        text += "}\n";
        ctx.case(|| text.clone(), |ctx| {
          let mut seen = vec![false; n];
          let mut todo = vec![0];
          while let Some(b) = todo.pop() {
            if !std::mem::replace(&mut seen[b], true) {
              todo.extend(&ends[b]);
            }
          }
          let (out, h) = same_report(&cap, text.as_bytes(), seeds)?;
          if h.is_none() {
            return Err(format!("a legal text is rejected:\n{out}"));
          }
          let mut want: Vec<(u32, u32)> = (0..n).filter(|i| !seen[*i]).map(|i| at[i]).collect();
          want.sort();
          let mut got = vec![];
          let lines: Vec<&str> = out.lines().collect();
          for (i, l) in lines.iter().enumerate() {
            if !l.starts_with("warning: ") {
              continue;
            }
            let at = lines.get(i + 1).and_then(|l| l.trim_start().strip_prefix("at <buffer>:")).and_then(|r| r.split_once(':'));
            let Some((Ok(line), Ok(col))) = at.map(|(l, c)| (l.parse::<u32>(), c.parse::<u32>())) else {
              return Err(format!("a warning without a place: {l}"));
            };
            if let Some(b) = at_index(&ends, &text, line, l, &name) {
              return Err(format!("the warning at {line}:{col} does not name {b}: {l}"));
            }
            got.push((line, col));
          }
          got.sort();
          if got != want {
            return Err(format!("warnings at {got:?}, blocks not reached at {want:?}:\n{out}"));
          }
          ctx.note(hash64(text.as_bytes()));
          Ok(())
        });
      }
    }
  }
  // several functions, and faults next to unreachable blocks
  let parts = [
    "fun @$() {\n%a: ret\n%b: ret\n%c: jump %d\n%d: ret\n}",
    "fun @$(): i32 {\n%a: jump %c\n%b: ret 1\n%c: ret 2\n%d: ret 3\n}",
    "fun @$() {\n%a: ret\n%b: jump %nope\n%c: ret 5\n}",
    "fun @$() {\n%a: ret\n%b: ret\n%b: ret\n%c: ret\n%c: ret\n}",
    "fun @$() {\n%a: br 1, %nope, %none\n%b: ret\n%c: ret\n}",
    "fun @$() {\n%a: jump %a\n%b: jump %a\n%c: br 1, %a, %b\n}",
    "fun @$(@p: i32, @q: i32) {\n%a: %x = add @y, @z\n%w = sub %v, %u\nret\n}",
    "fun @$(@p: i32, @p: i32, @q: i32, @q: i32) {\n%a: ret 1\n%b: ret\n}",
    "fun @$() {\n%e: br 1, %a, %b\n%a: jump %c\n%b: jump %c(1)\n%c(%x: i32): %y = add %x, %x2\nret %y\n%d: ret\n}",
    "decl @$(i32)",
    "decl @same()",
    "global @$ = alloc [i32, 2], {1}",
    "global @$ = alloc i32",
    "# @$",
  ];
  let np = parts.len();
  for len in 1..=ctx.pick(3usize, 4) {
    for k in 0..np.pow(len as u32) {
      if !ctx.mine_next() {
        ctx.skip();
        continue;
      }
      let text: String = (0..len).map(|i| parts[k / np.pow(i as u32) % np].replace('$', &format!("f{i}")) + "\n").collect();
      ctx.case(|| text.clone(), |ctx| {
        same_report(&cap, text.as_bytes(), seeds)?;
        ctx.note(hash64(text.as_bytes()));
        Ok(())
      });
    }
  }
  // everything one token away from the seeds
  for (i, m) in gen_::seeds().iter().enumerate() {
    if !ctx.thorough() && i % 3 != 0 {
      continue;
    }
    let t = render::tokens(m);
    let al = front::alphabet(&t);
    front::edits(&t, &al, &mut |e| {
      if !ctx.mine_next() {
        ctx.skip();
        return;
      }
      let text = render::join(&e);
      ctx.case(|| text.clone(), |ctx| {
        same_report(&cap, text.as_bytes(), 2)?;
        ctx.note(hash64(text.as_bytes()));
        Ok(())
      });
    });
  }
  for text in front::texts() {
    if !ctx.mine_next() {
      ctx.skip();
      continue;
    }
    ctx.case(|| text.clone(), |ctx| {
      same_report(&cap, text.as_bytes(), seeds)?;
      ctx.note(hash64(text.as_bytes()));
      Ok(())
    });
  }
}

/// The name the warning about a line should have, if it has another.
fn at_index(ends: &[Vec<usize>], text: &str, line: u32, msg: &str, name: &dyn Fn(usize) -> String) -> Option<String> {
  let l = text.lines().nth(line as usize - 1)?.trim();
  let own = (0..ends.len()).map(name).find(|n| l.starts_with(&format!("{n}:")))?;
  (!msg.contains(&own)).then_some(own)
}
