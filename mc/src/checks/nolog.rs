//! F08: reading with the library built without its logger. The harness is
//! built a second time, with the feature `nolog`, for this check.
use crate::sup::{CheckDef, Ctx};

pub fn defs() -> Vec<CheckDef> {
  vec![CheckDef {
    id: "F08",
    level: "exploration",
    rule: "every single-token edit of seed programs in several layouts and reading modes, and every reader fault, read with the feature no-front-logger; distinct = distinct rejected texts whose first message had a position fixed by the rules",
    run: f08,
    assumptions: &["messages are written name:line:column: text, the first one first; columns count bytes of ASCII text"],
  }]
}

#[cfg(not(feature = "nolog"))]
fn f08(_: &mut Ctx) {
  panic!("F08 needs the harness built with the feature nolog");
}

#[cfg(feature = "nolog")]
use on::f08;

#[cfg(feature = "nolog")]
mod on {
  use super::super::front::{alphabet, edits, flat, surroundings, texts};
  use super::super::front2::lay;
  use crate::extract;
  use crate::model::diff;
  use crate::reftext::{self, Verdict, Why};
  use crate::sup::{Ctx, hash64};
  use crate::sys::Capture;
  use crate::{r#gen, render};
  use koopa::front::Driver;
  use koopa::front::span::{Error, FileType};
  use koopa::ir::Program;
  use std::io::{self, Cursor, Read};

  struct Caps {
    out: Capture,
    err: Capture,
    file: std::path::PathBuf,
  }

  impl Caps {
    /// Reads a text; nothing may be written to the standard streams.
    fn read(&self, b: &[u8], mode: usize) -> Result<(Result<Program, Error>, String), String> {
      let name = match mode {
        0 => "<buffer>".to_string(),
        1 => "<stdin>".to_string(),
        _ => self.file.display().to_string(),
      };
      let ((r, e), o) = self.out.run(|| {
        self.err.run(|| match mode {
          0 => Driver::new(FileType::Buffer, Cursor::new(b)).generate_program(),
          1 => Driver::new(FileType::Stdin, Cursor::new(b)).generate_program(),
          _ => {
            std::fs::write(&self.file, b).unwrap();
            Driver::from_path(self.file.clone()).unwrap().generate_program()
          }
        })
      });
      if !e.is_empty() || !o.is_empty() {
        return Err(format!("something was written: {:?}", String::from_utf8_lossy(if e.is_empty() { &o } else { &e })));
      }
      Ok((r, name))
    }
  }

  pub(super) fn message(e: &Error) -> Result<&str, String> {
    let (s, fatal) = match e {
      Error::Normal(s) => (s, false),
      Error::Fatal(s) => (s, true),
    };
    if e.is_fatal() != fatal {
      return Err("is_fatal is wrong".into());
    }
    Ok(s)
  }

  /// The place and the text of a message.
  fn place<'a>(m: &'a str, name: &str) -> Option<((u32, u32), &'a str)> {
    let r = m.strip_prefix(name)?.strip_prefix(':')?;
    let (l, r) = r.split_once(':')?;
    let (c, r) = r.split_once(':')?;
    Some(((l.parse().ok()?, c.parse().ok()?), r.trim()))
  }

  fn one(ctx: &mut Ctx, caps: &Caps, t: &str, mode: usize) -> Result<(), String> {
    let b = t.as_bytes();
    let (r, name) = caps.read(b, mode)?;
    let v = reftext::read(b);
    match (&v, r) {
      (Verdict::Accept(m), Ok(p)) => {
        let e = extract::extract(&p).map_err(|e| format!("the program obtained is not well formed: {e}"))?;
        if let Some(d) = diff(&m.canon(), &e.canon()) {
          return Err(format!("the program obtained is not the one described: {d}"));
        }
      }
      (Verdict::Accept(_), Err(_)) => return Err("a well-formed text is rejected".into()),
      (Verdict::Reject(w), Ok(_)) => return Err(format!("an ill-formed text is accepted: {w:?}")),
      (Verdict::Unspecified(_), Ok(_)) => {}
      (_, Err(e)) => {
        let s = message(&e)?;
        let Some((at, text)) = place(s, &name) else {
          return Err(format!("the error does not say where in {name}: {s:?}"));
        };
        if text.is_empty() {
          return Err(format!("the error does not say what: {s:?}"));
        }
        if !t.is_ascii() {
          return Ok(());
        }
        if let Verdict::Reject(Why::Syntax(l, c)) = v {
          if reftext::prefix_clean(b) {
            if at.0 != l || at.1 != c && c != 0 {
              return Err(format!("the first fault is at {l}:{c}, but the error says {s:?}"));
            }
            ctx.note(hash64(format!("{mode}{t}").as_bytes()));
          }
        }
        if let Some((a, z)) = reftext::faulty_item(b) {
          if at < a || at >= z && z.1 != 0 {
            return Err(format!("the rules are broken between {a:?} and {z:?}, but the error says {s:?}"));
          }
          ctx.note(hash64(format!("{mode}{t}").as_bytes()));
        }
      }
    }
    Ok(())
  }

  /// Fails after some bytes.
  struct Broken<'a>(Cursor<&'a [u8]>, io::ErrorKind, &'static str);
  impl Read for Broken<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
      match self.0.read(b)? {
        0 => Err(io::Error::new(self.1, self.2)),
        n => Ok(n),
      }
    }
  }

  pub(super) fn f08(ctx: &mut Ctx) {
    let caps = Caps { out: Capture::new(1), err: Capture::new(2), file: ctx.dir.join(format!("in.{}.{}", ctx.shard, std::process::id())) };
    for t in texts() {
      ctx.case(|| t.clone(), |ctx| {
        for m in 0..3 {
          one(ctx, &caps, &t, m)?;
          for (a, b) in surroundings() {
            one(ctx, &caps, &format!("{a}{t}{b}"), m)?;
          }
        }
        Ok(())
      });
    }
    for s in r#gen::seeds() {
      let t = render::tokens(&s);
      let al = alphabet(&t);
      let mut k = 0usize;
      edits(&t, &al, &mut |e| {
        k += 1;
        if !ctx.mine_next() {
          ctx.skip();
          return;
        }
        ctx.case(|| flat(&e), |ctx| {
          for l in 0..3 {
            one(ctx, &caps, &lay(&e, l), 0)?;
          }
          for m in 1..3 {
            if ctx.thorough() || k % 2 == m - 1 {
              one(ctx, &caps, &lay(&e, k % 3), m)?;
            }
          }
          Ok(())
        });
      });
      // a reader that fails at any byte
      let flat = flat(&t);
      for n in 0..flat.len() {
        if !ctx.mine_next() {
          ctx.skip();
          continue;
        }
        ctx.case(|| format!("the stream fails at byte {n} of\n{flat}"), |ctx| {
          const TEXT: &str = "kmc stream fault";
          for (kind, text) in
            [(io::ErrorKind::Other, TEXT), (io::ErrorKind::UnexpectedEof, TEXT), (io::ErrorKind::PermissionDenied, TEXT), (io::ErrorKind::Other, "")]
          {
            let ((r, e), o) = caps.out.run(|| {
              caps.err.run(|| Driver::new(FileType::Buffer, Broken(Cursor::new(&flat.as_bytes()[..n]), kind, text)).generate_program())
            });
            let Err(x) = r else { return Err("a broken stream is accepted".into()) };
            if !e.is_empty() || !o.is_empty() {
              return Err("something was written".into());
            }
            let s = message(&x)?;
            if !x.is_fatal() {
              return Err(format!("the error is not fatal: {s:?}"));
            }
            if !s.contains(text) {
              return Err(format!("the error does not carry the stream's: {s:?}"));
            }
            ctx.count("stream_faults", 1);
          }
          Ok(())
        });
      }
    }
    // many mistakes: all of them are told, in order, up to the limit
    for n in 1..=40usize {
      for sep in [" ", "\n"] {
        let mut t = String::new();
        for i in 0..n {
          t += &format!("global @g{i} = alloc i32, {{1}}{sep}");
        }
        ctx.case(|| t.clone(), |ctx| {
          let (r, name) = caps.read(t.as_bytes(), 0)?;
          let Err(e) = r else { return Err("an ill-formed text is accepted".into()) };
          let s = message(&e)?;
          let places: Vec<_> = s.lines().filter_map(|l| place(l, &name)).map(|p| p.0).collect();
          let want = n.min(21);
          if places.len() != want || !places.windows(2).all(|w| w[0] < w[1]) {
            return Err(format!("{n} mistakes, {} messages in the error:\n{s}", places.len()));
          }
          ctx.count("messages", want as u64);
          Ok(())
        });
      }
    }
    let _ = std::fs::remove_file(&caps.file);
  }
}
