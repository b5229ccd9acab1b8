From 92d8684e611c2a2b800b5b4fe662569b3a290cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 01/36] fix: check the number of arguments against the
 parameters

The length of an argument list was compared with itself, so calls, jumps
and branches with a wrong number of arguments reached the IR builders and
panicked instead of being reported.
---
 koopa/src/front/builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index c2ca9d4..2320596 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -503,14 +503,14 @@ impl Builder {
     args_ty: &[Type],
   ) -> Result<Vec<Value>, Error> {
     // check length of argument list
-    if args.len() != args.len() {
+    if args.len() != args_ty.len() {
       return_error!(
         span,
         "expected {} {}, found {} {}",
+        args_ty.len(),
+        "argument".to_plural(args_ty.len()),
         args.len(),
-        "arguments".to_plural(args.len()),
-        args.len(),
-        "arguments".to_plural(args.len())
+        "argument".to_plural(args.len())
       );
     }
     // generate arguments
-- 
2.43.0


From abd254c457bc0600e4f73db94e3d54f0152d3eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 02/36] fix: do not panic on branches to undefined basic blocks

The undefined target is reported while the blocks are listed, but filling
in the predecessors then unwrapped its missing entry.
---
 koopa/src/front/builder.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 2320596..f4bccf7 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -345,12 +345,10 @@ impl Builder {
     for block in bbs {
       let last_inst = block.stmts.last().unwrap();
       let mut add_pred = |bb_name| {
-        self
-          .local_bbs
-          .get_mut(bb_name)
-          .unwrap()
-          .preds
-          .push(block.name.clone());
+        // undefined targets have already been reported
+        if let Some(info) = self.local_bbs.get_mut(bb_name) {
+          info.preds.push(block.name.clone());
+        }
       };
       match &last_inst.kind {
         AstKind::Branch(ast::Branch { tbb, fbb, .. }) => {
-- 
2.43.0


From d874022003d4feeb875c2bbb9c72315d4c0fed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 03/36] fix: reject aggregates for types they do not initialize

An aggregate was taken as an initializer of a pointer, which made a value
of an array type where a pointer was expected, and one of a wrong length
was reported but then still built, panicking when it was stored.
---
 koopa/src/front/builder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index f4bccf7..4e35222 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -72,7 +72,7 @@ macro_rules! generate_init {
         let $elem_ty = match $ty.kind() {
           TypeKind::Array(base, len) => {
             if *len != agg.elems.len() {
-              log_error!(
+              return_error!(
                 $ast.span,
                 "expected array length {}, found length {}",
                 len,
@@ -81,7 +81,6 @@ macro_rules! generate_init {
             }
             base
           }
-          TypeKind::Pointer(base) => base,
           _ => return_error!($ast.span, "invalid aggregate type '{}'", $ty),
         };
         let elems = agg.elems.iter().map($agg_rec).collect::<Result<_, _>>()?;
-- 
2.43.0


From 0b9ddc1a1317a4fe4b013bfabf0e27fb452c8181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 04/36] fix: report array lengths below one instead of
 panicking

---
 koopa/src/front/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index cee270d..c5fa1da 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -218,8 +218,13 @@ impl<T: Read> Parser<T> {
     let base = self.parse_type()?;
     // check & eat ','
     self.expect(TokenKind::Other(','))?;
-    // get length
-    let len = read!(self, TokenKind::Int, "length")? as usize;
+    // get & check length
+    let span_len = self.span();
+    let len = read!(self, TokenKind::Int, "length")?;
+    if len < 1 {
+      return_error!(span_len, "expected positive array length, found {}", len)
+    }
+    let len = len as usize;
     // check & eat ']'
     span.update_span(self.expect(TokenKind::Other(']'))?);
     Ok(ast::ArrayType::new_boxed(span, base, len))
-- 
2.43.0


From 0362f02058793c4777f6856479583c79fe6e293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 05/36] fix: report parameters that redefine a symbol

Function parameters named like a global and block parameters named like a
function parameter were accepted, and their uses then silently bound to
the other definition. All other redefinitions are reported.
---
 koopa/src/front/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 4e35222..9a3db10 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -188,6 +188,8 @@ impl Builder {
     for ((n, a), p) in ast.params.iter().zip(self.program.func(func).params()) {
       if args.insert(n.clone(), *p).is_some() {
         log_error!(a.span, "duplicate parameter name '{}'", n);
+      } else if self.global_vars.contains_key(n) {
+        log_error!(a.span, "symbol '{}' has already been defined", n);
       }
     }
     // add to global function map
@@ -297,6 +299,8 @@ impl Builder {
 
   /// Initializes local basic block map.
   fn init_local_bbs(&mut self, func: Function, args: HashMap<String, Value>, bbs: &[&ast::Block]) {
+    // add argument references to local symbols
+    self.local_symbols.extend(args.keys().cloned());
     // create all basic blocks
     self.local_bbs.clear();
     for block in bbs {
@@ -334,8 +338,6 @@ impl Builder {
       // insert block info to local basic block map
       self.local_bbs.insert(block.name.clone(), info);
     }
-    // add argument references local symbols
-    self.local_symbols.extend(args.keys().cloned());
     // add argument references to the entry basic block
     let entry_bb_name = &bbs[0].name;
     let entry_info = &mut self.local_bbs.get_mut(entry_bb_name).unwrap();
-- 
2.43.0


From 0fef631b0477b983b2dc6f444ed60f3a14431dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 06/36] fix: keep drivers on one thread from sharing their
 errors

Creating a driver reset the error counters of its thread, so creating one
before running another made ill-formed programs pass, and running one made
every other driver created earlier fail.
---
 koopa/src/front/driver.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/koopa/src/front/driver.rs b/koopa/src/front/driver.rs
index b24fbc0..8052969 100644
--- a/koopa/src/front/driver.rs
+++ b/koopa/src/front/driver.rs
@@ -15,7 +15,8 @@ use std::path::Path;
 ///
 /// See the [module-level documentation](crate::front) for more examples.
 pub struct Driver<T: Read> {
-  parser: Result<Parser<T>, Error>,
+  ft: FileType,
+  reader: T,
   builder: Builder,
 }
 
@@ -25,9 +26,9 @@ impl<T: Read> Driver<T> {
 
   /// Creates a new driver.
   pub fn new(ft: FileType, reader: T) -> Self {
-    Span::reset(ft);
     Self {
-      parser: Parser::new(Lexer::new(reader)),
+      ft,
+      reader,
       builder: Builder::new(),
     }
   }
@@ -35,7 +36,10 @@ impl<T: Read> Driver<T> {
   /// Consumes the current driver and generates Koopa IR program
   /// from the reader.
   pub fn generate_program(mut self) -> Result<Program, Error> {
-    let mut parser = self.parser?;
+    // the state of spans is shared by all drivers of the current thread,
+    // so it must be reset right before using it
+    Span::reset(self.ft);
+    let mut parser = Parser::new(Lexer::new(self.reader))?;
     loop {
       // parse & get the next AST
       let ast = parser.parse_next()?;
-- 
2.43.0


From c3b94d57ab202590d444b1c432a709b8af6017de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 07/36] fix: retry interrupted reads

A reader that returns an error of kind Interrupted asks to be called
again, but reading was given up with an error.
---
 koopa/src/front/lexer.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/koopa/src/front/lexer.rs b/koopa/src/front/lexer.rs
index 19ec9e5..0e751bf 100644
--- a/koopa/src/front/lexer.rs
+++ b/koopa/src/front/lexer.rs
@@ -4,7 +4,7 @@ use crate::front::span::{Error, Pos, Span};
 use crate::front::token::{Keyword, Token, TokenKind};
 use crate::ir::BinaryOp;
 use crate::{log_raw_fatal_error, return_error};
-use std::io::Read;
+use std::io::{ErrorKind, Read};
 
 /// A lexer for lexing text form Koopa IR.
 ///
@@ -68,17 +68,20 @@ impl<T: Read> Lexer<T> {
   fn next_char(&mut self) -> std::result::Result<(), Error> {
     // NOTE: UTF-8 characters will not be handled here.
     let mut single_char = [0];
-    self.last_char = (self
-      .reader
-      .read(&mut single_char)
-      .map_err(|err| log_raw_fatal_error!("{}", err))?
-      != 0)
-      .then(|| {
-        let c = single_char[0] as char;
-        // update the current position
-        self.pos.update(c);
-        c
-      });
+    let len = loop {
+      match self.reader.read(&mut single_char) {
+        // interrupted reads should be retried
+        Err(err) if err.kind() == ErrorKind::Interrupted => {}
+        Err(err) => return Err(log_raw_fatal_error!("{}", err)),
+        Ok(len) => break len,
+      }
+    };
+    self.last_char = (len != 0).then(|| {
+      let c = single_char[0] as char;
+      // update the current position
+      self.pos.update(c);
+      c
+    });
     Ok(())
   }
 
-- 
2.43.0


From d8725e832dccacf3804a02be8e8023f4735eb0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 08/36] fix: do not recurse once per comment

A few ten thousand comments in a row overflowed the stack.
---
 koopa/src/front/lexer.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/koopa/src/front/lexer.rs b/koopa/src/front/lexer.rs
index 0e751bf..5982963 100644
--- a/koopa/src/front/lexer.rs
+++ b/koopa/src/front/lexer.rs
@@ -32,16 +32,19 @@ impl<T: Read> Lexer<T> {
 
   /// Returns the next token from file, or a lexer error.
   pub fn next_token(&mut self) -> Result {
-    // skip spaces
-    while self.last_char.is_some_and(|c| c.is_whitespace()) {
-      self.next_char()?;
+    // skip spaces and comments
+    loop {
+      while self.last_char.is_some_and(|c| c.is_whitespace()) {
+        self.next_char()?;
+      }
+      if self.last_char != Some('/') {
+        break;
+      }
+      self.handle_comment()?;
     }
     // check the last character
     if let Some(c) = self.last_char {
-      if c == '/' {
-        // skip comments
-        self.handle_comment()
-      } else if c == '@' || c == '%' {
+      if c == '@' || c == '%' {
         // symbols
         self.handle_symbol()
       } else if c.is_alphabetic() {
@@ -170,7 +173,7 @@ impl<T: Read> Lexer<T> {
   }
 
   /// Handles comments.
-  fn handle_comment(&mut self) -> Result {
+  fn handle_comment(&mut self) -> std::result::Result<(), Error> {
     let span = Span::new(self.pos);
     // eat '/'
     self.next_char()?;
@@ -182,15 +185,14 @@ impl<T: Read> Lexer<T> {
       while self.last_char.is_some_and(|c| c != '\r' && c != '\n') {
         self.next_char()?;
       }
-      // return the next token
-      self.next_token()
+      Ok(())
     } else {
       self.log_err_and_skip(span.into_updated(self.pos), "invalid comment")
     }
   }
 
   /// Handles block comments.
-  fn handle_block_comment(&mut self, span: Span) -> Result {
+  fn handle_block_comment(&mut self, span: Span) -> std::result::Result<(), Error> {
     // eat '*'
     self.next_char()?;
     // read until there is '*/' in stream
@@ -204,15 +206,14 @@ impl<T: Read> Lexer<T> {
       self.log_err_and_skip(span.into_updated(self.pos), "comment unclosed at EOF")
     } else {
       // eat '/'
-      self.next_char()?;
-      self.next_token()
+      self.next_char()
     }
   }
 
   /// Logs error message to stderr, and skip to the next space character.
   ///
   /// For error recovery support.
-  fn log_err_and_skip(&mut self, span: Span, message: &str) -> Result {
+  fn log_err_and_skip<U>(&mut self, span: Span, message: &str) -> std::result::Result<U, Error> {
     while self.last_char.is_some_and(|c| !c.is_whitespace()) {
       self.next_char()?;
     }
-- 
2.43.0


From 5b308a18d07b875edb474d30ae44b7345e9c513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 09/36] fix: do not recurse once per basic block when looking
 up symbols

Using a symbol defined many blocks ahead overflowed the stack.
---
 koopa/src/front/builder.rs | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 9a3db10..0497b32 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -452,35 +452,31 @@ impl Builder {
   fn generate_symbol(&self, span: &Span, bb_name: &str, symbol: &str) -> ValueResult {
     // try to find symbol in global scope
     // if not found, find symbol in local definitions
-    let mut visited_bbs = HashSet::new();
     self
       .global_vars
       .get(symbol)
       .copied()
-      .or_else(|| self.generate_local_symbol(&mut visited_bbs, bb_name, symbol))
+      .or_else(|| self.generate_local_symbol(bb_name, symbol))
       .ok_or_else(|| return_error!(span, "symbol '{}' not found", symbol))
   }
 
   /// Generates the symbol locally by the symbol name.
-  fn generate_local_symbol<'a>(
-    &'a self,
-    visited_bbs: &mut HashSet<&'a str>,
-    bb_name: &'a str,
-    symbol: &str,
-  ) -> Option<Value> {
-    if visited_bbs.insert(bb_name) {
-      // find symbol in local scope of the current basic block
-      // if not found, try to find symbol in all predecessors
-      let bb_info = &self.local_bbs[bb_name];
-      bb_info.local_defs.get(symbol).copied().or_else(|| {
-        bb_info
-          .preds
-          .iter()
-          .find_map(|pred| self.generate_local_symbol(visited_bbs, pred, symbol))
-      })
-    } else {
-      None
+  fn generate_local_symbol(&self, bb_name: &str, symbol: &str) -> Option<Value> {
+    // NOTE: not recursive, since there may be a lot of basic blocks
+    let mut visited_bbs = HashSet::new();
+    let mut bbs = vec![bb_name];
+    while let Some(bb_name) = bbs.pop() {
+      if visited_bbs.insert(bb_name) {
+        // find symbol in local scope of the current basic block
+        // if not found, try to find symbol in all predecessors
+        let bb_info = &self.local_bbs[bb_name];
+        if let Some(value) = bb_info.local_defs.get(symbol) {
+          return Some(*value);
+        }
+        bbs.extend(bb_info.preds.iter().rev().map(String::as_str));
+      }
     }
+    None
   }
 
   /// Generates the basic block handle by the given basic block name.
-- 
2.43.0


From 6baf5427ecfbac0faa18be7304117c894e732806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 10/36] fix: do not panic while printing source lines of
 diagnostics

Diagnostics of files quote the source by reading the file once more, and
panicked if it was gone, changed, or not valid UTF-8, or if a column fell
inside a character. A file that is no regular file is not read again.
---
 koopa/src/front/span.rs | 80 ++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 42 deletions(-)

diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index 58bb176..46aaed6 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -74,35 +74,27 @@ pub struct Span {
   end: Pos,
 }
 
-/// Gets the string of the given line.
+/// Gets the printable string of the given line, and the printed columns
+/// of the given columns, which count from 1 and are in bytes.
+///
+/// The line may be missing or shorter than expected, since the file may
+/// have been changed after it was read.
 #[cfg(not(feature = "no-front-logger"))]
-macro_rules! get_line_str {
-  ($line:expr) => {
-    $line
-      .map_or("".into(), |r| r.unwrap())
-      .replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH))
-  };
-  ($line:expr, $col:expr) => {{
-    let line = $line.map_or("".into(), |r| r.unwrap());
-    let col = $col as usize;
-    let tabs = (&line[..col]).matches('\t').count();
-    (
-      line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
-      col + tabs * (Span::TAB_WIDTH - 1),
-    )
-  }};
-  ($line:expr, $col1:expr, $col2:expr) => {{
-    let line = $line.map_or("".into(), |r| r.unwrap());
-    let col1 = $col1 as usize;
-    let col2 = $col2 as usize;
-    let tabs1 = (&line[..col1]).matches('\t').count();
-    let tabs2 = tabs1 + (&line[col1..col2]).matches('\t').count();
-    (
-      line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
-      col1 + tabs1 * (Span::TAB_WIDTH - 1),
-      col2 + tabs2 * (Span::TAB_WIDTH - 1),
-    )
-  }};
+fn get_line_str<const N: usize>(
+  line: Option<IoResult<Vec<u8>>>,
+  cols: [u32; N],
+) -> (String, [usize; N]) {
+  let mut line = line.and_then(Result::ok).unwrap_or_default();
+  if line.last() == Some(&b'\r') {
+    line.pop();
+  }
+  let cols = cols.map(|col| {
+    let col = col as usize;
+    let tabs = line.iter().take(col).filter(|c| **c == b'\t').count();
+    col + tabs * (Span::TAB_WIDTH - 1)
+  });
+  let tab = format!("{:w$}", "", w = Span::TAB_WIDTH);
+  (String::from_utf8_lossy(&line).replace('\t', &tab), cols)
 }
 
 impl Span {
@@ -328,12 +320,16 @@ impl Span {
       && self.end.col > 0
       && let FileType::File(path) = file
     {
-      // open file and get lines
-      let mut lines = BufReader::new(File::open(path).unwrap()).lines();
-      if self.start.line == self.end.line {
-        self.print_single_line_info(&mut lines, color);
-      } else {
-        self.print_multi_line_info(&mut lines, color);
+      // open file and get lines, skip if the file can not be read again
+      if path.is_file()
+        && let Ok(file) = File::open(path)
+      {
+        let mut lines = BufReader::new(file).split(b'\n');
+        if self.start.line == self.end.line {
+          self.print_single_line_info(&mut lines, color);
+        } else {
+          self.print_multi_line_info(&mut lines, color);
+        }
       }
     }
     eprintln!();
@@ -345,11 +341,11 @@ impl Span {
   #[cfg(not(feature = "no-front-logger"))]
   fn print_single_line_info<T>(&self, lines: &mut T, color: Color)
   where
-    T: Iterator<Item = IoResult<String>>,
+    T: Iterator<Item = IoResult<Vec<u8>>>,
   {
     // get some parameters
     let line_num = self.start.line as usize;
-    let (line, c1, c2) = get_line_str!(lines.nth(line_num - 1), self.start.col, self.end.col);
+    let (line, [c1, c2]) = get_line_str(lines.nth(line_num - 1), [self.start.col, self.end.col]);
     let width = ((line_num + 1) as f32).log10().ceil() as usize;
     let leading = c1 - 1;
     let len = c2 - c1 + 1;
@@ -367,14 +363,14 @@ impl Span {
   #[cfg(not(feature = "no-front-logger"))]
   fn print_multi_line_info<T>(&self, lines: &mut T, color: Color)
   where
-    T: Iterator<Item = IoResult<String>>,
+    T: Iterator<Item = IoResult<Vec<u8>>>,
   {
     // get some parameters
     let width = ((self.end.line + 1) as f32).log10().ceil() as usize;
     // print the first line to stderr
     let line_num = self.start.line as usize;
     let mut lines = lines.skip(line_num - 1);
-    let (line, start) = get_line_str!(lines.next(), self.start.col);
+    let (line, [start]) = get_line_str(lines.next(), [self.start.col]);
     eprintln!("{:w$} {}", "", "|".blue(), w = width);
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{}   {}", "|".blue(), line);
@@ -384,24 +380,24 @@ impl Span {
     let mid_lines = (self.end.line - self.start.line) as usize - 1;
     if mid_lines <= 4 {
       for i in 0..mid_lines {
-        let line = get_line_str!(lines.next());
+        let (line, []) = get_line_str(lines.next(), []);
         eprint!("{} ", format!("{:w$}", line_num + i + 1, w = width).blue());
         eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
       }
     } else {
       for i in 0..2usize {
-        let line = get_line_str!(lines.next());
+        let (line, []) = get_line_str(lines.next(), []);
         eprint!("{} ", format!("{:w$}", line_num + i + 1, w = width).blue());
         eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
       }
       eprint!("{:.>w$} {} {}", "", "|".blue(), "|".color(color), w = width);
-      let line = get_line_str!(lines.nth(mid_lines - 3));
+      let (line, []) = get_line_str(lines.nth(mid_lines - 3), []);
       eprint!("{} ", format!("{:w$}", self.end.line - 1, w = width).blue());
       eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
     }
     // print the last line to stderr
     let line_num = self.end.line as usize;
-    let (line, end) = get_line_str!(lines.next(), self.end.col);
+    let (line, [end]) = get_line_str(lines.next(), [self.end.col]);
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
     eprint!("{:w$} {} {}", "", "|".blue(), "|".color(color), w = width);
-- 
2.43.0


From 2788a4c55231662e4c04614a7f5e4741cb1ae18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 11/36] fix: limit the nesting depth of types and initializers

Some ten thousand levels overflowed the stack while parsing, or later
while the type or value was handled.
---
 koopa/src/front/parser.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index c5fa1da..d08a85a 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -14,6 +14,7 @@ use std::io::Read;
 pub struct Parser<T: Read> {
   lexer: Lexer<T>,
   cur_token: Token,
+  depth: usize,
 }
 
 /// Result that returned by [`Parser`].
@@ -68,11 +69,15 @@ macro_rules! match_token {
 }
 
 impl<T: Read> Parser<T> {
+  /// Maximum nesting depth of types and initializers.
+  const MAX_DEPTH: usize = 256;
+
   /// Creates a new parser from the given [`Lexer`].
   pub fn new(lexer: Lexer<T>) -> std::result::Result<Self, Error> {
     let mut parser = Self {
       lexer,
       cur_token: Token::default(),
+      depth: 0,
     };
     parser.next_token()?;
     Ok(parser)
@@ -190,14 +195,25 @@ impl<T: Read> Parser<T> {
     Ok(ast::FunDecl::new_boxed(span, name, params, ret))
   }
 
+  /// Parses something that may contain itself, and limits its nesting depth.
+  fn parse_nested(&mut self, parser: fn(&mut Self) -> Result) -> Result {
+    if self.depth >= Self::MAX_DEPTH {
+      return_error!(self.span(), "nested more than {} levels", Self::MAX_DEPTH)
+    }
+    self.depth += 1;
+    let result = parser(self);
+    self.depth -= 1;
+    result
+  }
+
   /// Parses types.
   fn parse_type(&mut self) -> Result {
     let Token { span, kind } = &self.cur_token;
     match kind {
       TokenKind::Keyword(Keyword::I32) => self.parse_int_type(),
-      TokenKind::Other('[') => self.parse_array_type(),
-      TokenKind::Other('*') => self.parse_pointer_type(),
-      TokenKind::Other('(') => self.parse_fun_type(),
+      TokenKind::Other('[') => self.parse_nested(Self::parse_array_type),
+      TokenKind::Other('*') => self.parse_nested(Self::parse_pointer_type),
+      TokenKind::Other('(') => self.parse_nested(Self::parse_fun_type),
       _ => return_error!(span, "expected type, found {}", kind),
     }
   }
@@ -530,7 +546,7 @@ impl<T: Read> Parser<T> {
         Ok(ast)
       }
       // aggregate
-      TokenKind::Other('{') => self.parse_aggregate(),
+      TokenKind::Other('{') => self.parse_nested(Self::parse_aggregate),
       // unknown
       _ => return_error!(span, "expected initializer, found {}", kind),
     }
-- 
2.43.0


From 17fccbb54c2635f5bca4c89c5a5c38740ee109ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 12/36] fix: forget the parents of instructions that leave the
 layout with their block

Removing or clearing basic blocks, and clearing an instruction list, left
stale parents behind, and removing an instruction from its old block after
inserting it to a new one erased the new parent.
---
 koopa/src/ir/layout.rs | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/koopa/src/ir/layout.rs b/koopa/src/ir/layout.rs
index badf26c..672311c 100644
--- a/koopa/src/ir/layout.rs
+++ b/koopa/src/ir/layout.rs
@@ -82,6 +82,17 @@ pub type BasicBlockList = KeyNodeList<BasicBlock, BasicBlockNode, BasicBlockMap>
 
 type InstBBCell = Weak<RefCell<HashMap<Value, BasicBlock>>>;
 
+/// Removes the record that `inst` is in `bb`. Does nothing if the instruction
+/// has already been inserted to another basic block.
+fn remove_parent(inst_bb: &InstBBCell, inst: &Value, bb: BasicBlock) {
+  if let Some(inst_bb) = inst_bb.upgrade()
+    && let Entry::Occupied(e) = inst_bb.borrow_mut().entry(*inst)
+    && *e.get() == bb
+  {
+    e.remove();
+  }
+}
+
 /// The underlying hash map of the [`BasicBlockList`].
 pub struct BasicBlockMap {
   inst_bb: InstBBCell,
@@ -103,6 +114,9 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
   }
 
   fn clear(&mut self) {
+    for node in self.map.values_mut() {
+      node.insts.clear();
+    }
     self.map.clear()
   }
 
@@ -140,7 +154,14 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
     BasicBlock: Borrow<Q>,
     Q: ?Sized + Hash + Eq,
   {
-    self.map.remove_entry(k)
+    let kv = self.map.remove_entry(k);
+    if let Some((bb, node)) = &kv {
+      // instructions in the removed basic block are no longer in the layout
+      for inst in node.insts.keys() {
+        remove_parent(&self.inst_bb, inst, *bb);
+      }
+    }
+    kv
   }
 }
 
@@ -222,6 +243,9 @@ impl Map<Value, InstNode> for InstMap {
   }
 
   fn clear(&mut self) {
+    for inst in self.map.keys() {
+      remove_parent(&self.inst_bb, inst, self.bb);
+    }
     self.map.clear()
   }
 
@@ -266,14 +290,8 @@ impl Map<Value, InstNode> for InstMap {
     Q: ?Sized + Hash + Eq,
   {
     let kv = self.map.remove_entry(k);
-    if kv.is_some() {
-      self
-        .inst_bb
-        .upgrade()
-        .unwrap()
-        .as_ref()
-        .borrow_mut()
-        .remove(k);
+    if let Some((inst, _)) = &kv {
+      remove_parent(&self.inst_bb, inst, self.bb);
     }
     kv
   }
-- 
2.43.0


From 157b1fc94997db79a683189235326a66996ad424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 13/36] fix: removing an absent function returns nothing
 instead of panicking

---
 koopa/src/ir/entities.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/koopa/src/ir/entities.rs b/koopa/src/ir/entities.rs
index b879e47..713f448 100644
--- a/koopa/src/ir/entities.rs
+++ b/koopa/src/ir/entities.rs
@@ -180,11 +180,10 @@ impl Program {
   ///
   /// Returns the function data if the function was previously in the program.
   pub fn remove_func(&mut self, func: Function) -> Option<FunctionData> {
+    let data = self.funcs.remove(&func)?;
     self.func_tys.borrow_mut().remove(&func);
-    self
-      .func_layout
-      .remove(self.func_layout.iter().position(|f| *f == func).unwrap());
-    self.funcs.remove(&func)
+    self.func_layout.retain(|f| *f != func);
+    Some(data)
   }
 
   /// Returns a reference to the function map.
-- 
2.43.0


From 04421ad167400947626ea8026f80f735cb8b79e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 14/36] fix: values of a removed function no longer count as
 users of globals

A global value mentioned by a removed function could never be removed.
---
 koopa/src/ir/entities.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/koopa/src/ir/entities.rs b/koopa/src/ir/entities.rs
index 713f448..1f661f9 100644
--- a/koopa/src/ir/entities.rs
+++ b/koopa/src/ir/entities.rs
@@ -132,6 +132,16 @@ impl Program {
     data.dfg.globals = Rc::downgrade(&self.values);
     data.dfg.func_tys = Rc::downgrade(&self.func_tys);
     self.func_tys.borrow_mut().insert(func, data.ty.clone());
+    // a removed function may be added again
+    let mut globals = self.values.borrow_mut();
+    for (value, value_data) in data.dfg.values() {
+      for v in value_data.kind().value_uses() {
+        if let Some(global) = globals.get_mut(&v) {
+          global.used_by.insert(*value);
+        }
+      }
+    }
+    drop(globals);
     self.funcs.insert(func, data);
     self.func_layout.push(func);
     func
@@ -183,6 +193,16 @@ impl Program {
     let data = self.funcs.remove(&func)?;
     self.func_tys.borrow_mut().remove(&func);
     self.func_layout.retain(|f| *f != func);
+    // values of the removed function no longer use global values
+    let mut globals = self.values.borrow_mut();
+    for (value, value_data) in data.dfg.values() {
+      for v in value_data.kind().value_uses() {
+        if let Some(global) = globals.get_mut(&v) {
+          global.used_by.remove(value);
+        }
+      }
+    }
+    drop(globals);
     Some(data)
   }
 
-- 
2.43.0


From dc4ae2c605d4c59ec508cf92a49002eb8c570ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 15/36] fix: value data replaced in an update keeps the users
 of the value

Assigning a whole new value data in `update_value` dropped the recorded
users, and `raw` inherited the users of a taken value data.
---
 koopa/src/ir/builder.rs | 3 ++-
 koopa/src/ir/dfg.rs     | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/koopa/src/ir/builder.rs b/koopa/src/ir/builder.rs
index fd34280..f87c26d 100644
--- a/koopa/src/ir/builder.rs
+++ b/koopa/src/ir/builder.rs
@@ -56,7 +56,8 @@ pub trait ValueBuilder: Sized + EntityInfoQuerier + ValueInserter {
   /// The created [`ValueData`] does not inherit the `used_by` set of
   /// the provided data. See
   /// [`ValueData::clone`](ValueData#impl-Clone-for-ValueData).
-  fn raw(mut self, data: ValueData) -> Value {
+  fn raw(mut self, mut data: ValueData) -> Value {
+    data.used_by.clear();
     self.insert_value(data)
   }
 
diff --git a/koopa/src/ir/dfg.rs b/koopa/src/ir/dfg.rs
index ef00906..a5810aa 100644
--- a/koopa/src/ir/dfg.rs
+++ b/koopa/src/ir/dfg.rs
@@ -131,7 +131,10 @@ impl DataFlowGraph {
     for bb in data.kind().bb_uses() {
       self.bb_mut(bb).used_by.remove(&value);
     }
+    // users stay the same even if the whole value data is replaced
+    let used_by = data.used_by.clone();
     f(&mut data);
+    data.used_by = used_by;
     for v in data.kind().value_uses() {
       data_mut!(self, v).used_by.insert(value);
     }
-- 
2.43.0


From 8ee2acddaa41a67217a80f19c73af868fe627247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 16/36] fix: allow updating a value to mention itself

The value was taken out of the map while its users were recorded, so an
update or replacement that makes a value its own operand lost the value
and panicked with "value does not exist".
---
 koopa/src/ir/dfg.rs | 70 +++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/koopa/src/ir/dfg.rs b/koopa/src/ir/dfg.rs
index a5810aa..2fc64b3 100644
--- a/koopa/src/ir/dfg.rs
+++ b/koopa/src/ir/dfg.rs
@@ -5,6 +5,7 @@ use crate::ir::entities::{BasicBlock, BasicBlockData, Value, ValueData};
 use crate::ir::entities::{FuncTypeMapCell, GlobalValueMapCell};
 use crate::ir::idman::{next_bb_id, next_local_value_id};
 use std::collections::HashMap;
+use std::mem;
 
 /// Data flow graph of a function.
 ///
@@ -98,21 +99,11 @@ impl DataFlowGraph {
   ///
   /// Panics if the given value does not exist.
   pub(in crate::ir) fn replace_value_with_data(&mut self, value: Value, mut data: ValueData) {
-    let old = self.values.remove(&value).expect("`value` does not exist");
-    for v in old.kind().value_uses() {
-      data_mut!(self, v).used_by.remove(&value);
-    }
-    for bb in old.kind().bb_uses() {
-      self.bb_mut(bb).used_by.remove(&value);
-    }
-    for v in data.kind().value_uses() {
-      data_mut!(self, v).used_by.insert(value);
-    }
-    for bb in data.kind().bb_uses() {
-      self.bb_mut(bb).used_by.insert(value);
-    }
-    data.used_by = old.used_by;
-    self.values.insert(value, data);
+    self.unlink_uses(value);
+    let old = self.values.get_mut(&value).unwrap();
+    data.used_by = mem::take(&mut old.used_by);
+    *old = data;
+    self.link_uses(value);
   }
 
   /// Updates the given value by calling the given function on its value data.
@@ -124,24 +115,53 @@ impl DataFlowGraph {
   where
     F: FnOnce(&mut ValueData),
   {
-    let mut data = self.values.remove(&value).expect("`value` does not exist");
-    for v in data.kind().value_uses() {
+    self.unlink_uses(value);
+    let data = self.values.get_mut(&value).unwrap();
+    // users stay the same even if the whole value data is replaced
+    let used_by = data.used_by.clone();
+    f(data);
+    data.used_by = used_by;
+    self.link_uses(value);
+  }
+
+  /// Removes the given value from the users of everything it uses.
+  ///
+  /// # Panics
+  ///
+  /// Panics if the given value does not exist.
+  fn unlink_uses(&mut self, value: Value) {
+    let kind = self
+      .values
+      .get(&value)
+      .expect("`value` does not exist")
+      .kind();
+    let (values, bbs): (Vec<_>, Vec<_>) = (kind.value_uses().collect(), kind.bb_uses().collect());
+    for v in values {
       data_mut!(self, v).used_by.remove(&value);
     }
-    for bb in data.kind().bb_uses() {
+    for bb in bbs {
       self.bb_mut(bb).used_by.remove(&value);
     }
-    // users stay the same even if the whole value data is replaced
-    let used_by = data.used_by.clone();
-    f(&mut data);
-    data.used_by = used_by;
-    for v in data.kind().value_uses() {
+  }
+
+  /// Adds the given value to the users of everything it uses.
+  ///
+  /// # Panics
+  ///
+  /// Panics if the given value, or anything it uses, does not exist.
+  fn link_uses(&mut self, value: Value) {
+    let kind = self
+      .values
+      .get(&value)
+      .expect("`value` does not exist")
+      .kind();
+    let (values, bbs): (Vec<_>, Vec<_>) = (kind.value_uses().collect(), kind.bb_uses().collect());
+    for v in values {
       data_mut!(self, v).used_by.insert(value);
     }
-    for bb in data.kind().bb_uses() {
+    for bb in bbs {
       self.bb_mut(bb).used_by.insert(value);
     }
-    self.values.insert(value, data);
   }
 
   /// Removes the given value. Returns the corresponding value data.
-- 
2.43.0


From d453c9359118b1c725d4534e29d68b837bd0bea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 17/36] fix: generated names never equal explicit names of the
 program

---
 koopa/src/back/generator.rs | 90 ++++++++++++++++++++++++++++---------
 1 file changed, 68 insertions(+), 22 deletions(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index aa0060b..09e6623 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -21,6 +21,7 @@ pub struct NameManager {
   next_id: usize,
   cur_scope: ScopeKind,
   prefix: Prefix,
+  reserved: HashSet<String>,
   global_names: HashSet<StringRc>,
   bb_names: HashSet<StringRc>,
   global_vars: HashMap<*const ValueData, Rc<String>>,
@@ -35,6 +36,24 @@ impl NameManager {
     Self::default()
   }
 
+  /// Creates a new name manager for the given program, in which
+  /// no generated name equals a name given explicitly by the program.
+  fn for_program(program: &Program) -> Self {
+    let mut reserved = HashSet::new();
+    for inst in program.inst_layout() {
+      reserved.extend(program.borrow_value(*inst).name().clone());
+    }
+    for func in program.funcs().values() {
+      reserved.insert(func.name().into());
+      reserved.extend(func.dfg().bbs().values().filter_map(|d| d.name().clone()));
+      reserved.extend((func.dfg().values().values()).filter_map(|d| d.name().clone()));
+    }
+    Self {
+      reserved,
+      ..Self::default()
+    }
+  }
+
   /// Enters the function scope.
   /// Call this method when generating basic blocks and local values.
   ///
@@ -136,44 +155,53 @@ impl NameManager {
   /// and stores it to the given name set.
   fn next_name<F>(&mut self, name: &Option<String>, name_set: F) -> Rc<String>
   where
-    F: for<'a> FnOnce(&'a mut Self) -> &'a mut HashSet<StringRc>,
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
   {
     // check if there is a name
     if let Some(name) = name {
       self.next_name_str(name, name_set)
     } else {
       // generate a temporary name
-      let name = self.prefix.temp_name(self.next_id);
-      self.next_id += 1;
-      let names = name_set(self);
-      names.insert(name.clone().into());
-      names.get(&name).unwrap().to_rc()
+      loop {
+        let name = self.prefix.temp_name(self.next_id);
+        self.next_id += 1;
+        if self.is_free(&name, &name_set) {
+          let name = StringRc::from(name);
+          name_set(self).insert(name.clone());
+          return name.to_rc();
+        }
+      }
     }
   }
 
+  /// Checks whether the given name can be used as a generated name.
+  fn is_free<F>(&mut self, name: &str, name_set: &F) -> bool
+  where
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
+  {
+    !self.prefix.is_given(name, &self.reserved) && !name_set(self).contains(name)
+  }
+
   /// Generates the next name by the given string
   /// and stores it to the given name set.
   fn next_name_str<F>(&mut self, name: &str, name_set: F) -> Rc<String>
   where
-    F: for<'a> FnOnce(&'a mut Self) -> &'a mut HashSet<StringRc>,
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
   {
-    let name = self.prefix.name(name);
-    let names = name_set(self);
-    // check for duplicate names
-    if !names.contains(&name) {
-      names.insert(name.clone().into());
-      names.get(&name).unwrap().to_rc()
+    let prefixed = self.prefix.name(name);
+    let new_name = if !name_set(self).contains(&prefixed) {
+      prefixed
+    } else if name[1..].starts_with(|c: char| c.is_ascii_digit()) {
+      // temporary names can not have suffixes
+      return self.next_name(&None, name_set);
     } else {
       // generate a new name
-      for id in 0.. {
-        let new_name = format!("{}_{}", name, id);
-        if !names.contains(&new_name) {
-          names.insert(new_name.clone().into());
-          return names.get(&new_name).unwrap().to_rc();
-        }
-      }
-      unreachable!()
-    }
+      let mut new_names = (0usize..).map(|id| format!("{}_{}", prefixed, id));
+      new_names.find(|n| self.is_free(n, &name_set)).unwrap()
+    };
+    let new_name = StringRc::from(new_name);
+    name_set(self).insert(new_name.clone());
+    new_name.to_rc()
   }
 }
 
@@ -231,6 +259,21 @@ impl Prefix {
     }
   }
 
+  /// Checks whether the generated name `name` is the one
+  /// that some name in `given` is generated to.
+  fn is_given(&self, name: &str, given: &HashSet<String>) -> bool {
+    match self {
+      Prefix::Default => given.contains(name),
+      Prefix::Custom { named, temp, .. } => {
+        let is_given = |prefix: &str, sigil: char| {
+          let name = name.strip_prefix(prefix);
+          name.is_some_and(|name| given.contains(&format!("{}{}", sigil, name)))
+        };
+        is_given(named, '@') || is_given(temp, '%')
+      }
+    }
+  }
+
   /// Returns a temp name by the given id.
   fn temp_name(&self, id: usize) -> String {
     match self {
@@ -315,7 +358,10 @@ impl<W: Write, V: Visitor<W>> Generator<W, V> {
   }
 
   /// Generates on the given Koopa IR program.
+  ///
+  /// The names are independent of programs previously generated on.
   pub fn generate_on(&mut self, program: &Program) -> Result<V::Output> {
+    self.name_man = NameManager::for_program(program);
     self
       .visitor
       .visit(&mut self.writer, &mut self.name_man, program)
-- 
2.43.0


From 3dbf09598729c7a2e2787b54c8d63e80a6d38c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 18/36] fix: name functions before local values

---
 koopa/src/back/koopa.rs | 5 +++++
 koopa/src/back/llvm.rs  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/koopa/src/back/koopa.rs b/koopa/src/back/koopa.rs
index 38c8afe..f909428 100644
--- a/koopa/src/back/koopa.rs
+++ b/koopa/src/back/koopa.rs
@@ -57,6 +57,11 @@ impl<W: Write> VisitorImpl<'_, W> {
     if !self.program.inst_layout().is_empty() {
       writeln!(self.w)?;
     }
+    // name all functions before local values, since they may be called
+    // before they are generated
+    for func in self.program.func_layout() {
+      self.nm.func_name(self.program.func(*func));
+    }
     for (i, func) in self.program.func_layout().iter().enumerate() {
       if i != 0 {
         writeln!(self.w)?;
diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 2fec584..027583e 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -78,6 +78,11 @@ impl<W: Write> VisitorImpl<'_, W> {
     if !self.program.inst_layout().is_empty() {
       writeln!(self.w)?;
     }
+    // name all functions before local values, since they may be called
+    // before they are generated
+    for func in self.program.func_layout() {
+      self.nm.func_name(self.program.func(*func));
+    }
     // functions
     for (i, func) in self.program.func_layout().iter().enumerate() {
       if i != 0 {
-- 
2.43.0


From fdc5fe635d7ee7c29c3f8a186f4ba7f1180e8819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 19/36] fix: LLVM labels do not reuse names of local values

---
 koopa/src/back/generator.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index 09e6623..e9b952b 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -82,6 +82,11 @@ impl NameManager {
     );
     self.cur_scope = ScopeKind::Global;
     self.bb_names.clear();
+    if !matches!(self.prefix, Prefix::Default) {
+      for name in self.bbs.values() {
+        self.global_names.remove(name);
+      }
+    }
     self.bbs.clear();
     for name in self.values.values() {
       self.global_names.remove(name);
@@ -111,7 +116,11 @@ impl NameManager {
     if let Some(name) = self.bbs.get(&ptr) {
       name.clone()
     } else {
-      let name = self.next_name(bb.name(), |s| &mut s.bb_names);
+      let name = self.next_name(bb.name(), |s| match s.prefix {
+        Prefix::Default => &mut s.bb_names,
+        // basic blocks share the names of values
+        Prefix::Custom { .. } => &mut s.global_names,
+      });
       self.bbs.insert(ptr, name);
       self.bbs[&ptr].clone()
     }
-- 
2.43.0


From df9d045ccb7f467292c1d135b52f2213a45fe0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 20/36] fix: LLVM phi functions only list predecessors in the
 layout

---
 koopa/src/back/llvm.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 027583e..c05f05f 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -168,13 +168,27 @@ impl<W: Write> VisitorImpl<'_, W> {
     // basic block name
     let data = func!(self).dfg().bb(bb);
     writeln!(self.w, "{}:", &self.nm.bb_name(data)[1..])?;
+    // branches and jumps in the layout that target the current basic block
+    let layout = func!(self).layout();
+    let preds = data.used_by().iter();
+    let preds: Vec<_> = preds
+      .filter_map(|user| layout.parent_bb(*user).map(|pred| (*user, pred)))
+      .collect();
     // basic block parameters (phi functions)
     for (i, param) in data.params().iter().enumerate() {
       let param = value!(self, *param);
-      write!(self.w, "  {} = phi ", self.nm.value_name(param))?;
+      write!(self.w, "  {} = ", self.nm.value_name(param))?;
+      if preds.is_empty() {
+        // phi functions must have at least one incoming value
+        write!(self.w, "freeze ")?;
+        self.visit_type(param.ty())?;
+        writeln!(self.w, " undef")?;
+        continue;
+      }
+      write!(self.w, "phi ")?;
       self.visit_type(param.ty())?;
       write!(self.w, " ")?;
-      for (k, user) in data.used_by().iter().enumerate() {
+      for (k, (user, pred)) in preds.iter().enumerate() {
         if k != 0 {
           write!(self.w, ", ")?;
         }
@@ -191,7 +205,7 @@ impl<W: Write> VisitorImpl<'_, W> {
           _ => panic!("invalid branch/jump instruction"),
         }
         write!(self.w, ", ")?;
-        self.visit_bb_ref(func!(self).layout().parent_bb(*user).unwrap())?;
+        self.visit_bb_ref(*pred)?;
         write!(self.w, "]")?;
       }
       writeln!(self.w)?;
-- 
2.43.0


From f433f47b2f98b734e646b24480b1dbd285ed3df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:07 +0000
Subject: [PATCH 21/36] fix: elements of LLVM aggregates always have types

---
 koopa/src/back/llvm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index c05f05f..9a6de37 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -461,7 +461,7 @@ impl<W: Write> VisitorImpl<'_, W> {
           if i != 0 {
             write!(self.w, ", ")?;
           }
-          self.visit_local_const(with_ty, value!(self, *elem))?;
+          self.visit_local_const(true, value!(self, *elem))?;
         }
         write!(self.w, "]")
       }
-- 
2.43.0


From e4fa441a4f7b7bb53acdef3fbeb018204a0c2f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 22/36] fix: phi functions list their predecessors in layout
 order

---
 koopa/src/back/llvm.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 9a6de37..344f999 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -5,6 +5,7 @@ use crate::ir::entities::{FunctionData, ValueData};
 use crate::ir::layout::BasicBlockNode;
 use crate::ir::values::*;
 use crate::ir::{BasicBlock, Program, Type, TypeKind, Value, ValueKind};
+use std::collections::HashMap;
 use std::io::{Result, Write};
 use std::num::NonZeroUsize;
 
@@ -144,11 +145,13 @@ impl<W: Write> VisitorImpl<'_, W> {
     // function body
     if !is_decl {
       writeln!(self.w, " {{")?;
-      for (i, (bb, node)) in func.layout().bbs().iter().enumerate() {
+      let bbs = func.layout().bbs();
+      let order: HashMap<_, _> = bbs.keys().copied().zip(0..).collect();
+      for (i, (bb, node)) in bbs.iter().enumerate() {
         if i != 0 {
           writeln!(self.w)?;
         }
-        self.visit_bb(*bb, node)?;
+        self.visit_bb(*bb, node, &order)?;
       }
       writeln!(self.w, "}}")?;
     } else {
@@ -164,16 +167,25 @@ impl<W: Write> VisitorImpl<'_, W> {
   }
 
   /// Generates the given basic block.
-  fn visit_bb(&mut self, bb: BasicBlock, node: &BasicBlockNode) -> Result<()> {
+  ///
+  /// `order` gives the position of each basic block in the layout.
+  fn visit_bb(
+    &mut self,
+    bb: BasicBlock,
+    node: &BasicBlockNode,
+    order: &HashMap<BasicBlock, usize>,
+  ) -> Result<()> {
     // basic block name
     let data = func!(self).dfg().bb(bb);
     writeln!(self.w, "{}:", &self.nm.bb_name(data)[1..])?;
-    // branches and jumps in the layout that target the current basic block
+    // branches and jumps in the layout that target the current basic block,
+    // in layout order, since the order of the users is arbitrary
     let layout = func!(self).layout();
     let preds = data.used_by().iter();
-    let preds: Vec<_> = preds
+    let mut preds: Vec<_> = preds
       .filter_map(|user| layout.parent_bb(*user).map(|pred| (*user, pred)))
       .collect();
+    preds.sort_by_key(|(_, pred)| order[pred]);
     // basic block parameters (phi functions)
     for (i, param) in data.params().iter().enumerate() {
       let param = value!(self, *param);
-- 
2.43.0


From 842a825cd60dad847126eeda1f20e45c583b9be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 23/36] fix: raw builders can be reused and build deep graphs

---
 libkoopa/src/raw/builder.rs | 119 +++++++++++++++++++-----------------
 1 file changed, 62 insertions(+), 57 deletions(-)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index e93dfdf..ecf0204 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -5,7 +5,7 @@ use koopa::ir::values::*;
 use koopa::ir::{BasicBlock, Function, FunctionData, Program, Type, TypeKind};
 use koopa::ir::{BinaryOp, Value, ValueKind};
 use std::cell::UnsafeCell;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::ffi::CString;
 use std::marker::PhantomData;
 use std::os::raw::{c_char, c_void};
@@ -36,26 +36,47 @@ impl RawProgramBuilder {
       funcs: iter_into_raw(program.func_layout().iter(), self, &mut info),
       rpb: PhantomData,
     };
+    // fill all raw structures that have been referenced
+    while let Some((cur_func, item)) = info.pending.pop() {
+      info.cur_func = cur_func;
+      match item {
+        PendingItem::Func(func) => {
+          let data = info.program.func(func);
+          info.cur_func = Some(data);
+          let raw = data.build(self, &mut info);
+          **self.funcs.get_mut(&func).unwrap() = raw;
+        }
+        PendingItem::BasicBlock(bb) => {
+          info.cur_bb = Some(bb);
+          let data = cur_func.unwrap().dfg().bb(bb);
+          let raw = data.build(self, &mut info);
+          **self.bbs.get_mut(&bb).unwrap() = raw;
+        }
+        PendingItem::Value(value) => {
+          let (raw, used_by) = if value.is_global() {
+            let data = info.program.borrow_value(value);
+            (data.build(self, &mut info), data.used_by().clone())
+          } else {
+            let data = cur_func.unwrap().dfg().value(value);
+            (data.build(self, &mut info), data.used_by().clone())
+          };
+          info.value_used_by.push((value, used_by));
+          *self.values.get_mut(&value).unwrap().get_mut() = raw;
+        }
+      }
+    }
     // fill `used_by` fields of all values
-    let slices: Vec<_> = self
-      .values
-      .keys()
-      .map(|value| {
-        let v: Vec<_> = info.value_used_by[value]
-          .iter()
-          .map(|v| self.values[v].get() as *const ())
-          .collect();
-        let slice = RawSlice {
-          buffer: v.as_ptr() as *const c_void,
-          len: v.len() as u32,
-          kind: RawSliceItemKind::Value,
-        };
-        self.slices.push(v);
-        slice
-      })
-      .collect();
-    for (data, slice) in self.values.values_mut().zip(slices.into_iter()) {
-      data.get_mut().used_by = slice;
+    for (value, used_by) in info.value_used_by {
+      let v: Vec<_> = used_by
+        .iter()
+        .map(|v| self.values[v].get() as *const ())
+        .collect();
+      self.values.get_mut(&value).unwrap().get_mut().used_by = RawSlice {
+        buffer: v.as_ptr() as *const c_void,
+        len: v.len() as u32,
+        kind: RawSliceItemKind::Value,
+      };
+      self.slices.push(v);
     }
     raw
   }
@@ -66,7 +87,16 @@ struct ProgramInfo<'a> {
   program: &'a Program,
   cur_func: Option<&'a FunctionData>,
   cur_bb: Option<BasicBlock>,
-  value_used_by: HashMap<Value, Vec<Value>>,
+  /// Structures that are referenced but not filled, with their functions.
+  pending: Vec<(Option<&'a FunctionData>, PendingItem)>,
+  value_used_by: Vec<(Value, HashSet<Value>)>,
+}
+
+/// Raw structure that is waiting for being filled.
+enum PendingItem {
+  Func(Function),
+  BasicBlock(BasicBlock),
+  Value(Value),
 }
 
 impl<'a> ProgramInfo<'a> {
@@ -75,7 +105,8 @@ impl<'a> ProgramInfo<'a> {
       program,
       cur_func: None,
       cur_bb: None,
-      value_used_by: HashMap::new(),
+      pending: Vec::new(),
+      value_used_by: Vec::new(),
     }
   }
 }
@@ -200,13 +231,8 @@ impl BuildRaw for Function {
       f.as_ref()
     } else {
       builder.funcs.insert(*self, unsafe { new_uninit_box() });
-      let func = info.program.func(*self);
-      let last_func = info.cur_func.replace(func);
-      let f = func.build(builder, info);
-      info.cur_func = last_func;
-      let fb = builder.funcs.get_mut(self).unwrap();
-      **fb = f;
-      fb.as_ref()
+      info.pending.push((None, PendingItem::Func(*self)));
+      builder.funcs[self].as_ref()
     }
   }
 }
@@ -234,12 +260,9 @@ impl BuildRaw for BasicBlock {
       b.as_ref()
     } else {
       builder.bbs.insert(*self, unsafe { new_uninit_box() });
-      let last_bb = info.cur_bb.replace(*self);
-      let b = info.cur_func.unwrap().dfg().bb(*self).build(builder, info);
-      info.cur_bb = last_bb;
-      let bb = builder.bbs.get_mut(self).unwrap();
-      **bb = b;
-      bb.as_ref()
+      let item = PendingItem::BasicBlock(*self);
+      info.pending.push((info.cur_func, item));
+      builder.bbs[self].as_ref()
     }
   }
 }
@@ -270,28 +293,10 @@ impl BuildRaw for Value {
       v.get() as _
     } else {
       builder.values.insert(*self, unsafe { new_uninit_box() });
-      let (v, used_by) = if self.is_global() {
-        // get global value
-        let value = info.program.borrow_value(*self);
-        // get `used_by` list
-        let used_by = value.used_by().iter().copied().collect();
-        // build value
-        (value.build(builder, info), used_by)
-      } else {
-        // get local value
-        let func = info.cur_func.unwrap();
-        let value = func.dfg().value(*self);
-        // get `used_by` list
-        let used_by = value.used_by().iter().copied().collect();
-        // build value
-        (value.build(builder, info), used_by)
-      };
-      // insert `used_by` list to info
-      info.value_used_by.insert(*self, used_by);
-      // store raw value data
-      let vb = builder.values.get_mut(self).unwrap();
-      *vb.get_mut() = v;
-      vb.get() as *const RawValueData
+      info
+        .pending
+        .push((info.cur_func, PendingItem::Value(*self)));
+      builder.values[self].get() as _
     }
   }
 }
-- 
2.43.0


From 06ef4fc44812b29c2e6d87a2bd90fab9f30a7698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 24/36] fix: raw programs convert whatever the order of
 references

---
 libkoopa/src/raw/generator.rs | 195 ++++++++++++++++++++++------------
 1 file changed, 127 insertions(+), 68 deletions(-)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index 0e2b9ba..9b3bf20 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -3,10 +3,9 @@ use super::entities::*;
 use crate::errors::ErrorCode;
 use koopa::ir::builder_traits::*;
 use koopa::ir::{BasicBlock, BinaryOp, Function, Program, Type, TypeKind, Value};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet, VecDeque};
 use std::ffi::CStr;
 use std::marker::PhantomData;
-use std::mem::replace;
 use std::os::raw::c_char;
 use std::ptr::null;
 
@@ -25,6 +24,11 @@ struct ProgramInfo {
   values: HashMap<RawValue, Value>,
   funcs: HashMap<RawFunction, FunctionInfo>,
   cur_func: RawFunction,
+  /// Functions whose basic blocks have not been generated.
+  pending_funcs: VecDeque<RawFunction>,
+  /// Basic blocks of the current function
+  /// whose instructions have not been generated.
+  pending_bbs: VecDeque<(RawBasicBlock, BasicBlock)>,
 }
 
 impl ProgramInfo {
@@ -34,6 +38,8 @@ impl ProgramInfo {
       values: HashMap::new(),
       funcs: HashMap::new(),
       cur_func: null(),
+      pending_funcs: VecDeque::new(),
+      pending_bbs: VecDeque::new(),
     }
   }
 
@@ -46,6 +52,12 @@ impl ProgramInfo {
   fn cur_func_info_mut(&mut self) -> &mut FunctionInfo {
     self.funcs.get_mut(&self.cur_func).unwrap()
   }
+
+  /// Returns the generated value of the given raw value.
+  fn value(&self, value: &RawValue) -> Option<Value> {
+    let local = || self.funcs.get(&self.cur_func)?.values.get(value);
+    self.values.get(value).or_else(local).copied()
+  }
 }
 
 /// Information about the Koopa IR function.
@@ -206,6 +218,21 @@ impl GenerateOnRaw for RawProgram<'_> {
     for func in self.funcs.funcs()? {
       func.generate(program, info)?;
     }
+    // generate function bodies
+    while let Some(func) = info.pending_funcs.pop_front() {
+      info.cur_func = func;
+      for bb in unsafe { &*func }.bbs.bbs()? {
+        bb.generate(program, info)?;
+      }
+      while let Some((raw_bb, bb)) = info.pending_bbs.pop_front() {
+        for inst in unsafe { &*raw_bb }.insts.values()? {
+          let inst = inst.generate(program, info)?;
+          // insert to the current basic block
+          let layout = program.func_mut(info.cur_func_info().func).layout_mut();
+          layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
+        }
+      }
+    }
     Ok(())
   }
 }
@@ -261,16 +288,9 @@ impl GenerateOnRaw for RawFunction {
         .values()?
         .zip(program.func(func).params().iter().copied())
         .collect();
-      // insert to function map
+      // insert to function map, generate the body later
       info.funcs.insert(*self, FunctionInfo::new(func, values));
-      // generate basic blocks
-      if raw.bbs.len != 0 {
-        let last_func = replace(&mut info.cur_func, *self);
-        for bb in raw.bbs.bbs()? {
-          bb.generate(program, info)?;
-        }
-        info.cur_func = last_func;
-      }
+      info.pending_funcs.push_back(*self);
       Ok(func)
     }
   }
@@ -309,13 +329,8 @@ impl GenerateOnRaw for RawBasicBlock {
       raw.params.values()?.zip(params).for_each(|(rp, p)| {
         func_info.values.insert(rp, *p);
       });
-      // generate instructions
-      for inst in raw.insts.values()? {
-        let inst = inst.generate(program, info)?;
-        // insert to the current basic block
-        let layout = program.func_mut(info.cur_func_info().func).layout_mut();
-        layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
-      }
+      // generate instructions later
+      info.pending_bbs.push_back((*self, bb));
       Ok(bb)
     }
   }
@@ -325,61 +340,105 @@ impl GenerateOnRaw for RawValue {
   type Entity = Value;
 
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
-    // try to find value in cache
-    let value = info.values.get(self).or_else(|| {
-      if info.cur_func.is_null() {
-        None
-      } else {
-        info.cur_func_info().values.get(self)
+    // operands may be referenced before their definitions are met,
+    // and may be deeply nested, so generate them first with a stack
+    let mut values = vec![*self];
+    let mut visited = HashSet::new();
+    while let Some(value) = values.last().copied() {
+      if info.value(&value).is_some() {
+        values.pop();
+        continue;
       }
-    });
-    if let Some(v) = value {
-      Ok(*v)
-    } else {
-      // generate value
-      let raw = unsafe { &**self };
-      let value = match &raw.kind {
-        RawValueKind::Integer(v) => v.generate(program, info)?,
-        RawValueKind::Aggregate(v) => v.generate(program, info)?,
-        RawValueKind::FuncArgRef(_) => unreachable!("handled in `RawFunction`"),
-        RawValueKind::BlockArgRef(_) => unreachable!("handled in `RawBasicBlock`"),
-        RawValueKind::GlobalAlloc(v) => v.generate(program, info)?,
-        RawValueKind::Load(v) => v.generate(program, info)?,
-        RawValueKind::Store(v) => v.generate(program, info)?,
-        RawValueKind::GetPtr(v) => v.generate(program, info)?,
-        RawValueKind::GetElemPtr(v) => v.generate(program, info)?,
-        RawValueKind::Binary(v) => v.generate(program, info)?,
-        RawValueKind::Branch(v) => v.generate(program, info)?,
-        RawValueKind::Jump(v) => v.generate(program, info)?,
-        RawValueKind::Call(v) => v.generate(program, info)?,
-        RawValueKind::Return(v) => v.generate(program, info)?,
-        _ => {
-          let ty = raw.ty.generate(program, info)?;
-          match &raw.kind {
-            RawValueKind::ZeroInit => build_value!(program, info, b, { b.zero_init(ty) }),
-            RawValueKind::Undef => build_value!(program, info, b, { b.undef(ty) }),
-            RawValueKind::Alloc => match ty.kind() {
-              TypeKind::Pointer(base) => builder!(program, info).alloc(base.clone()),
-              _ => unreachable!(),
-            },
-            _ => unreachable!(),
-          }
+      let len = values.len();
+      for opr in operands(&unsafe { &*value }.kind)? {
+        if info.value(&opr).is_none() {
+          values.push(opr);
         }
-      };
-      // set value name & insert value
-      let name = raw.name.generate(program, info)?;
-      if info.cur_func.is_null() {
-        program.set_value_name(value, name);
-        info.values.insert(*self, value);
-      } else {
-        let func_info = info.cur_func_info_mut();
-        let func = program.func_mut(func_info.func);
-        func.dfg_mut().set_value_name(value, name);
-        func_info.values.insert(*self, value);
       }
-      Ok(value)
+      if values.len() == len {
+        generate_value(value, program, info)?;
+      } else if !visited.insert(value) {
+        // some operand of the value depends on the value
+        return Err(ErrorCode::InvalidKoopaProgram);
+      }
     }
+    Ok(info.value(self).unwrap())
+  }
+}
+
+/// Returns all value operands of the given raw value kind.
+fn operands(kind: &RawValueKind) -> Result<Vec<RawValue>> {
+  Ok(match kind {
+    RawValueKind::Integer(_)
+    | RawValueKind::ZeroInit
+    | RawValueKind::Undef
+    | RawValueKind::FuncArgRef(_)
+    | RawValueKind::BlockArgRef(_)
+    | RawValueKind::Alloc => vec![],
+    RawValueKind::Aggregate(v) => v.elems.values()?.collect(),
+    RawValueKind::GlobalAlloc(v) => vec![v.init],
+    RawValueKind::Load(v) => vec![v.src],
+    RawValueKind::Store(v) => vec![v.value, v.dest],
+    RawValueKind::GetPtr(v) => vec![v.src, v.index],
+    RawValueKind::GetElemPtr(v) => vec![v.src, v.index],
+    RawValueKind::Binary(v) => vec![v.lhs, v.rhs],
+    RawValueKind::Branch(v) => {
+      let mut oprs = vec![v.cond];
+      oprs.extend(v.true_args.values()?);
+      oprs.extend(v.false_args.values()?);
+      oprs
+    }
+    RawValueKind::Jump(v) => v.args.values()?.collect(),
+    RawValueKind::Call(v) => v.args.values()?.collect(),
+    RawValueKind::Return(v) if v.value.is_null() => vec![],
+    RawValueKind::Return(v) => vec![v.value],
+  })
+}
+
+/// Generates the given value, all of its operands must have been generated.
+fn generate_value(value: RawValue, program: &mut Program, info: &mut ProgramInfo) -> Result<()> {
+  let raw_value = value;
+  let raw = unsafe { &*raw_value };
+  let value = match &raw.kind {
+    RawValueKind::Integer(v) => v.generate(program, info)?,
+    RawValueKind::Aggregate(v) => v.generate(program, info)?,
+    RawValueKind::FuncArgRef(_) => unreachable!("handled in `RawFunction`"),
+    RawValueKind::BlockArgRef(_) => unreachable!("handled in `RawBasicBlock`"),
+    RawValueKind::GlobalAlloc(v) => v.generate(program, info)?,
+    RawValueKind::Load(v) => v.generate(program, info)?,
+    RawValueKind::Store(v) => v.generate(program, info)?,
+    RawValueKind::GetPtr(v) => v.generate(program, info)?,
+    RawValueKind::GetElemPtr(v) => v.generate(program, info)?,
+    RawValueKind::Binary(v) => v.generate(program, info)?,
+    RawValueKind::Branch(v) => v.generate(program, info)?,
+    RawValueKind::Jump(v) => v.generate(program, info)?,
+    RawValueKind::Call(v) => v.generate(program, info)?,
+    RawValueKind::Return(v) => v.generate(program, info)?,
+    _ => {
+      let ty = raw.ty.generate(program, info)?;
+      match &raw.kind {
+        RawValueKind::ZeroInit => build_value!(program, info, b, { b.zero_init(ty) }),
+        RawValueKind::Undef => build_value!(program, info, b, { b.undef(ty) }),
+        RawValueKind::Alloc => match ty.kind() {
+          TypeKind::Pointer(base) => builder!(program, info).alloc(base.clone()),
+          _ => unreachable!(),
+        },
+        _ => unreachable!(),
+      }
+    }
+  };
+  // set value name & insert value
+  let name = raw.name.generate(program, info)?;
+  if info.cur_func.is_null() {
+    program.set_value_name(value, name);
+    info.values.insert(raw_value, value);
+  } else {
+    let func_info = info.cur_func_info_mut();
+    let func = program.func_mut(func_info.func);
+    func.dfg_mut().set_value_name(value, name);
+    func_info.values.insert(raw_value, value);
   }
+  Ok(())
 }
 
 impl GenerateOnRaw for RawInteger {
-- 
2.43.0


From ad73ac90d42ad76417f0a342df56eafab949951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 25/36] fix: raw constants shared by globals and functions
 convert

---
 libkoopa/src/raw/generator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index 9b3bf20..1bd667a 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -215,6 +215,11 @@ impl GenerateOnRaw for RawProgram<'_> {
     for value in self.values.values()? {
       value.generate(program, info)?;
     }
+    // only global variables can be used in functions,
+    // constants should be generated again
+    info
+      .values
+      .retain(|v, _| matches!(unsafe { &**v }.kind, RawValueKind::GlobalAlloc(_)));
     for func in self.funcs.funcs()? {
       func.generate(program, info)?;
     }
-- 
2.43.0


From f4c43ba657820a5796541c8a2181daaa1ca688d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 26/36] fix: null pointers in raw programs are reported

---
 libkoopa/src/raw/generator.rs | 56 ++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index 1bd667a..42ac303 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -78,6 +78,12 @@ impl FunctionInfo {
   }
 }
 
+/// Dereferences the given raw pointer.
+/// Returns `NullPointerError` if it is null.
+fn deref<'a, T>(ptr: *const T) -> Result<&'a T> {
+  unsafe { ptr.as_ref() }.ok_or(ErrorCode::NullPointerError)
+}
+
 /// Returns a local value builder of the current function.
 macro_rules! builder {
   ($program:expr, $info:expr) => {
@@ -135,14 +141,22 @@ impl<T: Pointer> Iterator for RawSliceIter<'_, T> {
 }
 
 impl RawSlice {
+  /// Returns an iterator of this slice, without checking the item kind.
+  fn iter<T: Pointer>(&self) -> Result<RawSliceIter<'_, T>> {
+    if self.buffer.is_null() && self.len != 0 {
+      return Err(ErrorCode::NullPointerError);
+    }
+    Ok(RawSliceIter {
+      slice: self,
+      index: 0,
+      phantom: PhantomData,
+    })
+  }
+
   /// Returns an type iterator of this slice.
   fn types(&self) -> Result<RawSliceIter<'_, RawType>> {
     match self.kind {
-      RawSliceItemKind::Type => Ok(RawSliceIter::<RawType> {
-        slice: self,
-        index: 0,
-        phantom: PhantomData,
-      }),
+      RawSliceItemKind::Type => self.iter(),
       _ => Err(ErrorCode::RawSliceItemKindMismatch),
     }
   }
@@ -150,11 +164,7 @@ impl RawSlice {
   /// Returns an function iterator of this slice.
   fn funcs(&self) -> Result<RawSliceIter<'_, RawFunction>> {
     match self.kind {
-      RawSliceItemKind::Function => Ok(RawSliceIter::<RawFunction> {
-        slice: self,
-        index: 0,
-        phantom: PhantomData,
-      }),
+      RawSliceItemKind::Function => self.iter(),
       _ => Err(ErrorCode::RawSliceItemKindMismatch),
     }
   }
@@ -162,11 +172,7 @@ impl RawSlice {
   /// Returns an basic block iterator of this slice.
   fn bbs(&self) -> Result<RawSliceIter<'_, RawBasicBlock>> {
     match self.kind {
-      RawSliceItemKind::BasicBlock => Ok(RawSliceIter::<RawBasicBlock> {
-        slice: self,
-        index: 0,
-        phantom: PhantomData,
-      }),
+      RawSliceItemKind::BasicBlock => self.iter(),
       _ => Err(ErrorCode::RawSliceItemKindMismatch),
     }
   }
@@ -174,11 +180,7 @@ impl RawSlice {
   /// Returns an value iterator of this slice.
   fn values(&self) -> Result<RawSliceIter<'_, RawValue>> {
     match self.kind {
-      RawSliceItemKind::Value => Ok(RawSliceIter::<RawValue> {
-        slice: self,
-        index: 0,
-        phantom: PhantomData,
-      }),
+      RawSliceItemKind::Value => self.iter(),
       _ => Err(ErrorCode::RawSliceItemKindMismatch),
     }
   }
@@ -246,7 +248,7 @@ impl GenerateOnRaw for RawType {
   type Entity = Type;
 
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
-    Ok(match unsafe { &**self } {
+    Ok(match deref(*self)? {
       RawTypeKind::Int32 => Type::get_i32(),
       RawTypeKind::Unit => Type::get_unit(),
       RawTypeKind::Array(base, len) => Type::get_array(base.generate(program, info)?, *len),
@@ -266,7 +268,7 @@ impl GenerateOnRaw for RawFunction {
     if let Some(f) = info.funcs.get(self) {
       Ok(f.func)
     } else {
-      let raw = unsafe { &**self };
+      let raw = deref(*self)?;
       // generate function name & type
       let name = raw.name.generate(program, info)?.unwrap_string()?;
       let (params, ret) = match raw.ty.generate(program, info)?.kind() {
@@ -283,7 +285,7 @@ impl GenerateOnRaw for RawFunction {
         let params = params
           .into_iter()
           .zip(raw.params.values()?)
-          .map(|(ty, p)| Ok((unsafe { &*p }.name.generate(program, info)?, ty)))
+          .map(|(ty, p)| Ok((deref(p)?.name.generate(program, info)?, ty)))
           .collect::<Result<_>>()?;
         program.new_func_def_with_param_names(name, params, ret)
       };
@@ -308,14 +310,14 @@ impl GenerateOnRaw for RawBasicBlock {
     if let Some(b) = info.cur_func_info().bbs.get(self) {
       Ok(*b)
     } else {
-      let raw = unsafe { &**self };
+      let raw = deref(*self)?;
       // generate basic block name & parameters
       let name = raw.name.generate(program, info)?;
       let params = raw
         .params
         .values()?
         .map(|p| {
-          let raw = unsafe { &*p };
+          let raw = deref(p)?;
           let name = raw.name.generate(program, info)?;
           Ok((name, raw.ty.generate(program, info)?))
         })
@@ -355,7 +357,7 @@ impl GenerateOnRaw for RawValue {
         continue;
       }
       let len = values.len();
-      for opr in operands(&unsafe { &*value }.kind)? {
+      for opr in operands(&deref(value)?.kind)? {
         if info.value(&opr).is_none() {
           values.push(opr);
         }
@@ -403,7 +405,7 @@ fn operands(kind: &RawValueKind) -> Result<Vec<RawValue>> {
 /// Generates the given value, all of its operands must have been generated.
 fn generate_value(value: RawValue, program: &mut Program, info: &mut ProgramInfo) -> Result<()> {
   let raw_value = value;
-  let raw = unsafe { &*raw_value };
+  let raw = deref(raw_value)?;
   let value = match &raw.kind {
     RawValueKind::Integer(v) => v.generate(program, info)?,
     RawValueKind::Aggregate(v) => v.generate(program, info)?,
-- 
2.43.0


From 525323486d45302854d374a47ea7a0e5cc603995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 27/36] fix: ill-typed raw programs are reported

---
 libkoopa/src/raw/generator.rs | 129 ++++++++++++++++++++++++++++++----
 1 file changed, 116 insertions(+), 13 deletions(-)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index 42ac303..e0a36b2 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -78,6 +78,43 @@ impl FunctionInfo {
   }
 }
 
+/// Returns the type of the given value, which is a
+/// global value or a value of the current function.
+fn value_type(program: &Program, info: &ProgramInfo, value: Value) -> Type {
+  if value.is_global() {
+    program.borrow_value(value).ty().clone()
+  } else {
+    let func = program.func(info.cur_func_info().func);
+    func.dfg().value(value).ty().clone()
+  }
+}
+
+/// Returns `true` if the given value, which is a global
+/// value or a value of the current function, is a constant.
+fn is_const(program: &Program, info: &ProgramInfo, value: Value) -> bool {
+  if value.is_global() {
+    program.borrow_value(value).kind().is_const()
+  } else {
+    let func = program.func(info.cur_func_info().func);
+    func.dfg().value(value).kind().is_const()
+  }
+}
+
+/// Returns `true` if the arguments match the parameters of the basic block.
+fn match_bb_params(program: &Program, info: &ProgramInfo, bb: BasicBlock, args: &[Value]) -> bool {
+  let func = program.func(info.cur_func_info().func);
+  let params = func.dfg().bb(bb).params().iter();
+  params.len() == args.len()
+    && params
+      .zip(args)
+      .all(|(p, a)| value_type(program, info, *p) == value_type(program, info, *a))
+}
+
+/// Returns `TypeMismatch` if the given condition does not hold.
+fn check_type(cond: bool) -> Result<()> {
+  cond.then_some(()).ok_or(ErrorCode::TypeMismatch)
+}
+
 /// Dereferences the given raw pointer.
 /// Returns `NullPointerError` if it is null.
 fn deref<'a, T>(ptr: *const T) -> Result<&'a T> {
@@ -235,8 +272,15 @@ impl GenerateOnRaw for RawProgram<'_> {
         for inst in unsafe { &*raw_bb }.insts.values()? {
           let inst = inst.generate(program, info)?;
           // insert to the current basic block
-          let layout = program.func_mut(info.cur_func_info().func).layout_mut();
-          layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
+          let func = program.func_mut(info.cur_func_info().func);
+          if inst.is_global()
+            || !func.dfg().value(inst).kind().is_local_inst()
+            || func.layout().parent_bb(inst).is_some()
+          {
+            return Err(ErrorCode::InvalidKoopaProgram);
+          }
+          let layout = func.layout_mut().bb_mut(bb);
+          layout.insts_mut().push_key_back(inst).unwrap();
         }
       }
     }
@@ -251,7 +295,10 @@ impl GenerateOnRaw for RawType {
     Ok(match deref(*self)? {
       RawTypeKind::Int32 => Type::get_i32(),
       RawTypeKind::Unit => Type::get_unit(),
-      RawTypeKind::Array(base, len) => Type::get_array(base.generate(program, info)?, *len),
+      RawTypeKind::Array(base, len) => {
+        check_type(*len != 0)?;
+        Type::get_array(base.generate(program, info)?, *len)
+      }
       RawTypeKind::Pointer(base) => Type::get_pointer(base.generate(program, info)?),
       RawTypeKind::Function(params, ret) => Type::get_function(
         params.types()?.generate(program, info)?,
@@ -275,6 +322,7 @@ impl GenerateOnRaw for RawFunction {
         TypeKind::Function(params, ret) => (params.clone(), ret.clone()),
         _ => return Err(ErrorCode::TypeMismatch),
       };
+      check_type(params.iter().all(|p| !p.is_unit()))?;
       // generate function definition
       let func = if raw.bbs.len == 0 {
         program.new_func_decl(name, params, ret)
@@ -319,7 +367,9 @@ impl GenerateOnRaw for RawBasicBlock {
         .map(|p| {
           let raw = deref(p)?;
           let name = raw.name.generate(program, info)?;
-          Ok((name, raw.ty.generate(program, info)?))
+          let ty = raw.ty.generate(program, info)?;
+          check_type(!ty.is_unit())?;
+          Ok((name, ty))
         })
         .collect::<Result<_>>()?;
       // generate basic block
@@ -406,11 +456,25 @@ fn operands(kind: &RawValueKind) -> Result<Vec<RawValue>> {
 fn generate_value(value: RawValue, program: &mut Program, info: &mut ProgramInfo) -> Result<()> {
   let raw_value = value;
   let raw = deref(raw_value)?;
+  // instructions can only be generated in the right scope
+  match &raw.kind {
+    RawValueKind::Integer(_)
+    | RawValueKind::ZeroInit
+    | RawValueKind::Undef
+    | RawValueKind::Aggregate(_) => {}
+    RawValueKind::GlobalAlloc(_) if info.cur_func.is_null() => {}
+    RawValueKind::GlobalAlloc(_) => return Err(ErrorCode::InvalidKoopaProgram),
+    _ if info.cur_func.is_null() => return Err(ErrorCode::InvalidKoopaProgram),
+    _ => {}
+  }
   let value = match &raw.kind {
     RawValueKind::Integer(v) => v.generate(program, info)?,
     RawValueKind::Aggregate(v) => v.generate(program, info)?,
-    RawValueKind::FuncArgRef(_) => unreachable!("handled in `RawFunction`"),
-    RawValueKind::BlockArgRef(_) => unreachable!("handled in `RawBasicBlock`"),
+    // arguments of the current function have been handled in
+    // `RawFunction` and `RawBasicBlock`
+    RawValueKind::FuncArgRef(_) | RawValueKind::BlockArgRef(_) => {
+      return Err(ErrorCode::InvalidKoopaProgram);
+    }
     RawValueKind::GlobalAlloc(v) => v.generate(program, info)?,
     RawValueKind::Load(v) => v.generate(program, info)?,
     RawValueKind::Store(v) => v.generate(program, info)?,
@@ -424,11 +488,12 @@ fn generate_value(value: RawValue, program: &mut Program, info: &mut ProgramInfo
     _ => {
       let ty = raw.ty.generate(program, info)?;
       match &raw.kind {
+        _ if ty.is_unit() => return Err(ErrorCode::TypeMismatch),
         RawValueKind::ZeroInit => build_value!(program, info, b, { b.zero_init(ty) }),
         RawValueKind::Undef => build_value!(program, info, b, { b.undef(ty) }),
         RawValueKind::Alloc => match ty.kind() {
-          TypeKind::Pointer(base) => builder!(program, info).alloc(base.clone()),
-          _ => unreachable!(),
+          TypeKind::Pointer(base) if !base.is_unit() => builder!(program, info).alloc(base.clone()),
+          _ => return Err(ErrorCode::TypeMismatch),
         },
         _ => unreachable!(),
       }
@@ -460,7 +525,13 @@ impl GenerateOnRaw for RawAggregate {
   type Entity = Value;
 
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
-    let elems = self.elems.values()?.generate(program, info)?;
+    let elems: Vec<_> = self.elems.values()?.generate(program, info)?;
+    check_type(!elems.is_empty())?;
+    let ty = value_type(program, info, elems[0]);
+    for elem in &elems {
+      check_type(is_const(program, info, *elem))?;
+      check_type(value_type(program, info, *elem) == ty)?;
+    }
     Ok(build_value!(program, info, b, { b.aggregate(elems) }))
   }
 }
@@ -479,6 +550,8 @@ impl GenerateOnRaw for RawLoad {
 
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
     let src = self.src.generate(program, info)?;
+    let src_ty = value_type(program, info, src);
+    check_type(matches!(src_ty.kind(), TypeKind::Pointer(_)))?;
     Ok(builder!(program, info).load(src))
   }
 }
@@ -489,6 +562,8 @@ impl GenerateOnRaw for RawStore {
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
     let value = self.value.generate(program, info)?;
     let dest = self.dest.generate(program, info)?;
+    let ty = Type::get_pointer(value_type(program, info, value));
+    check_type(ty == value_type(program, info, dest))?;
     Ok(builder!(program, info).store(value, dest))
   }
 }
@@ -499,6 +574,9 @@ impl GenerateOnRaw for RawGetPtr {
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
     let src = self.src.generate(program, info)?;
     let index = self.index.generate(program, info)?;
+    let src_ty = value_type(program, info, src);
+    check_type(matches!(src_ty.kind(), TypeKind::Pointer(_)))?;
+    check_type(value_type(program, info, index).is_i32())?;
     Ok(builder!(program, info).get_ptr(src, index))
   }
 }
@@ -509,6 +587,12 @@ impl GenerateOnRaw for RawGetElemPtr {
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
     let src = self.src.generate(program, info)?;
     let index = self.index.generate(program, info)?;
+    let is_array_ptr = match value_type(program, info, src).kind() {
+      TypeKind::Pointer(base) => matches!(base.kind(), TypeKind::Array(..)),
+      _ => false,
+    };
+    check_type(is_array_ptr)?;
+    check_type(value_type(program, info, index).is_i32())?;
     Ok(builder!(program, info).get_elem_ptr(src, index))
   }
 }
@@ -538,6 +622,8 @@ impl GenerateOnRaw for RawBinary {
     };
     let lhs = self.lhs.generate(program, info)?;
     let rhs = self.rhs.generate(program, info)?;
+    check_type(value_type(program, info, lhs).is_i32())?;
+    check_type(value_type(program, info, rhs).is_i32())?;
     Ok(builder!(program, info).binary(op, lhs, rhs))
   }
 }
@@ -549,8 +635,13 @@ impl GenerateOnRaw for RawBranch {
     let cond = self.cond.generate(program, info)?;
     let true_bb = self.true_bb.generate(program, info)?;
     let false_bb = self.false_bb.generate(program, info)?;
-    let true_args = self.true_args.values()?.generate(program, info)?;
-    let false_args = self.false_args.values()?.generate(program, info)?;
+    let true_args: Vec<_> = self.true_args.values()?.generate(program, info)?;
+    let false_args: Vec<_> = self.false_args.values()?.generate(program, info)?;
+    check_type(value_type(program, info, cond).is_i32())?;
+    check_type(match_bb_params(program, info, true_bb, &true_args))?;
+    check_type(match_bb_params(program, info, false_bb, &false_args))?;
+    // branches with same targets can not have arguments
+    check_type(true_bb != false_bb || true_args.is_empty())?;
     Ok(builder!(program, info).branch_with_args(cond, true_bb, false_bb, true_args, false_args))
   }
 }
@@ -560,7 +651,8 @@ impl GenerateOnRaw for RawJump {
 
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
     let target = self.target.generate(program, info)?;
-    let args = self.args.values()?.generate(program, info)?;
+    let args: Vec<_> = self.args.values()?.generate(program, info)?;
+    check_type(match_bb_params(program, info, target, &args))?;
     Ok(builder!(program, info).jump_with_args(target, args))
   }
 }
@@ -570,7 +662,17 @@ impl GenerateOnRaw for RawCall {
 
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
     let callee = self.callee.generate(program, info)?;
-    let args = self.args.values()?.generate(program, info)?;
+    let args: Vec<_> = self.args.values()?.generate(program, info)?;
+    let params = match program.func(callee).ty().kind() {
+      TypeKind::Function(params, _) => params,
+      _ => return Err(ErrorCode::TypeMismatch),
+    };
+    if params.len() != args.len() {
+      return Err(ErrorCode::FuncParamNumMismatch);
+    }
+    for (param, arg) in params.iter().zip(&args) {
+      check_type(*param == value_type(program, info, *arg))?;
+    }
     Ok(builder!(program, info).call(callee, args))
   }
 }
@@ -582,6 +684,7 @@ impl GenerateOnRaw for RawReturn {
     let value = (!self.value.is_null())
       .then(|| self.value.generate(program, info))
       .transpose()?;
+    check_type(value.is_none_or(|v| !value_type(program, info, v).is_unit()))?;
     Ok(builder!(program, info).ret(value))
   }
 }
-- 
2.43.0


From c5485e350994a04b23200a76d465800e3dae1583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 28/36] fix: negative file descriptors are reported

---
 libkoopa/src/back.rs   |  3 ++-
 libkoopa/src/driver.rs |  2 +-
 libkoopa/src/io.rs     | 14 ++++++++------
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/libkoopa/src/back.rs b/libkoopa/src/back.rs
index 7a0c928..f16dda3 100644
--- a/libkoopa/src/back.rs
+++ b/libkoopa/src/back.rs
@@ -67,7 +67,8 @@ fn dump_to_raw<V>(program: &Program, file: RawFile) -> ErrorCode
 where
   V: Visitor<File> + Default,
 {
-  let mut g = Generator::<_, V>::new(file_from_raw(file));
+  let file = unwrap_or_return!(file_from_raw(file).ok_or(()), InvalidFile);
+  let mut g = Generator::<_, V>::new(file);
   unwrap_or_return!(g.generate_on(program), IoError);
   ErrorCode::Success
 }
diff --git a/libkoopa/src/driver.rs b/libkoopa/src/driver.rs
index 3b4d90c..564bb71 100644
--- a/libkoopa/src/driver.rs
+++ b/libkoopa/src/driver.rs
@@ -59,7 +59,7 @@ ffi! {
   ///
   /// Returns the error code.
   fn koopa_parse_from_raw(file: RawFile, program: &mut *mut Program) -> ErrorCode {
-    let file = file_from_raw(file);
+    let file = unwrap_or_return!(file_from_raw(file).ok_or(()), InvalidFile);
     let driver = Driver::new(FileType::Buffer, file);
     let prog = unwrap_or_return!(driver.generate_program(), InvalidKoopaProgram);
     *program = new_pointer(prog);
diff --git a/libkoopa/src/io.rs b/libkoopa/src/io.rs
index 9669472..8d4379f 100644
--- a/libkoopa/src/io.rs
+++ b/libkoopa/src/io.rs
@@ -12,14 +12,16 @@ pub(crate) type RawFile = RawFd;
 #[cfg(windows)]
 pub(crate) type RawFile = RawHandle;
 
-/// Returns a [`File`] object from the given raw file ID.
+/// Returns a [`File`] object from the given raw file ID,
+/// or `None` if the given raw file ID is never valid.
 #[cfg(unix)]
-pub(crate) fn file_from_raw(fd: RawFile) -> File {
-  unsafe { File::from_raw_fd(fd) }
+pub(crate) fn file_from_raw(fd: RawFile) -> Option<File> {
+  (fd >= 0).then(|| unsafe { File::from_raw_fd(fd) })
 }
 
-/// Returns a [`File`] object from the given raw file ID.
+/// Returns a [`File`] object from the given raw file ID,
+/// or `None` if the given raw file ID is never valid.
 #[cfg(windows)]
-pub(crate) fn file_from_raw(handle: RawFile) -> File {
-  unsafe { File::from_raw_handle(handle) }
+pub(crate) fn file_from_raw(handle: RawFile) -> Option<File> {
+  Some(unsafe { File::from_raw_handle(handle) })
 }
-- 
2.43.0


From d6dee73bfa0ec3faedea8c5dba90c3b8a17b0fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:22 +0000
Subject: [PATCH 29/36] fix: rows of long diagnostics no longer run together

---
 koopa/src/front/span.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index 46aaed6..694002f 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -390,7 +390,7 @@ impl Span {
         eprint!("{} ", format!("{:w$}", line_num + i + 1, w = width).blue());
         eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
       }
-      eprint!("{:.>w$} {} {}", "", "|".blue(), "|".color(color), w = width);
+      eprintln!("{:.>w$} {} {}", "", "|".blue(), "|".color(color), w = width);
       let (line, []) = get_line_str(lines.nth(mid_lines - 3), []);
       eprint!("{} ", format!("{:w$}", self.end.line - 1, w = width).blue());
       eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
-- 
2.43.0


From 7a814bf106a8d1d8ae92fb5975ae8cd6ca0b5ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 30/36] fix: errors carry their messages when the front-end
 logger is disabled

---
 koopa/src/front/driver.rs |  7 +++++-
 koopa/src/front/span.rs   | 48 +++++++++++++++++++++++++++++++--------
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/koopa/src/front/driver.rs b/koopa/src/front/driver.rs
index 8052969..74e9b12 100644
--- a/koopa/src/front/driver.rs
+++ b/koopa/src/front/driver.rs
@@ -35,7 +35,12 @@ impl<T: Read> Driver<T> {
 
   /// Consumes the current driver and generates Koopa IR program
   /// from the reader.
-  pub fn generate_program(mut self) -> Result<Program, Error> {
+  pub fn generate_program(self) -> Result<Program, Error> {
+    self.build_program().map_err(Span::collect_errors)
+  }
+
+  /// Consumes the current driver and builds the program.
+  fn build_program(mut self) -> Result<Program, Error> {
     // the state of spans is shared by all drivers of the current thread,
     // so it must be reset right before using it
     Span::reset(self.ft);
diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index 694002f..6235101 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -108,6 +108,8 @@ impl Span {
         file: FileType::Buffer,
         err_num: 0,
         warn_num: 0,
+        #[cfg(feature = "no-front-logger")]
+        messages: Vec::new(),
       })
     };
   }
@@ -124,6 +126,8 @@ impl Span {
         file,
         err_num: 0,
         warn_num: 0,
+        #[cfg(feature = "no-front-logger")]
+        messages: Vec::new(),
       }
     });
   }
@@ -131,9 +135,7 @@ impl Span {
   /// Logs normal error with no span provided.
   #[cfg(feature = "no-front-logger")]
   pub fn log_raw_error(args: Arguments) -> Error {
-    // update error number
-    Self::STATE.with(|gs| gs.borrow_mut().err_num += 1);
-    Error::Normal(format!("{}", args))
+    Error::Normal(Self::record_error(format!("{}", args)))
   }
 
   /// Logs normal error with no span provided.
@@ -151,9 +153,7 @@ impl Span {
   /// Logs fatal error with no span provided.
   #[cfg(feature = "no-front-logger")]
   pub fn log_raw_fatal_error(args: Arguments) -> Error {
-    // update error number
-    Self::STATE.with(|gs| gs.borrow_mut().err_num += 1);
-    Error::Fatal(format!("{}", args))
+    Error::Fatal(Self::record_error(format!("{}", args)))
   }
 
   /// Logs fatal error with no span provided.
@@ -233,8 +233,7 @@ impl Span {
   /// Logs normal error message.
   #[cfg(feature = "no-front-logger")]
   pub fn log_error(&self, args: Arguments) -> Error {
-    Self::log_raw_error(args);
-    Error::Normal(self.error_message(args))
+    Error::Normal(Self::record_error(self.error_message(args)))
   }
 
   /// Logs normal error message.
@@ -248,8 +247,7 @@ impl Span {
   /// Logs fatal error message.
   #[cfg(feature = "no-front-logger")]
   pub fn log_fatal_error(&self, args: Arguments) -> Error {
-    Self::log_raw_error(args);
-    Error::Fatal(self.error_message(args))
+    Error::Fatal(Self::record_error(self.error_message(args)))
   }
 
   /// Logs fatal error message.
@@ -306,6 +304,34 @@ impl Span {
     self.end.line == span.start.line
   }
 
+  /// Updates the error number and records the given error message.
+  #[cfg(feature = "no-front-logger")]
+  fn record_error(message: String) -> String {
+    Self::STATE.with(|gs| {
+      let mut gs = gs.borrow_mut();
+      gs.err_num += 1;
+      gs.messages.push(message.clone());
+    });
+    message
+  }
+
+  /// Converts the error that the front-end ends with into the one
+  /// that carries all recorded messages, one per line.
+  #[cfg(feature = "no-front-logger")]
+  pub(in crate::front) fn collect_errors(error: Error) -> Error {
+    let messages = Self::STATE.with(|gs| gs.borrow().messages.join("\n"));
+    match error {
+      Error::Normal(_) => Error::Normal(messages),
+      Error::Fatal(_) => Error::Fatal(messages),
+    }
+  }
+
+  /// Does nothing, since all messages have been logged.
+  #[cfg(not(feature = "no-front-logger"))]
+  pub(in crate::front) fn collect_errors(error: Error) -> Error {
+    error
+  }
+
   /// Returns the error message.
   #[cfg(feature = "no-front-logger")]
   fn error_message(&self, args: Arguments) -> String {
@@ -460,6 +486,8 @@ struct GlobalState {
   file: FileType,
   err_num: usize,
   warn_num: usize,
+  #[cfg(feature = "no-front-logger")]
+  messages: Vec<String>,
 }
 
 /// Type of input file.
-- 
2.43.0


From 90189e1dfde3729390aa235c9016bb13b7eed15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:19 +0000
Subject: [PATCH 31/36] fix: the parser recovers from tokens that begin no
 statement or definition

---
 koopa/src/front/parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index d08a85a..2979757 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -4,7 +4,7 @@ use crate::front::ast::{self, AstBox};
 use crate::front::lexer::Lexer;
 use crate::front::span::{Error, Span};
 use crate::front::token::{Keyword, Token, TokenKind};
-use crate::return_error;
+use crate::{log_error, return_error};
 use std::io::Read;
 
 /// A parser for parsing the text form Koopa IR.
@@ -91,7 +91,7 @@ impl<T: Read> Parser<T> {
       TokenKind::Keyword(Keyword::Global) => self.parse_global_def(),
       TokenKind::Keyword(Keyword::Fun) => self.parse_fun_def(),
       TokenKind::Keyword(Keyword::Decl) => self.parse_fun_decl(),
-      ? => return_error!(span, "expected global definition/declaration, found {}", kind),
+      ? => log_error!(span, "expected global definition/declaration, found {}", kind).into(),
     }
   }
 
@@ -303,8 +303,10 @@ impl<T: Read> Parser<T> {
         TokenKind::Keyword(Keyword::Br) => { exit_flag = true; self.parse_branch() },
         TokenKind::Keyword(Keyword::Jump) => { exit_flag = true; self.parse_jump() },
         TokenKind::Keyword(Keyword::Ret) => { exit_flag = true; self.parse_return() },
-        ? => return_error!(span, "expected statement, found {}", kind),
-        break if TokenKind::Other('}') | TokenKind::End => { exit_flag = true; },
+        ? => log_error!(span, "expected statement, found {}", kind).into(),
+        break if TokenKind::Other('}')
+          | TokenKind::Keyword(Keyword::Global | Keyword::Fun | Keyword::Decl)
+          | TokenKind::End => { exit_flag = true; },
       }?);
     }
     // create basic block
-- 
2.43.0


From 4dd17f463a71bd98a51a331b3bd277b4310d5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:23 +0000
Subject: [PATCH 32/36] fix: spans of branches and jumps without arguments end
 at their targets

---
 koopa/src/front/parser.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index 2979757..43eb280 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -446,11 +446,12 @@ impl<T: Read> Parser<T> {
     // check & eat ','
     self.expect(TokenKind::Other(','))?;
     // get false target basic block
+    let span_fbb = self.span();
     let fbb = read!(self, TokenKind::Symbol, "basic block name")?;
     // get false target basic block arguments
     let (fargs, sp) = self.parse_opt_list(|s| s.parse_value())?;
     Ok(ast::Branch::new_boxed(
-      span.into_updated_span(sp),
+      span.into_updated_span(sp.unwrap_or(span_fbb)),
       cond,
       tbb,
       targs,
@@ -465,11 +466,12 @@ impl<T: Read> Parser<T> {
     // eat 'jump'
     self.next_token()?;
     // get target basic block
+    let span_target = self.span();
     let target = read!(self, TokenKind::Symbol, "basic block name")?;
     // get target basic block arguments
     let (args, sp) = self.parse_opt_list(|s| s.parse_value())?;
     Ok(ast::Jump::new_boxed(
-      span.into_updated_span(sp),
+      span.into_updated_span(sp.unwrap_or(span_target)),
       target,
       args,
     ))
@@ -597,15 +599,22 @@ impl<T: Read> Parser<T> {
   }
 
   /// Parses optional comma-separated lists.
-  fn parse_opt_list<F, U>(&mut self, parser: F) -> std::result::Result<(Vec<U>, Span), Error>
+  ///
+  /// The returned span is `None` if there is no list.
+  fn parse_opt_list<F, U>(
+    &mut self,
+    parser: F,
+  ) -> std::result::Result<(Vec<U>, Option<Span>), Error>
   where
     F: Fn(&mut Self) -> std::result::Result<U, Error>,
   {
     // check left bracket
     if self.is_token(TokenKind::Other('(')) {
-      self.parse_list(parser)
+      self
+        .parse_list(parser)
+        .map(|(items, span)| (items, Some(span)))
     } else {
-      Ok((Vec::new(), self.span()))
+      Ok((Vec::new(), None))
     }
   }
 
-- 
2.43.0


From eec70be026485e9ef70942cf618e5d6c489fe725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:11 +0000
Subject: [PATCH 33/36] fix: an invalid token at the beginning no longer ends
 the parsing

---
 koopa/src/front/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index 43eb280..b0285ed 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -79,7 +79,12 @@ impl<T: Read> Parser<T> {
       cur_token: Token::default(),
       depth: 0,
     };
-    parser.next_token()?;
+    // skip invalid tokens, which have been reported
+    while let Err(e) = parser.next_token() {
+      if e.is_fatal() {
+        return Err(e);
+      }
+    }
     Ok(parser)
   }
 
-- 
2.43.0


From c0ff11335e7c0bb4ab1f58f4834b3abaa5d88291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:54 +0000
Subject: [PATCH 34/36] fix: warnings about unreachable blocks come in the
 order of the blocks

---
 koopa/src/front/builder.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 0497b32..5c77043 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -248,7 +248,7 @@ impl Builder {
     let mut bb_map = HashMap::new();
     for bb in bbs {
       let block = unwrap_ast!(bb, Block);
-      if bb_map.insert(&block.name, (&bb.span, block)).is_some() {
+      if bb_map.insert(&block.name, block).is_some() {
         log_error!(
           bb.span,
           "basic block '{}' has already been defined",
@@ -260,11 +260,11 @@ impl Builder {
     let mut bb_list = Vec::new();
     while let Some(bb) = queue.pop_front() {
       if visited.insert(bb) {
-        let info = bb_map[bb];
+        let block = bb_map[bb];
         // add to basic block list
-        bb_list.push(info.1);
+        bb_list.push(block);
         // add the successors to queue
-        let last_stmt = info.1.stmts.last().unwrap();
+        let last_stmt = block.stmts.last().unwrap();
         let mut add_target = |bb_name| {
           if bb_name == entry_bb_name {
             log_error!(
@@ -288,10 +288,12 @@ impl Builder {
         }
       }
     }
-    // check if there are any unvisited blocks
-    for (bb_name, (span, _)) in bb_map {
+    // check if there are any unvisited blocks, in the order of their
+    // definitions, since the order of the map is arbitrary
+    for bb in bbs {
+      let bb_name = &unwrap_ast!(bb, Block).name;
       if !visited.contains(bb_name) {
-        log_warning!(span, "basic block '{}' is unreachable, skipped", bb_name);
+        log_warning!(bb.span, "basic block '{}' is unreachable, skipped", bb_name);
       }
     }
     bb_list
-- 
2.43.0


From ecccdce7ab2cba8a6900c860732ff6538d30b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:07 +0000
Subject: [PATCH 35/36] fix: comparing values takes linear time and no
 recursion

---
 koopa/src/ir/dfg.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/koopa/src/ir/dfg.rs b/koopa/src/ir/dfg.rs
index 2fc64b3..94b2c2d 100644
--- a/koopa/src/ir/dfg.rs
+++ b/koopa/src/ir/dfg.rs
@@ -4,7 +4,7 @@ use crate::ir::builder::{BlockBuilder, LocalBuilder, ReplaceBuilder};
 use crate::ir::entities::{BasicBlock, BasicBlockData, Value, ValueData};
 use crate::ir::entities::{FuncTypeMapCell, GlobalValueMapCell};
 use crate::ir::idman::{next_bb_id, next_local_value_id};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::mem;
 
 /// Data flow graph of a function.
@@ -212,11 +212,34 @@ impl DataFlowGraph {
 
   /// Checks if the two given values are equal.
   pub fn value_eq(&self, lhs: Value, rhs: Value) -> bool {
-    self.data_eq(data!(self, lhs), data!(self, rhs))
+    self.all_values_eq(vec![(lhs, rhs)])
   }
 
   /// Checks if the two given value data are equal.
   pub fn data_eq(&self, lhs: &ValueData, rhs: &ValueData) -> bool {
+    let mut uses = Vec::new();
+    Self::data_eq_except_uses(lhs, rhs, &mut uses) && self.all_values_eq(uses)
+  }
+
+  /// Checks if the values in each of the given pairs are equal.
+  ///
+  /// Compares every pair only once and does not recurse,
+  /// since values may be shared by many others and may be deep.
+  fn all_values_eq(&self, mut pairs: Vec<(Value, Value)>) -> bool {
+    let mut compared = HashSet::new();
+    while let Some((lhs, rhs)) = pairs.pop() {
+      if compared.insert((lhs, rhs))
+        && !Self::data_eq_except_uses(data!(self, lhs), data!(self, rhs), &mut pairs)
+      {
+        return false;
+      }
+    }
+    true
+  }
+
+  /// Checks if the two given value data are equal, except for the values
+  /// they use. If so, adds the pairs of the used values to `uses`.
+  fn data_eq_except_uses(lhs: &ValueData, rhs: &ValueData, uses: &mut Vec<(Value, Value)>) -> bool {
     use crate::ir::entities::ValueKind::*;
     macro_rules! return_if {
       ($e:expr) => {
@@ -257,9 +280,7 @@ impl DataFlowGraph {
       (Return(l), Return(r)) => return_if!(l.value().xor(r.value()).is_some()),
       _ => return false,
     }
-    for (lu, ru) in lhs.kind().value_uses().zip(rhs.kind().value_uses()) {
-      return_if!(!self.value_eq(lu, ru));
-    }
+    uses.extend(lhs.kind().value_uses().zip(rhs.kind().value_uses()));
     true
   }
 
-- 
2.43.0


From 304b52075bd62db6a7fb689182f68624732d0f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:10 +0000
Subject: [PATCH 36/36] fix: raw names without a prefix are reported

---
 libkoopa/src/raw/generator.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index e0a36b2..c9ec6a8 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -238,10 +238,15 @@ impl GenerateOnRaw for *const c_char {
   fn generate(&self, _: &mut Program, _: &mut ProgramInfo) -> Result<Self::Entity> {
     (!self.is_null())
       .then(|| {
-        unsafe { CStr::from_ptr(*self) }
+        let name = unsafe { CStr::from_ptr(*self) }
           .to_str()
-          .map(|s| s.into())
-          .map_err(|_| ErrorCode::InvalidUtf8String)
+          .map_err(|_| ErrorCode::InvalidUtf8String)?;
+        // names must have a prefix
+        if name.len() > 1 && name.starts_with(['@', '%']) {
+          Ok(name.into())
+        } else {
+          Err(ErrorCode::InvalidKoopaProgram)
+        }
       })
       .transpose()
   }
-- 
2.43.0

