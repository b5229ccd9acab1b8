//! Supervisor and case runner. Every check is a deterministic enumeration of
//! cases; worker processes take the cases whose number falls into their shard.
//! A worker that dies or hangs inside a case turns that case into a failure,
//! which the supervisor confirms by replaying the case alone.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

thread_local! {
  static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "panic".into()
    };
    let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
    LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
  }));
}

pub fn last_panic() -> String {
  LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs `f`, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub struct Shared {
  ptr: *mut AtomicU64,
}

impl Shared {
  fn open(path: &Path) -> Shared {
    let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(4096).unwrap();
    use std::os::fd::AsRawFd;
    let p = unsafe { crate::sys::mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    Shared { ptr: p as *mut AtomicU64 }
  }
  fn at(&self, i: usize) -> &AtomicU64 {
    unsafe { &*self.ptr.add(i) }
  }
}

fn now_ms() -> u64 {
  // the clock that all processes share and nobody sets
  let mut t = [0i64; 2];
  unsafe { crate::sys::clock_gettime(1, t.as_mut_ptr()) };
  t[0] as u64 * 1000 + t[1] as u64 / 1_000_000
}

pub struct Ctx {
  pub id: String,
  pub tier: Tier,
  pub shard: u64,
  pub nshards: u64,
  from: u64,
  only: Option<u64>,
  index: u64,
  shared: Option<Shared>,
  fails: Vec<(u64, String, String)>,
  fail_file: Option<fs::File>,
  pub evals: u64,
  pub counters: BTreeMap<String, u64>,
  pub distinct: HashSet<u64>,
  pub samples: Vec<String>,
  next_sample: u64,
  verbose: bool,
  pub dir: PathBuf,
  /// texts of the cases listed as known findings
  known: HashSet<String>,
}

const MAX_FAILS: usize = 8;

impl Ctx {
  pub fn quick(&self) -> bool {
    self.tier == Tier::Quick
  }
  pub fn thorough(&self) -> bool {
    self.tier == Tier::Thorough
  }
  pub fn pick<T>(&self, q: T, t: T) -> T {
    if self.quick() { q } else { t }
  }
  pub fn count(&mut self, k: &str, n: u64) {
    *self.counters.entry(k.to_string()).or_insert(0) += n;
  }
  pub fn note(&mut self, h: u64) -> bool {
    self.distinct.insert(h)
  }
  /// Tells the supervisor that a long case makes progress.
  pub fn beat(&self) {
    if let Some(s) = &self.shared {
      s.at(1).store(now_ms(), Ordering::Relaxed);
    }
  }
  pub fn stop(&self) -> bool {
    self.fails.len() >= MAX_FAILS
  }
  /// Whether the next case belongs to this worker (so callers may skip costly
  /// generation); must be followed by exactly one `case` or `skip`.
  pub fn mine_next(&self) -> bool {
    let i = self.index;
    match self.only {
      Some(o) => i == o,
      None => i >= self.from && i % self.nshards == self.shard && !self.stop(),
    }
  }
  pub fn skip(&mut self) {
    self.index += 1;
  }
  /// Runs one case. `f` returns Err(description of the violation).
  pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce(&mut Ctx) -> Result<(), String>) {
    let mine = self.mine_next();
    let i = self.index;
    self.index += 1;
    if !mine {
      return;
    }
    self.evals += 1;
    if let Some(s) = &self.shared {
      s.at(1).store(now_ms(), Ordering::Relaxed);
      s.at(0).store(i + 1, Ordering::Release);
    }
    if self.verbose {
      println!("case {i}:\n{}", desc());
    }
    let r = match catch_unwind(AssertUnwindSafe(|| f(self))) {
      Ok(r) => r,
      Err(_) => Err(format!("panic: {}", last_panic())),
    };
    if let Some(s) = &self.shared {
      s.at(0).store(0, Ordering::Release);
      s.at(2).fetch_add(1, Ordering::Relaxed);
    }
    if self.evals >= self.next_sample && self.samples.len() < 6 {
      self.next_sample = self.next_sample * 7 + 1;
      self.samples.push(desc());
    }
    if let Err(m) = r {
      let d = desc();
      if self.verbose {
        println!("FAILED: {m}");
      }
      if let Some(ff) = &mut self.fail_file {
        let _ = ff.write_all(format!("{}\x1f{}\x1f{}\x1e", i, d, m).as_bytes());
        let _ = ff.flush();
      }
      if !self.known.contains(&d) {
        self.fails.push((i, d, m));
      }
    }
  }
}

pub type CheckFn = fn(&mut Ctx);

pub struct CheckDef {
  pub id: &'static str,
  pub level: &'static str,
  pub rule: &'static str,
  pub run: CheckFn,
  pub assumptions: &'static [&'static str],
}

fn parse_tier(s: &str) -> Tier {
  match s {
    "quick" => Tier::Quick,
    "thorough" => Tier::Thorough,
    _ => {
      eprintln!("unknown tier {s}");
      std::process::exit(2)
    }
  }
}

pub fn verif_dir() -> PathBuf {
  std::env::var("KMC_VERIF").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}

fn limits(t: Tier) {
  unsafe {
    // address space limit: a runaway case ends as a failed allocation
    let gb = if t == Tier::Quick { 3u64 } else { 12 };
    let lim = [gb << 30, gb << 30];
    crate::sys::setrlimit(9, lim.as_ptr());
    // no core files
    let z = [0u64, 0u64];
    crate::sys::setrlimit(4, z.as_ptr());
  }
}

fn in_thread(f: impl FnOnce() + Send + 'static) {
  std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().expect("engine thread");
}

/// `kmc worker ID TIER shard nshards from dir`
pub fn worker_main(def: &'static CheckDef, args: &[String]) {
  install_panic_hook();
  let tier = parse_tier(&args[0]);
  limits(tier);
  let shard: u64 = args[1].parse().unwrap();
  let nshards: u64 = args[2].parse().unwrap();
  let from: u64 = args[3].parse().unwrap();
  let dir = PathBuf::from(&args[4]);
  if std::env::var("KMC_KEEP_STDERR").is_err() {
    crate::sys::redirect_to_null(2);
  }
  in_thread(move || {
    let shared = Shared::open(&dir.join(format!("cur.{shard}")));
    shared.at(0).store(0, Ordering::Release);
    let ff = fs::OpenOptions::new().append(true).create(true).open(dir.join(format!("fail.{shard}"))).unwrap();
    let mut ctx = Ctx {
      id: def.id.into(),
      tier,
      shard,
      nshards,
      from,
      only: None,
      index: 0,
      shared: Some(shared),
      fails: vec![],
      fail_file: Some(ff),
      evals: 0,
      counters: BTreeMap::new(),
      distinct: HashSet::new(),
      samples: vec![],
      next_sample: 1,
      verbose: false,
      dir: dir.clone(),
      known: load_known().into_iter().filter(|k| k.property == def.id).map(|k| k.case).collect(),
    };
    (def.run)(&mut ctx);
    let mut out = String::new();
    out += &format!("evals {}\ntotal {}\n", ctx.evals, ctx.index);
    for (k, v) in &ctx.counters {
      out += &format!("c {k} {v}\n");
    }
    let mut bin = Vec::with_capacity(ctx.distinct.len() * 8);
    for h in &ctx.distinct {
      bin.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(dir.join(format!("dist.{shard}.{from}")), bin).unwrap();
    fs::write(dir.join(format!("samples.{shard}.{from}")), ctx.samples.join("\x1e")).unwrap();
    fs::write(dir.join(format!("res.{shard}.{from}")), out).unwrap();
  });
}

/// `kmc one ID TIER index`: replays one case; exit 0 held, 1 violated.
pub fn one_main(def: &'static CheckDef, args: &[String]) -> i32 {
  install_panic_hook();
  let tier = parse_tier(&args[0]);
  limits(tier);
  let only: u64 = args[1].parse().unwrap();
  let dir = PathBuf::from(args.get(2).cloned().unwrap_or_else(|| "/tmp".into()));
  let beat = args.get(2).map(|d| PathBuf::from(d).join(format!("beat.{only}")));
  let code = std::sync::Arc::new(AtomicU64::new(3));
  let c2 = code.clone();
  in_thread(move || {
    let mut ctx = Ctx {
      id: def.id.into(),
      tier,
      shard: 0,
      nshards: 1,
      from: 0,
      only: Some(only),
      index: 0,
      shared: beat.map(|b| Shared::open(&b)),
      fails: vec![],
      fail_file: None,
      evals: 0,
      counters: BTreeMap::new(),
      distinct: HashSet::new(),
      samples: vec![],
      next_sample: 1,
      verbose: true,
      dir,
      known: HashSet::new(),
    };
    (def.run)(&mut ctx);
    let r = if ctx.evals == 0 {
      3
    } else if ctx.fails.is_empty() {
      0
    } else {
      1
    };
    c2.store(r, Ordering::Relaxed);
  });
  code.load(Ordering::Relaxed) as i32
}

struct Known {
  property: String,
  case: String,
  what: String,
}

/// known-findings.txt: lines `known|property=ID|<what>|<case text, \n escaped>`;
/// `fixed: ...` lines and comments are ignored here.
fn load_known() -> Vec<Known> {
  let mut v = vec![];
  if let Ok(s) = fs::read_to_string(verif_dir().join("known-findings.txt")) {
    for l in s.lines() {
      let p: Vec<&str> = l.splitn(4, '|').collect();
      if p.len() == 4 && p[0] == "known" {
        v.push(Known {
          property: p[1].trim_start_matches("property=").into(),
          what: p[2].into(),
          case: p[3].replace("\\n", "\n"),
        });
      }
    }
  }
  v
}

pub fn json_str(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o += "\\\"",
      '\\' => o += "\\\\",
      '\n' => o += "\\n",
      c if (c as u32) < 0x20 || (c as u32) == 0x7f => o += &format!("\\u{:04x}", c as u32),
      c => o.push(c),
    }
  }
  o + "\""
}

struct W {
  child: Child,
  shard: u64,
}

pub fn run_main(def: &'static CheckDef, tier_s: &str) -> i32 {
  let t0 = Instant::now();
  let tier = parse_tier(tier_s);
  let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let exe = std::env::current_exe().unwrap();
  let jobs: u64 = std::env::var("KMC_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
  let dir = std::env::temp_dir().join(format!("kmc.{}.{}", def.id, std::process::id()));
  let _ = fs::remove_dir_all(&dir);
  fs::create_dir_all(&dir).unwrap();
  let hang_ms: u64 = 40_000;
  let spawn = |shard: u64, from: u64| -> W {
    let child = Command::new(&exe)
      .args(["worker", def.id, tier_s, &shard.to_string(), &jobs.to_string(), &from.to_string(), dir.to_str().unwrap()])
      .stdin(Stdio::null())
      .stdout(Stdio::null())
      .spawn()
      .expect("spawn worker");
    W { child, shard }
  };
  let mut live: Vec<W> = (0..jobs).map(|s| spawn(s, 0)).collect();
  // (index, desc, msg, crashed)
  let mut fails: Vec<(u64, String, String)> = vec![];
  let mut engine_err: Option<String> = None;
  let mut slow = 0u64;
  let mut hangs = 0u32;
  let mut confirming = Duration::ZERO;
  let mut crashes: BTreeMap<u64, u32> = BTreeMap::new();
  while !live.is_empty() {
    std::thread::sleep(Duration::from_millis(20));
    let mut i = 0;
    while i < live.len() {
      let shard = live[i].shard;
      let sh = Shared::open(&dir.join(format!("cur.{shard}")));
      let cur = sh.at(0).load(Ordering::Acquire);
      let started = sh.at(1).load(Ordering::Relaxed);
      unsafe { crate::sys::munmap(sh.ptr as *mut _, 4096) };
      let st = live[i].child.try_wait().unwrap();
      let mut died: Option<String> = None;
      let mut hung = false;
      match st {
        Some(s) if s.success() => {
          live.swap_remove(i);
          continue;
        }
        Some(s) => died = Some(format!("the process died: {s}")),
        None => {
          if cur != 0 && now_ms().saturating_sub(started) > hang_ms {
            let _ = live[i].child.kill();
            let _ = live[i].child.wait();
            hung = true;
            died = Some(format!("no answer within {} s", hang_ms / 1000));
          }
        }
      }
      if let Some(why) = died {
        live.swap_remove(i);
        if cur == 0 {
          engine_err = Some(format!("worker {shard} died outside a case: {why}"));
          continue;
        }
        let idx = cur - 1;
        // confirm alone
        let mut c = Command::new(&exe)
          .args(["one", def.id, tier_s, &idx.to_string(), dir.to_str().unwrap()])
          .stdin(Stdio::null())
          .stdout(fs::File::create(dir.join(format!("one.{idx}"))).unwrap())
          .stderr(Stdio::null())
          .spawn()
          .unwrap();
        let since = Instant::now();
        let beat = Shared::open(&dir.join(format!("beat.{idx}")));
        beat.at(1).store(now_ms(), Ordering::Relaxed);
        let res = loop {
          if let Some(s) = c.try_wait().unwrap() {
            break Some(s);
          }
          if now_ms().saturating_sub(beat.at(1).load(Ordering::Relaxed)) > hang_ms + 20_000 {
            let _ = c.kill();
            let _ = c.wait();
            break None;
          }
          std::thread::sleep(Duration::from_millis(20));
        };
        confirming += since.elapsed();
        let ok = matches!(res, Some(s) if s.success() || s.code() == Some(3));
        let out = fs::read(dir.join(format!("one.{idx}"))).unwrap_or_default();
        let mut desc = String::from_utf8_lossy(&out).into_owned();
        if let Some(p) = desc.find('\n') {
          desc = desc[p + 1..].trim_end_matches('\n').to_string();
        }
        if ok && hung {
          // merely slow: covered by the run alone
          slow += 1;
        } else if ok {
          engine_err = Some(format!("worker {shard} failed in case {idx} ({why}) but the case alone passes: {desc}"));
        } else {
          fails.push((idx, desc, why));
        }
        let n = crashes.entry(shard).or_insert(0);
        *n += !(ok && hung) as u32;
        hangs += (hung && !ok) as u32;
        if hangs >= 2 || !ok && confirming > Duration::from_secs(60) {
          // there is a violation, and more take long to confirm
          for w in &mut live {
            let _ = w.child.kill();
            let _ = w.child.wait();
          }
          live.clear();
          break;
        }
        if *n < 3 {
          live.push(spawn(shard, idx + 1));
        }
        continue;
      }
      i += 1;
    }
  }
  let mut evals = 0u64;
  let mut total = 0u64;
  let mut counters: BTreeMap<String, u64> = BTreeMap::new();
  let mut distinct: HashSet<u64> = HashSet::new();
  let mut samples: Vec<String> = vec![];
  for e in fs::read_dir(&dir).unwrap() {
    let p = e.unwrap().path();
    let n = p.file_name().unwrap().to_string_lossy().into_owned();
    if n.starts_with("fail.") {
      let s = String::from_utf8_lossy(&fs::read(&p).unwrap()).into_owned();
      for rec in s.split('\x1e').filter(|r| !r.is_empty()) {
        let f: Vec<&str> = rec.splitn(3, '\x1f').collect();
        if f.len() == 3 {
          fails.push((f[0].parse().unwrap(), f[1].into(), f[2].into()));
        }
      }
    } else if n.starts_with("res.") {
      for l in fs::read_to_string(&p).unwrap().lines() {
        let f: Vec<&str> = l.split(' ').collect();
        match f[0] {
          "evals" => evals += f[1].parse::<u64>().unwrap(),
          "total" => total = total.max(f[1].parse().unwrap()),
          "c" => *counters.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
          _ => {}
        }
      }
    } else if n.starts_with("dist.") {
      for c in fs::read(&p).unwrap().chunks_exact(8) {
        distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
      }
    } else if n.starts_with("samples.") {
      let s = String::from_utf8_lossy(&fs::read(&p).unwrap()).into_owned();
      samples.extend(s.split('\x1e').filter(|s| !s.is_empty()).map(|s| s.to_string()));
    }
  }
  if slow > 0 {
    counters.insert("slow".into(), slow);
  }
  samples.sort_by_key(|s| s.len());
  samples.dedup();
  let nsm = samples.len();
  let samples: Vec<String> = samples.into_iter().enumerate().filter(|(i, _)| nsm <= 8 || i % (nsm / 8 + 1) == 0).map(|(_, s)| s.chars().take(1200).collect()).collect();
  let _ = fs::remove_dir_all(&dir);
  fails.sort();
  fails.dedup();
  // known findings
  let known = load_known();
  let mut printed: HashSet<String> = HashSet::new();
  let mut viol = vec![];
  for f in fails {
    if let Some(k) = known.iter().find(|k| k.property == def.id && k.case == f.1) {
      if printed.insert(k.case.clone()) {
        println!("KNOWN-FINDING: property={} {}: {}", def.id, k.what, k.case.replace('\n', " "));
      }
    } else {
      viol.push(f);
    }
  }
  let rdir = verif_dir().join("replays");
  let _ = fs::create_dir_all(&rdir);
  let mut shown = 0;
  let maxshow: usize = std::env::var("KMC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
  for (idx, desc, msg) in &viol {
    let path = rdir.join(format!("{}-{}-{}.txt", def.id, tier_s, idx));
    let _ = fs::write(
      &path,
      format!("property {}\ntier {}\ncase {}\n# replay: /verif/check.sh replay {}\n# {}\n---\n{}\n", def.id, tier_s, idx, path.display(), msg.replace('\n', "\n# "), desc),
    );
    if shown < maxshow {
      println!("VIOLATION property={} replay={}", def.id, path.display());
      println!("  {}", msg.lines().take(12).collect::<Vec<_>>().join("\n  "));
      for l in desc.lines().take(30) {
        println!("  | {l}");
      }
      shown += 1;
    }
  }
  let wall = t0.elapsed().as_secs_f64();
  // evidence
  let mut cov = String::new();
  let _ = total;
  if def.level == "model_checking" {
    cov += &format!("    \"states\": {},\n", distinct.len());
    cov += &format!("    \"transitions\": {},\n", counters.get("transitions").copied().unwrap_or(0));
    cov += &format!("    \"traces_validated_against_impl\": {},\n", counters.get("traces").copied().unwrap_or(0));
    cov += &format!("    \"state_rule\": {},\n", json_str(def.rule));
  } else {
    cov += &format!("    \"evaluations\": {},\n", counters.get("evaluations").copied().unwrap_or(evals));
    cov += &format!("    \"distinct_nontrivial\": {},\n    \"rule\": {},\n", distinct.len(), json_str(def.rule));
  }
  for (k, v) in &counters {
    if !matches!(k.as_str(), "transitions" | "traces" | "evaluations") && *v != distinct.len() as u64 {
      cov += &format!("    {}: {},\n", json_str(&format!("n_{k}")), v);
    }
  }
  let exhaustive = viol.is_empty() && engine_err.is_none() && !counters.contains_key("truncated");
  cov += &format!("    \"exhaustive\": {},\n    \"samples\": [{}]\n", exhaustive, samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
  let ev = format!(
    "{{\n  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"{}\",\n  \"coverage\": {{\n{}  }},\n  \"assumptions\": [{}],\n  \"violations\": {},\n  \"wall_s\": {:.3}\n}}\n",
    def.id,
    tier_s,
    seed,
    def.level,
    cov,
    def.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
    viol.len(),
    wall
  );
  let _ = fs::create_dir_all(verif_dir().join("evidence"));
  fs::write(verif_dir().join("evidence").join(format!("{}.json", def.id)), ev).unwrap();
  println!(
    "{} {}: {} cases, {} distinct, {}, {:.1} s",
    def.id,
    tier_s,
    evals,
    distinct.len(),
    counters.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "),
    wall
  );
  let _ = tier;
  if !viol.is_empty() {
    return 1;
  }
  if let Some(e) = engine_err {
    println!("ENGINE ERROR: {e}");
    return 2;
  }
  if evals == 0 {
    println!("ENGINE ERROR: no case was run");
    return 2;
  }
  0
}

pub fn replay_main(defs: &'static [CheckDef], path: &str) -> i32 {
  let s = fs::read_to_string(path).expect("replay file");
  let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string()).expect("bad replay file");
  let id = get("property ");
  let def = defs.iter().find(|d| d.id == id).expect("unknown property");
  one_main(def, &[get("tier "), get("case ")])
}

pub fn hash64(b: &[u8]) -> u64 {
  // FNV-1a with a final mix; stable between runs
  let mut h: u64 = 0xcbf29ce484222325;
  for x in b {
    h ^= *x as u64;
    h = h.wrapping_mul(0x100000001b3);
  }
  h ^= h >> 32;
  h = h.wrapping_mul(0x9e3779b97f4a7c15);
  h ^ (h >> 29)
}
