//! The few libc entry points the harness needs (no libc crate offline).
use std::os::raw::{c_char, c_int, c_void};
unsafe extern "C" {
  pub fn clock_gettime(id: i32, t: *mut i64) -> i32;
  pub fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
  pub fn munmap(a: *mut c_void, len: usize) -> c_int;
  pub fn setrlimit(r: c_int, lim: *const u64) -> c_int;
  pub fn dup(fd: c_int) -> c_int;
  pub fn dup2(a: c_int, b: c_int) -> c_int;
  pub fn close(fd: c_int) -> c_int;
  pub fn open(p: *const c_char, flags: c_int, ...) -> c_int;
  pub fn pipe(p: *mut c_int) -> c_int;
  pub fn memfd_create(p: *const c_char, flags: u32) -> c_int;
  pub fn lseek(fd: c_int, off: i64, wh: c_int) -> i64;
  pub fn ftruncate(fd: c_int, len: i64) -> c_int;
  pub fn read(fd: c_int, b: *mut c_void, n: usize) -> isize;
  pub fn write(fd: c_int, b: *const c_void, n: usize) -> isize;
  pub fn pread(fd: c_int, b: *mut c_void, n: usize, off: i64) -> isize;
  pub fn dlopen(p: *const c_char, flags: c_int) -> *mut c_void;
  pub fn dlsym(h: *mut c_void, p: *const c_char) -> *mut c_void;
  pub fn dlerror() -> *const c_char;
  pub fn fork() -> c_int;
  pub fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
  pub fn _exit(code: c_int) -> !;
  pub fn alarm(s: u32) -> u32;
  pub fn fcntl(fd: c_int, cmd: c_int, ...) -> c_int;
}

pub fn redirect_to_null(fd: c_int) {
  unsafe {
    let n = open(c"/dev/null".as_ptr(), 2);
    dup2(n, fd);
    close(n);
  }
}

/// Collects what is written to a descriptor.
pub struct Capture {
  fd: c_int,
  mem: c_int,
  saved: c_int,
}
impl Capture {
  pub fn new(fd: c_int) -> Capture {
    unsafe {
      let mem = memfd_create(c"cap".as_ptr(), 1);
      assert!(mem >= 0);
      Capture { fd, mem, saved: fcntl(fd, 1030, 3) }
    }
  }
  /// Runs `f` and returns what it wrote.
  pub fn run<R>(&self, f: impl FnOnce() -> R) -> (R, Vec<u8>) {
    unsafe {
      ftruncate(self.mem, 0);
      lseek(self.mem, 0, 0);
      dup2(self.mem, self.fd);
      let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
      dup2(self.saved, self.fd);
      let n = lseek(self.mem, 0, 2);
      let mut v = vec![0u8; n as usize];
      let g = pread(self.mem, v.as_mut_ptr() as *mut c_void, v.len(), 0);
      assert_eq!(g as i64, n);
      match r {
        Ok(r) => (r, v),
        Err(e) => std::panic::resume_unwind(e),
      }
    }
  }
}
impl Drop for Capture {
  fn drop(&mut self) {
    unsafe {
      close(self.mem);
      close(self.saved);
    }
  }
}

/// Overrides libc's `getrandom`, which seeds the hash maps of the code under
/// test, so that hash iteration order is decided by the harness and a replayed
/// case behaves identically.
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut c_void, len: usize, _flags: u32) -> isize {
  let seed = HASH_SEED.load(std::sync::atomic::Ordering::Relaxed);
  let b = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, len) };
  let mut x = seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234_5678_9abc_def1;
  for c in b {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    *c = x as u8;
  }
  len as isize
}
pub static HASH_SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

/// A memory file holding `data`, positioned at its start.
pub fn memfile(data: &[u8]) -> c_int {
  unsafe {
    let f = memfd_create(c"mem".as_ptr(), 1);
    assert!(f >= 0);
    let mut d = data;
    while !d.is_empty() {
      let n = write(f, d.as_ptr() as *const c_void, d.len());
      assert!(n > 0);
      d = &d[n as usize..];
    }
    lseek(f, 0, 0);
    f
  }
}

/// Everything in a file, whatever its position.
pub fn content(fd: c_int) -> Vec<u8> {
  unsafe {
    let n = lseek(fd, 0, 2).max(0);
    let mut v = vec![0u8; n as usize];
    let g = pread(fd, v.as_mut_ptr() as *mut c_void, v.len(), 0);
    assert_eq!(g as i64, n);
    v
  }
}

/// Runs `f` in a child process and returns what it returned; a child that
/// dies is reported.
pub fn in_child(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
  unsafe {
    let out = memfd_create(c"child".as_ptr(), 1);
    let pid = fork();
    assert!(pid >= 0);
    if pid == 0 {
      alarm(30);
      let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
      let code = match v {
        Ok(v) => {
          let mut d = &v[..];
          while !d.is_empty() {
            let n = write(out, d.as_ptr() as *const c_void, d.len());
            if n <= 0 {
              _exit(9);
            }
            d = &d[n as usize..];
          }
          0
        }
        Err(_) => 8,
      };
      _exit(code);
    }
    let mut st = 0;
    waitpid(pid, &mut st, 0);
    let v = content(out);
    close(out);
    if st == 0 { Ok(v) } else { Err(format!("the process ended with wait status {st:#x}")) }
  }
}
