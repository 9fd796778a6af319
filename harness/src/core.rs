//! Shared plumbing: deterministic RNG, ndjson output, watchdog, panic capture, virtual clock.
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};

// ---------------------------------------------------------------- virtual clock
/// When on, CLOCK_MONOTONIC reads `VNOW` (ns) instead of the real clock.
pub static VCLOCK_ON: AtomicBool = AtomicBool::new(false);
pub static VNOW: AtomicI64 = AtomicI64::new(1_000_000_000_000_000);

extern "C" {
    fn syscall(num: std::ffi::c_long, ...) -> std::ffi::c_long;
}
#[repr(C)]
pub struct Ts {
    sec: i64,
    nsec: i64,
}
/// # Safety
/// Called by libc users with a valid pointer.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Ts) -> i32 {
    if clk == 1 && VCLOCK_ON.load(Ordering::Relaxed) {
        let now = VNOW.load(Ordering::Relaxed);
        (*ts).sec = now / 1_000_000_000;
        (*ts).nsec = now % 1_000_000_000;
        0
    } else {
        syscall(228, clk as i64, ts) as i32
    }
}
thread_local! {
    /// When set, this thread's sleeps advance the virtual clock instead of sleeping.
    pub static VSLEEP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// # Safety
/// Called by libc users with valid pointers.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const Ts, rem: *mut Ts) -> i32 {
    if VSLEEP.with(|v| v.get()) && flags == 0 {
        VNOW.fetch_add((*req).sec * 1_000_000_000 + (*req).nsec, Ordering::Relaxed);
        return 0;
    }
    // the kernel returns -errno through -1/errno here; EINTR is the only case that matters
    if syscall(230, clk as i64, flags as i64, req, rem) == 0 {
        0
    } else {
        4
    }
}
/// # Safety
/// Called by libc users with valid pointers.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Ts, rem: *mut Ts) -> i32 {
    if VSLEEP.with(|v| v.get()) {
        VNOW.fetch_add((*req).sec * 1_000_000_000 + (*req).nsec, Ordering::Relaxed);
        return 0;
    }
    syscall(35, req, rem) as i32
}
pub fn vclock(on: bool) {
    VCLOCK_ON.store(on, Ordering::Relaxed);
}
pub fn advance_ms(ms: i64) {
    VNOW.fetch_add(ms * 1_000_000, Ordering::Relaxed);
}

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn bytes(&mut self, alphabet: &[u8], max: usize) -> Vec<u8> {
        let n = self.below(max + 1);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
}

// ---------------------------------------------------------------- output
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub struct Ctx {
    pub seed: u64,
    pub n: usize,
    pub thorough: bool,
    out: std::io::BufWriter<std::fs::File>,
    cur: std::fs::File,
    pub count: u64,
    pub input: Option<Vec<Value>>,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        crate::arena::off();
        let s = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
    std::thread::spawn(|| {
        let mut last = PROGRESS.load(Ordering::Relaxed);
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now == last {
                same += 1;
                if same > 60 {
                    eprintln!("HANG");
                    std::process::exit(77);
                }
            } else {
                same = 0;
                last = now;
            }
        }
    });
}

pub fn tick() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

/// Runs `f`, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().replace('\n', " "))),
    }
}

impl Ctx {
    pub fn new(out: &str, seed: u64, n: usize, thorough: bool, input: Option<Vec<Value>>) -> Self {
        Ctx {
            seed,
            n,
            thorough,
            out: std::io::BufWriter::new(std::fs::File::create(out).unwrap()),
            cur: std::fs::File::create(format!("{out}.cur")).unwrap(),
            count: 0,
            input,
        }
    }
    /// Announces the case about to run so a crash or hang can be attributed.
    pub fn begin(&mut self, case: &Value) {
        use std::os::unix::fs::FileExt;
        tick();
        let s = case.to_string();
        let _ = self.cur.set_len(s.len() as u64);
        let _ = self.cur.write_all_at(s.as_bytes(), 0);
    }
    pub fn emit(&mut self, v: &Value) {
        self.count += 1;
        serde_json::to_writer(&mut self.out, v).unwrap();
        self.out.write_all(b"\n").unwrap();
    }
    /// Runs one case: `case` is the input object; `f` computes its output.
    pub fn case(&mut self, case: Value, f: impl FnOnce() -> Value) {
        self.begin(&case);
        let (st, out) = match guarded(f) {
            Ok(v) => ("ok", v),
            Err(e) => ("panic", json!(e)),
        };
        let mut case = case;
        case.as_object_mut().unwrap().insert("st".into(), json!(st));
        case.as_object_mut().unwrap().insert("out".into(), out);
        self.emit(&case);
    }
    pub fn finish(mut self) {
        self.out.flush().unwrap();
        let _ = self.cur.set_len(0);
    }
}

// ---------------------------------------------------------------- json helpers
pub fn jb(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|x| Value::from(*x)).collect())
}
pub fn bj(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}
pub fn opt(v: Option<Value>) -> Value {
    Value::Array(v.into_iter().collect())
}
pub fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}
