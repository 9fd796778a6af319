//! A baton scheduler: exactly one thread of a scenario runs at a time, and which one runs next is
//! decided at every synchronisation operation of the code under test.
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard};

pub const MAXT: usize = 6;
thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static TRACK: Cell<bool> = const { Cell::new(false) };
}
pub fn tid() -> usize {
    TID.with(|t| t.get())
}
pub fn set_tid(t: usize) {
    TID.with(|c| c.set(t))
}

// ------------------------------------------------------------------ allocator
#[derive(Clone, Copy)]
struct Block {
    ptr: usize,
    size: usize,
    align: usize,
    live: bool,
}
const CAP: usize = 512;
static LOCK: AtomicBool = AtomicBool::new(false);
static mut TABLE: [Block; CAP] = [Block { ptr: 0, size: 0, align: 0, live: false }; CAP];
static USED: AtomicUsize = AtomicUsize::new(0);
pub static UAF: AtomicUsize = AtomicUsize::new(0);
pub static DFREE: AtomicUsize = AtomicUsize::new(0);
struct Spin;
impl Spin {
    fn new() -> Spin {
        while LOCK.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
            std::hint::spin_loop();
        }
        Spin
    }
}
impl Drop for Spin {
    fn drop(&mut self) {
        LOCK.store(false, SeqCst);
    }
}
#[allow(static_mut_refs)]
fn table() -> &'static mut [Block; CAP] {
    unsafe { &mut TABLE }
}
pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if TRACK.with(|t| t.get()) && !p.is_null() {
            let _g = Spin::new();
            let n = USED.load(SeqCst);
            if n < CAP {
                table()[n] = Block { ptr: p as usize, size: l.size(), align: l.align(), live: true };
                USED.store(n + 1, SeqCst);
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if USED.load(SeqCst) > 0 {
            let _g = Spin::new();
            for b in table()[..USED.load(SeqCst)].iter_mut() {
                if b.ptr == p as usize {
                    if b.live {
                        b.live = false;
                        // kept until the end of the run, so that later accesses are seen
                        std::ptr::write_bytes(p, 0xDD, l.size());
                    } else {
                        DFREE.fetch_add(1, SeqCst);
                    }
                    return;
                }
            }
        }
        System.dealloc(p, l);
    }
}
/// Notes an access to `addr` by the code under test.
pub fn touch(addr: usize) {
    if USED.load(SeqCst) == 0 {
        return;
    }
    let _g = Spin::new();
    for b in table()[..USED.load(SeqCst)].iter() {
        if !b.live && addr >= b.ptr && addr < b.ptr + b.size.max(1) {
            UAF.fetch_add(1, SeqCst);
            return;
        }
    }
}
/// Ends tracking: the number of blocks never freed.
pub fn end_tracking() -> usize {
    let _g = Spin::new();
    let n = USED.swap(0, SeqCst);
    let mut leaks = 0;
    for b in table()[..n].iter() {
        if b.live {
            leaks += 1;
        } else {
            unsafe { System.dealloc(b.ptr as *mut u8, Layout::from_size_align_unchecked(b.size, b.align)) };
        }
    }
    leaks
}
/// Runs a call into the code under test, tracking what it allocates.
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            TRACK.with(|t| t.set(self.0));
        }
    }
    let _g = G(TRACK.with(|t| t.replace(true)));
    f()
}
pub fn unlib<T>(f: impl FnOnce() -> T) -> T {
    let old = TRACK.with(|t| t.replace(false));
    let r = f();
    TRACK.with(|t| t.set(old));
    r
}

// ------------------------------------------------------------------ scheduler
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Status {
    Ready,
    Parked,
    Blocked(usize),
    Done,
}
#[derive(Clone)]
pub struct Choice {
    pub enabled: Vec<usize>,
    pub chosen: usize,
    pub cur: usize,
    pub dflt: Option<usize>,
}
pub enum Policy {
    /// Follow the prefix, then keep running the same thread for as long as possible.
    Prefix(Vec<usize>),
    /// Switch threads with probability 1/k.
    Random(u64, u64),
}
pub struct Sched {
    pub n: usize,
    pub cur: usize,
    pub st: [Status; MAXT],
    pub token: [bool; MAXT],
    pub spurious: usize,
    pub policy: Policy,
    pub trace: Vec<Choice>,
    pub log: Vec<Value>,
    pub steps: usize,
    pub ended: Option<&'static str>,
    pub active: bool,
}
pub static S: Mutex<Sched> = Mutex::new(Sched {
    n: 0,
    cur: usize::MAX,
    st: [Status::Done; MAXT],
    token: [false; MAXT],
    spurious: 0,
    policy: Policy::Prefix(Vec::new()),
    trace: Vec::new(),
    log: Vec::new(),
    steps: 0,
    ended: None,
    active: false,
});
static CV: [Condvar; MAXT] = [const { Condvar::new() }; MAXT];
pub static MAIN: Condvar = Condvar::new();
pub static GEN: AtomicUsize = AtomicUsize::new(0);

impl Sched {
    fn enabled(&self) -> Vec<usize> {
        (0..self.n)
            .filter(|t| match self.st[*t] {
                Status::Ready => true,
                Status::Parked => self.token[*t] || self.spurious > 0,
                Status::Blocked(_) | Status::Done => false,
            })
            .collect()
    }
    /// Picks the next thread; ends the run if there is none.
    fn pick(&mut self) {
        let en = self.enabled();
        if en.is_empty() {
            self.ended = Some(if (0..self.n).all(|t| self.st[t] == Status::Done) { "done" } else { "blocked" });
            self.cur = usize::MAX;
            MAIN.notify_all();
            return;
        }
        self.steps += 1;
        if self.steps > 3000 {
            self.ended = Some("livelock");
            self.cur = usize::MAX;
            MAIN.notify_all();
            return;
        }
        let cur = self.cur;
        // a spurious wake-up is never the default
        let wakes = |t: &usize| self.st[*t] == Status::Ready || self.token[*t];
        let dflt = if en.contains(&cur) && wakes(&cur) { cur } else { en.iter().copied().find(|t| wakes(t)).unwrap_or(en[0]) };
        let pos = self.trace.len();
        let ch = match &mut self.policy {
            Policy::Prefix(p) => p.get(pos).copied().filter(|t| en.contains(t)).unwrap_or(dflt),
            Policy::Random(x, k) => {
                *x ^= *x << 13;
                *x ^= *x >> 7;
                *x ^= *x << 17;
                if *x % *k == 0 {
                    en[(*x >> 32) as usize % en.len()]
                } else {
                    dflt
                }
            }
        };
        self.trace.push(Choice { enabled: en, chosen: ch, cur, dflt: Some(dflt) });
        if self.st[ch] == Status::Parked {
            if self.token[ch] {
                self.token[ch] = false;
            } else {
                self.spurious -= 1;
            }
            self.st[ch] = Status::Ready;
        }
        self.cur = ch;
        if ch != cur {
            CV[ch].notify_all();
        }
    }
}
fn wait_turn(mut g: MutexGuard<'_, Sched>, t: usize) {
    let gen = GEN.load(SeqCst);
    loop {
        if g.cur == t && GEN.load(SeqCst) == gen {
            return;
        }
        g = CV[t].wait(g).unwrap();
        if GEN.load(SeqCst) != gen {
            // an abandoned run: never come back
            drop(g);
            loop {
                std::thread::park();
            }
        }
    }
}
/// A scheduling point.
pub fn point() {
    let t = tid();
    if t == usize::MAX {
        return;
    }
    unlib(|| {
        let mut g = S.lock().unwrap();
        g.pick();
        wait_turn(g, t);
    })
}
/// Waits for this thread's first turn.
pub fn begin(t: usize) {
    set_tid(t);
    wait_turn(S.lock().unwrap(), t);
}
pub fn finish() {
    let t = tid();
    set_tid(usize::MAX);
    let mut g = S.lock().unwrap();
    g.st[t] = Status::Done;
    for u in 0..g.n {
        if g.st[u] == Status::Blocked(usize::MAX - t) {
            g.st[u] = Status::Ready;
        }
    }
    g.pick();
}
/// Waits until thread `of` is done.
pub fn join(of: usize) {
    while S.lock().unwrap().st[of] != Status::Done {
        block_on(usize::MAX - of);
    }
}
pub fn block_on(addr: usize) {
    let t = tid();
    assert!(t != usize::MAX, "harness: blocked outside of a scenario");
    unlib(|| {
        let mut g = S.lock().unwrap();
        g.st[t] = Status::Blocked(addr);
        g.pick();
        wait_turn(g, t);
    })
}
pub fn wake(addr: usize) {
    if tid() == usize::MAX {
        return;
    }
    let mut g = S.lock().unwrap();
    for t in 0..g.n {
        if g.st[t] == Status::Blocked(addr) {
            g.st[t] = Status::Ready;
        }
    }
}
pub fn park() {
    let t = tid();
    assert!(t != usize::MAX, "harness: parked outside of a scenario");
    point();
    unlib(|| {
        let mut g = S.lock().unwrap();
        if g.token[t] {
            g.token[t] = false;
            return;
        }
        g.st[t] = Status::Parked;
        g.pick();
        wait_turn(g, t);
    })
}
pub fn unpark(t: usize) {
    point();
    unlib(|| {
        if t < MAXT {
            S.lock().unwrap().token[t] = true;
        }
    })
}
pub fn log(v: Value) {
    unlib(|| S.lock().unwrap().log.push(v));
}
pub fn call(op: &str, v: i64) {
    point();
    let t = tid();
    unlib(|| log(json!({"t": t, "e": "call", "op": op, "v": v})));
}
pub fn ret(r: &str, v: Option<i64>) {
    let t = tid();
    unlib(|| log(json!({"t": t, "e": "ret", "r": match v { None => json!([r]), Some(v) => json!([r, v]) }})));
}
pub fn start(n: usize, spurious: usize, policy: Policy) {
    let mut g = S.lock().unwrap();
    GEN.fetch_add(1, SeqCst);
    g.n = n;
    g.st = [Status::Ready; MAXT];
    g.token = [false; MAXT];
    g.spurious = spurious;
    g.policy = policy;
    g.trace.clear();
    g.log.clear();
    g.steps = 0;
    g.ended = None;
    g.cur = usize::MAX;
    UAF.store(0, SeqCst);
    DFREE.store(0, SeqCst);
}
/// Lets the scenario run to its end.
pub fn go() -> &'static str {
    let mut g = S.lock().unwrap();
    g.pick();
    while g.ended.is_none() {
        g = MAIN.wait(g).unwrap();
    }
    g.ended.unwrap()
}
