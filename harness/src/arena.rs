//! A global allocator that can put the blocks allocated by library calls under watch:
//! red zones, double frees, leaks, writes after free, and whether secrets were overwritten with
//! zeros by the time their memory is released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

const SIZE: usize = 1 << 20;
const MAX: usize = 8192;
const ZONE: usize = 32;
const CANARY: u8 = 0xA5;
const POISON: u8 = 0xDD;

#[repr(align(64))]
struct Arena(UnsafeCell<[u8; SIZE]>);
unsafe impl Sync for Arena {}
static ARENA: Arena = Arena(UnsafeCell::new([0; SIZE]));

#[derive(Clone, Copy)]
struct Block {
    at: usize,
    size: usize,
    end: usize,
    bytes: bool,
    live: bool,
    lo: usize,
    hi: usize,
}
const NOBLOCK: Block = Block { at: 0, size: 0, end: 0, bytes: false, live: false, lo: 0, hi: 0 };
struct State {
    top: usize,
    n: usize,
    blocks: [Block; MAX],
    strict: bool,
    mem: Mem,
}
/// What went wrong with memory in one case.
#[derive(Clone, Copy, Default, Debug)]
pub struct Mem {
    pub canary: u64,
    pub dfree: u64,
    pub leak: u64,
    pub unzeroed: u64,
    pub residue: u64,
    pub uaf: u64,
}
struct Cellw(UnsafeCell<State>);
unsafe impl Sync for Cellw {}
static STATE: Cellw = Cellw(UnsafeCell::new(State {
    top: 0,
    n: 0,
    blocks: [NOBLOCK; MAX],
    strict: false,
    mem: Mem { canary: 0, dfree: 0, leak: 0, unzeroed: 0, residue: 0, uaf: 0 },
}));

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
}

pub struct Watch;

fn base() -> usize {
    ARENA.0.get() as usize
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.try_with(|o| o.get()).unwrap_or(false) || l.align() > 64 {
            return System.alloc(l);
        }
        let st = &mut *STATE.0.get();
        let at = (st.top + 15 + l.align() - 1) & !(l.align() - 1) & !15usize;
        let at = (at + l.align() - 1) & !(l.align() - 1);
        let end = (at + l.size() + ZONE + 15) & !15;
        if end > SIZE || st.n >= MAX {
            return System.alloc(l);
        }
        let p = (base() + at) as *mut u8;
        std::ptr::write_bytes(p.add(l.size()), CANARY, end - at - l.size());
        st.blocks[st.n] = Block { at, size: l.size(), end, bytes: l.align() == 1, live: true, lo: 0, hi: 0 };
        st.n += 1;
        st.top = end;
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let a = p as usize;
        let inside = a >= base() && a < base() + SIZE;
        if !inside && !ON.try_with(|o| o.get()).unwrap_or(false) {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
            self.dealloc(p, l);
        }
        q
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if a < base() || a >= base() + SIZE {
            return System.dealloc(p, l);
        }
        let st = &mut *STATE.0.get();
        let at = a - base();
        let Some(i) = (0..st.n).rev().find(|i| st.blocks[*i].at == at) else {
            st.mem.dfree += 1;
            return;
        };
        let b = &mut st.blocks[i];
        if !b.live || b.size != l.size() {
            st.mem.dfree += 1;
            return;
        }
        b.live = false;
        let nz = |lo: usize, hi: usize| (lo..hi).any(|k| *p.add(k) != 0);
        if b.lo < b.hi && nz(b.lo, b.hi) {
            st.mem.unzeroed += 1;
        }
        if st.strict && b.bytes && nz(0, b.size) {
            st.mem.residue += 1;
        }
        std::ptr::write_bytes(p, POISON, b.size);
    }
}

/// Runs library code whose allocations are watched.
pub fn watch<T>(f: impl FnOnce() -> T) -> T {
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    r
}
pub fn on() {
    ON.with(|o| o.set(true));
}
/// Stops watching (called when a panic starts).
pub fn off() {
    let _ = ON.try_with(|o| o.set(false));
}
/// Starts a case. `strict`: every byte buffer released must hold only zeros.
pub fn start(strict: bool) {
    off();
    unsafe {
        let st = &mut *STATE.0.get();
        st.strict = strict;
        st.mem = Mem::default();
    }
}
/// The block that holds this slice, as an index.
fn block_of(s: &[u8]) -> Option<usize> {
    let a = s.as_ptr() as usize;
    if s.is_empty() || a < base() || a >= base() + SIZE {
        return None;
    }
    let st = unsafe { &*STATE.0.get() };
    let at = a - base();
    (0..st.n).find(|i| st.blocks[*i].at <= at && at < st.blocks[*i].at + st.blocks[*i].size)
}
/// This slice holds a secret: it has to be zeros when its memory is released.
pub fn mark(s: &[u8]) {
    if let Some(i) = block_of(s) {
        let b = unsafe { &mut (*STATE.0.get()).blocks[i] };
        let lo = s.as_ptr() as usize - base() - b.at;
        let hi = lo + s.len();
        if b.lo < b.hi {
            b.lo = b.lo.min(lo);
            b.hi = b.hi.max(hi);
        } else {
            b.lo = lo;
            b.hi = hi;
        }
    }
}
/// This slice's block was handed out as a plain buffer.
pub fn unmark(s: &[u8]) {
    if let Some(i) = block_of(s) {
        let b = unsafe { &mut (*STATE.0.get()).blocks[i] };
        b.lo = 0;
        b.hi = 0;
    }
}
/// Ends a case: everything allocated in it must have been released.
pub fn end() -> Mem {
    unsafe {
        let st = &mut *STATE.0.get();
        let mut leaks = 0;
        for b in &st.blocks[..st.n] {
            let p = (base() + b.at) as *const u8;
            if (b.size..b.end - b.at).any(|k| *p.add(k) != CANARY) {
                st.mem.canary += 1;
            }
            if b.live {
                leaks += 1;
            } else if (0..b.size).any(|k| *p.add(k) != POISON) {
                st.mem.uaf += 1;
            }
        }
        st.mem.leak = leaks;
        if leaks == 0 {
            std::ptr::write_bytes(base() as *mut u8, 0, st.top);
            st.top = 0;
        }
        st.n = 0;
        st.mem
    }
}
