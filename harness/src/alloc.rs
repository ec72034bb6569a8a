//! Global allocator.  Allocations made while a library call is in progress go to an arena that
//! records every block, surrounds it with red zones, never reuses memory within a program and
//! poisons released blocks, so that leaks, double frees, over-runs and uses after free of the
//! library's memory become observable facts of the trace.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub const RZ: usize = 64;
const ARENA: usize = 1 << 34;
const MAXREC: usize = 1 << 20;

#[derive(Clone, Copy)]
pub struct Rec { pub ptr: usize, pub size: usize, pub align: usize, pub live: bool, guard: bool }

pub struct Arena;
pub static IN_LIB: AtomicBool = AtomicBool::new(false);
static BASE: AtomicUsize = AtomicUsize::new(0);
static TOP: AtomicUsize = AtomicUsize::new(0);
static NREC: AtomicUsize = AtomicUsize::new(0);
static START: AtomicUsize = AtomicUsize::new(0); // where the current program's memory starts
static NERR: AtomicUsize = AtomicUsize::new(0);
static MODE: AtomicUsize = AtomicUsize::new(0); // 0 red zones, 1 guard page behind, 2 guard page in front
const PAGE: usize = 4096;
static mut RECS: *mut Rec = std::ptr::null_mut();
static mut ERRS: [u8; 64] = [0; 64];

pub const E_BADFREE: u8 = 1;
pub const E_DOUBLE: u8 = 2;
pub const E_LAYOUT: u8 = 3;
pub const E_OVERRUN: u8 = 4;
pub const E_UAF: u8 = 5;

pub fn err_name(e: u8) -> &'static str {
    match e { 1 => "bad-free", 2 => "double-free", 3 => "wrong-size-free", 4 => "over-run", 5 => "write-after-free", _ => "?" }
}

fn add_err(e: u8) { unsafe { let n = NERR.load(Relaxed); if n < 64 { ERRS[n] = e; NERR.store(n + 1, Relaxed); } } }
pub fn take_errs() -> Vec<u8> {
    let n = NERR.swap(0, Relaxed);
    unsafe { (0..n).map(|i| ERRS[i]).collect() }
}

pub fn init() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), ARENA, libc::PROT_READ | libc::PROT_WRITE,
                           libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        let r = libc::mmap(std::ptr::null_mut(), MAXREC * std::mem::size_of::<Rec>(), libc::PROT_READ | libc::PROT_WRITE,
                           libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(r != libc::MAP_FAILED);
        RECS = r as *mut Rec;
        BASE.store(p as usize, Relaxed);
        TOP.store(p as usize, Relaxed);
        START.store(p as usize, Relaxed);
    }
}

/// how the next program's blocks are protected
pub fn set_mode(m: usize) { MODE.store(m, Relaxed); }
unsafe fn protect(a: usize, n: usize, p: i32) { libc::mprotect(a as *mut _, n, p); }
fn up(a: usize) -> usize { (a + PAGE - 1) & !(PAGE - 1) }

fn in_arena(p: usize) -> bool { let b = BASE.load(Relaxed); b != 0 && p >= b && p < b + ARENA }

/// index of the record containing address p (in its payload)
pub fn find(p: usize) -> Option<usize> {
    let n = NREC.load(Relaxed);
    unsafe {
        let (mut lo, mut hi) = (0, n);
        while lo < hi { let m = (lo + hi) / 2; if (*RECS.add(m)).ptr <= p { lo = m + 1 } else { hi = m } }
        if lo == 0 { return None; }
        let r = *RECS.add(lo - 1);
        if p < r.ptr + r.size.max(1) { Some(lo - 1) } else { None }
    }
}
pub fn rec(i: usize) -> Rec { unsafe { *RECS.add(i) } }
pub fn nrec() -> usize { NREC.load(Relaxed) }

unsafe fn check_rz(r: &Rec) -> bool {
    if r.guard { return true; }
    for k in 1..=RZ { if *((r.ptr - k) as *const u8) != 0xA5 { return false; } }
    for k in 0..RZ { if *((r.ptr + r.size + k) as *const u8) != 0xA5 { return false; } }
    true
}
unsafe fn fix_rz(r: &Rec) {
    std::ptr::write_bytes((r.ptr - RZ) as *mut u8, 0xA5, RZ);
    std::ptr::write_bytes((r.ptr + r.size) as *mut u8, 0xA5, RZ);
}
/// red zones of all live blocks
pub fn scan_live() {
    for i in 0..nrec() { let r = rec(i); unsafe { if r.live && !check_rz(&r) { add_err(E_OVERRUN); fix_rz(&r); } } }
}
/// end of a program: number of live blocks; poisoned blocks must be untouched
pub fn finish() -> usize {
    let mut live = 0;
    for i in 0..nrec() {
        let r = rec(i);
        unsafe {
            if !check_rz(&r) { add_err(E_OVERRUN); }
            if r.live { live += 1; } else if !r.guard {
                let s = std::slice::from_raw_parts(r.ptr as *const u8, r.size);
                if s.iter().any(|&b| b != 0xDD) { add_err(E_UAF); }
            }
        }
    }
    NREC.store(0, Relaxed);
    if MODE.load(Relaxed) != 0 {
        let (a, b) = (START.load(Relaxed) & !(PAGE - 1), up(TOP.load(Relaxed)));
        if b > a { unsafe { protect(a, b - a, libc::PROT_READ | libc::PROT_WRITE); } }
    }
    if live == 0 { TOP.store(START.load(Relaxed), Relaxed); } else { START.store(TOP.load(Relaxed), Relaxed); }
    live
}

unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !IN_LIB.load(Relaxed) { return System.alloc(l); }
        let n = NREC.load(Relaxed);
        let mode = MODE.load(Relaxed);
        if mode != 0 && n < 4000 && l.size() < (1 << 24) {
            let body = up(l.size().max(1));
            let base = up(TOP.load(Relaxed));
            let end = base + body + 2 * PAGE;
            if end > BASE.load(Relaxed) + ARENA { return std::ptr::null_mut(); }
            TOP.store(end, Relaxed);
            protect(base, PAGE, libc::PROT_NONE);
            protect(base + PAGE + body, PAGE, libc::PROT_NONE);
            let p = if mode == 1 { (base + PAGE + body - l.size()) & !(l.align() - 1) } else { base + PAGE };
            std::ptr::write_bytes((base + PAGE) as *mut u8, 0xA5, body);
            std::ptr::write_bytes(p as *mut u8, 0xCD, l.size());
            *RECS.add(n) = Rec { ptr: p, size: l.size(), align: l.align(), live: true, guard: true };
            NREC.store(n + 1, Relaxed);
            return p as *mut u8;
        }
        let al = l.align().max(16);
        let p = (TOP.load(Relaxed) + RZ + al - 1) & !(al - 1);
        let end = p + l.size() + RZ;
        if n >= MAXREC || l.size() > (1 << 31) || end > BASE.load(Relaxed) + ARENA { return std::ptr::null_mut(); }
        TOP.store(end, Relaxed);
        let r = Rec { ptr: p, size: l.size(), align: l.align(), live: true, guard: false };
        fix_rz(&r);
        std::ptr::write_bytes(p as *mut u8, 0xCD, l.size());
        *RECS.add(n) = r;
        NREC.store(n + 1, Relaxed);
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if !in_arena(a) { return System.dealloc(p, l); }
        match find(a) {
            Some(i) if (*RECS.add(i)).ptr == a => {
                let r = &mut *RECS.add(i);
                if !r.live { add_err(E_DOUBLE); return; }
                if r.size != l.size() || r.align != l.align() { add_err(E_LAYOUT); }
                if !check_rz(r) { add_err(E_OVERRUN); fix_rz(r); }
                if r.guard { let a = r.ptr & !(PAGE - 1); protect(a, up(r.ptr + r.size.max(1)) - a, libc::PROT_NONE); }
                else { std::ptr::write_bytes(r.ptr as *mut u8, 0xDD, r.size); }
                r.live = false;
            }
            // memory of an earlier program that leaked, or not the start of a block
            _ => if a >= START.load(Relaxed) { add_err(E_BADFREE) },
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !in_arena(p as usize) && !IN_LIB.load(Relaxed) { return System.realloc(p, l, new); }
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
