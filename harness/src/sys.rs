//! Panics and fatal signals of the code under test are data: a signal writes the pending event
//! with out = "crash" (or "hang") and leaves with status 3.
use crate::alloc::IN_LIB;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub static mut OUT_FD: i32 = 1;
pub static mut BUF: String = String::new();      // trace written so far
pub static mut PENDING: String = String::new();  // the command being executed, as "{...,"
pub static PANICKED: AtomicBool = AtomicBool::new(false);

#[allow(static_mut_refs)]
pub fn buf() -> &'static mut String { unsafe { &mut BUF } }
#[allow(static_mut_refs)]
pub fn pending() -> &'static mut String { unsafe { &mut PENDING } }

pub fn write_all(s: &[u8]) {
    let mut o = 0;
    while o < s.len() {
        let n = unsafe { libc::write(OUT_FD, s[o..].as_ptr() as *const _, s.len() - o) };
        if n <= 0 { break; }
        o += n as usize;
    }
}
pub fn flush() { write_all(buf().as_bytes()); buf().clear(); }

extern "C" fn on_signal(sig: i32) {
    IN_LIB.store(false, Relaxed);
    write_all(buf().as_bytes());
    if !pending().is_empty() {
        write_all(pending().as_bytes());
        let w: &[u8] = if sig == libc::SIGALRM {
            b"\"out\":\"hang\",\"rk\":\"none\",\"mem\":[],\"freed\":[],\"err\":[],\"ch\":[]}\n"
        } else {
            b"\"out\":\"crash\",\"rk\":\"none\",\"mem\":[],\"freed\":[],\"err\":[],\"ch\":[]}\n"
        };
        write_all(w);
    }
    unsafe { libc::_exit(3) }
}

pub fn init(fd: i32) {
    unsafe {
        OUT_FD = fd;
        let sz = 1 << 16;
        let st = libc::stack_t { ss_sp: libc::malloc(sz), ss_flags: 0, ss_size: sz };
        libc::sigaltstack(&st, std::ptr::null_mut());
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as usize;
        sa.sa_flags = libc::SA_ONSTACK;
        for s in [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGALRM] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
        // the library warns on stderr
        let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        if std::env::var("KEEP_STDERR").is_err() { libc::dup2(n, 2); }
    }
    std::panic::set_hook(Box::new(|_| {}));
}

/// run library code; None if it panicked
pub fn lib<R>(f: impl FnOnce() -> R) -> Option<R> {
    unsafe { libc::alarm(10); }
    IN_LIB.store(true, Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.store(false, Relaxed);
    unsafe { libc::alarm(0); }
    match r { Ok(v) => Some(v), Err(p) => { drop(p); PANICKED.store(true, Relaxed); None } }
}
