//! What a monitored process says about its own death: a capped allocator, and where a panic or an
//! abort came from.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// Counts live bytes; refuses to go over `LIMIT`, and single requests over `SINGLE`.
pub struct Capped;
pub static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
/// Largest single allocation granted.
pub static SINGLE: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static CALLS: AtomicUsize = AtomicUsize::new(0);
fn take(n: usize) -> bool {
    CALLS.fetch_add(1, Relaxed);
    // First: a refused giant must not count, even briefly, against other threads.
    if n > SINGLE.load(Relaxed) {
        return false;
    }
    let l = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    if l > LIMIT.load(Relaxed) {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    PEAK.fetch_max(l, Relaxed);
    true
}
unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !take(l.size()) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !take(l.size()) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if n > SINGLE.load(Relaxed) || !take(n - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        unsafe { System.realloc(p, l, n) }
    }
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
pub fn live() -> usize {
    LIVE.load(Relaxed)
}

/// (function, source) of each frame, innermost first, without the runtime and the handlers here.
fn stack(bt: &str) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    for l in bt.lines() {
        let l = l.trim();
        if let Some(at) = l.strip_prefix("at ") {
            if let Some(x) = v.last_mut() {
                x.1 = at.to_string();
            }
        } else if let Some((n, f)) = l.split_once(": ")
            && n.parse::<u32>().is_ok()
        {
            v.push((f.to_string(), String::new()));
        }
    }
    v.retain(|(_, s)| {
        !s.is_empty()
            && !s.contains("/rustc/")
            && !s.contains("/library/")
            && !s.contains("hashbrown")
            && !s.contains("pcmon::guard")
            && !["src/guard.rs", "src/cx.rs", "nptl", "sysdeps", "stdlib/", "signal/"].iter().any(|x| s.contains(x))
    });
    v
}
/// Where the innermost frame of a backtrace that is neither the runtime's nor this file's is.
pub fn culprit(bt: &str) -> String {
    stack(bt).into_iter().next().map_or("?".into(), |x| x.1)
}
/// Frames, without the noise, for a report.
pub fn frames(bt: &str) -> String {
    stack(bt)
        .into_iter()
        .take(12)
        .map(|(f, s)| {
            let e = f.find('<').unwrap_or(f.len()).max(1).min(f.len());
            format!("{} ({s})", &f[..e])
        })
        .collect::<Vec<_>>()
        .join(" < ")
}

static mut REPORT: Option<std::ffi::CString> = None;
/// On abort (failed allocation, panic while panicking) writes where it came from to `path`.
pub fn report_aborts(path: &str) {
    extern "C" fn on_abort(_: libc::c_int) {
        // Raised synchronously by abort() on this thread; no allocator lock is held.
        let bt = std::backtrace::Backtrace::force_capture().to_string();
        let oom = bt.contains("handle_alloc_error") || bt.contains("rust_oom");
        let s = format!("{}\n{}\n[{} bytes live, peak {}] {}\n", if oom { "oom" } else { "abort" }, culprit(&bt), live(), peak(), frames(&bt));
        unsafe {
            #[allow(static_mut_refs)]
            if let Some(p) = &REPORT {
                let fd = libc::open(p.as_ptr(), libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, 0o644);
                libc::write(fd, s.as_ptr().cast(), s.len());
                libc::close(fd);
            }
            libc::_exit(77);
        }
    }
    unsafe {
        REPORT = std::ffi::CString::new(path).ok();
        libc::signal(libc::SIGABRT, on_abort as *const () as libc::sighandler_t);
    }
}

/// Is this a failure inside bincode's own length-prefixed byte buffers (a known finding)?
pub fn is_bincode(culprit: &str) -> bool {
    culprit.contains("/bincode-") && !culprit.contains("/repo/")
}
