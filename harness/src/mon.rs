//! Monitors: counting allocator, panic recorder, /proc counters.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static MAX_REQ: AtomicUsize = AtomicUsize::new(0);

fn note(size: usize) {
    LIVE.fetch_add(size as i64, Relaxed);
    ALLOCS.fetch_add(1, Relaxed);
    MAX_REQ.fetch_max(size, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        note(n);
        System.realloc(p, l, n)
    }
}

pub fn live_bytes() -> i64 {
    LIVE.load(Relaxed)
}
pub fn alloc_count() -> u64 {
    ALLOCS.load(Relaxed)
}
pub fn reset_max_request() {
    MAX_REQ.store(0, Relaxed);
}
pub fn max_request() -> usize {
    MAX_REQ.load(Relaxed)
}

pub fn open_fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count())
}
pub fn thread_count() -> usize {
    std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count())
}

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub file: String,
    pub line: u32,
    pub msg: String,
}
static PANICS: Mutex<Vec<PanicRec>> = Mutex::new(Vec::new());
thread_local! {
    static EXPECTED: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if EXPECTED.with(|e| e.get()) {
            return;
        }
        let (file, line) = info.location().map_or(("?".to_string(), 0), |l| (l.file().to_string(), l.line()));
        let p = info.payload();
        let msg = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "(non-string payload)".into());
        let mut msg: String = msg.chars().take(400).collect();
        if std::env::var_os("BSPMON_BT").is_some() {
            msg += &format!("\n{}", std::backtrace::Backtrace::force_capture());
        }
        if let Ok(mut v) = PANICS.lock() {
            if v.len() < 50 {
                v.push(PanicRec { file, line, msg });
            }
        }
    }));
}

pub fn take_panics() -> Vec<PanicRec> {
    PANICS.lock().map(|mut v| std::mem::take(&mut *v)).unwrap_or_default()
}
