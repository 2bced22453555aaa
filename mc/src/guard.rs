//! Safety net around the code under test: panics, hangs, runaway memory,
//! aborts and stack overflows all become violations with a replay file.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::*};

pub struct Capped;

/// One allocation may not exceed this; nor may the live bytes of a thread.
pub static SINGLE_CAP: AtomicUsize = AtomicUsize::new(1 << 30);
pub static LIVE_CAP: AtomicUsize = AtomicUsize::new(3 << 30);
static CAP_OFF: AtomicBool = AtomicBool::new(false);

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

#[inline]
fn bump(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}
#[inline]
fn refused(n: usize) -> bool {
    if n < (1 << 20) || CAP_OFF.load(Relaxed) {
        return false;
    }
    let live = LIVE.try_with(|l| l.get()).unwrap_or(0).max(0) as usize;
    n > SINGLE_CAP.load(Relaxed) || live + n > LIVE_CAP.load(Relaxed)
}

unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        bump(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        bump(l.size() as isize);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        bump(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && refused(n - l.size()) {
            return std::ptr::null_mut();
        }
        bump(n as isize - l.size() as isize);
        unsafe { System.realloc(p, l, n) }
    }
}

/// Resets the peak-memory meter of this thread; returns the live baseline.
pub fn mem_mark() -> isize {
    let v = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(v));
    v
}
/// Peak bytes above `mark` since [`mem_mark`].
pub fn mem_peak(mark: isize) -> usize {
    PEAK.with(|p| p.get() - mark).max(0) as usize
}

thread_local! {
    static EXPECTED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Whether `f` panics; for panics that are part of an interface.
pub fn panics(f: impl FnOnce()) -> bool {
    EXPECTED.with(|e| e.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    EXPECTED.with(|e| e.set(false));
    if r {
        take_panic();
    }
    r
}

pub fn take_panic() -> String {
    PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

// ---- current case per worker -------------------------------------------------

const MAXW: usize = 64;
#[derive(Default)]
struct Cur {
    section: String,
    choices: Vec<u32>,
}
static CUR: [Mutex<Cur>; MAXW] =
    [const { Mutex::new(Cur { section: String::new(), choices: Vec::new() }) }; MAXW];
static CPU_AT_START: [AtomicU64; MAXW] = [const { AtomicU64::new(u64::MAX) }; MAXW];
static CASE_NO: [AtomicU64; MAXW] = [const { AtomicU64::new(0) }; MAXW];
static CLOCK: [AtomicI32; MAXW] = [const { AtomicI32::new(0) }; MAXW];
/// CPU-second limit of one case.
pub static HANG_SECS: AtomicU64 = AtomicU64::new(20);

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
unsafe extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
    fn signal(n: i32, h: usize) -> usize;
    fn _exit(c: i32) -> !;
}
const CLOCK_THREAD_CPUTIME_ID: i32 = 3;

fn cpu(clock: i32) -> u64 {
    let mut t = Timespec { s: 0, ns: 0 };
    if unsafe { clock_gettime(clock, &mut t) } != 0 {
        return 0;
    }
    t.s as u64 * 1000 + t.ns as u64 / 1_000_000
}

pub fn register_thread(w: usize) {
    SLOT.with(|s| s.set(w));
    let mut c = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
    CLOCK[w].store(c, SeqCst);
}
pub fn unregister_thread(w: usize) {
    CPU_AT_START[w].store(u64::MAX, SeqCst);
    SLOT.with(|s| s.set(usize::MAX));
}
pub fn begin_case(section: &str, stack: &[(u32, u32)]) {
    let w = SLOT.with(|s| s.get());
    if w == usize::MAX {
        return;
    }
    {
        let mut c = CUR[w].lock().unwrap();
        if c.section != section {
            c.section = section.into();
        }
        c.choices.clear();
        c.choices.extend(stack.iter().map(|x| x.0));
    }
    // The prefix recorded here is completed by zeros on replay, which is
    // exactly what the running case will choose.
    let n = CASE_NO[w].fetch_add(1, Relaxed);
    if n % 16 == 0 || CPU_AT_START[w].load(Relaxed) == u64::MAX {
        CPU_AT_START[w].store(cpu(CLOCK_THREAD_CPUTIME_ID), SeqCst);
    }
}
pub fn end_case() {}

type Reporter = dyn Fn(&str, &[u32], &str) -> bool + Send + Sync;
static REPORT: Mutex<Option<Box<Reporter>>> = Mutex::new(None);

/// Reports the case a worker is in and ends the process.
fn fatal(w: usize, what: &str) -> ! {
    CAP_OFF.store(true, SeqCst);
    let (section, choices) = match CUR[w.min(MAXW - 1)].try_lock() {
        Ok(c) => (c.section.clone(), c.choices.clone()),
        Err(_) => ("?".into(), vec![]),
    };
    let mut code = 3;
    if w < MAXW {
        if let Ok(r) = REPORT.try_lock() {
            if let Some(f) = r.as_ref() {
                f(&section, &choices, what);
                code = 1;
            }
        }
    } else {
        eprintln!("mc: {what} outside a case");
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(code) }
}

extern "C" fn on_signal(n: i32) {
    unsafe {
        signal(6, 0);
        signal(11, 0);
        signal(7, 0);
    }
    let w = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
    let what = match n {
        6 => "process abort (out-of-proportion allocation, or stack overflow)",
        11 => "segmentation fault",
        7 => "bus error",
        _ => "signal",
    };
    fatal(w, what)
}

/// Installs panic hook, signal handlers and the hang watchdog.
pub fn install(report: Box<Reporter>) {
    *REPORT.lock().unwrap() = Some(report);
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if SLOT.with(|s| s.get()) == usize::MAX && !EXPECTED.with(|e| e.get()) {
            eprintln!("mc: internal panic: {m} at {loc}");
        }
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
    unsafe {
        signal(6, on_signal as *const () as usize);
        signal(7, on_signal as *const () as usize);
    }
    std::thread::spawn(|| {
        let mut seen = [0u64; MAXW];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for w in 0..MAXW {
                let st = CPU_AT_START[w].load(SeqCst);
                if st == u64::MAX {
                    continue;
                }
                let no = CASE_NO[w].load(SeqCst);
                let now = cpu(CLOCK[w].load(SeqCst));
                if no != seen[w] {
                    seen[w] = no;
                    // progress: restart the meter
                    CPU_AT_START[w].store(now, SeqCst);
                    continue;
                }
                if now.saturating_sub(st) > HANG_SECS.load(SeqCst) * 1000 {
                    fatal(w, "no termination (case exceeded its CPU limit)");
                }
            }
        }
    });
}
