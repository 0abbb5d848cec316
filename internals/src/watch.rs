//! Which case each thread is executing: a crash or an endless loop inside the code under test is a failure of that case.
use std::cell::{Cell, UnsafeCell};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::*};

#[repr(C)]
struct SigAction { handler: extern "C" fn(i32), mask: [u64; 16], flags: i32, restorer: usize }
#[repr(C)]
struct Timespec { s: i64, ns: i64 }
unsafe extern "C" {
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
    fn _exit(c: i32) -> !;
}
/// Address of the running rule and of its case.
struct Slot { cur: UnsafeCell<Option<(*const (), *const ())>>, tick: AtomicU64, clock: i32 }
unsafe impl Sync for Slot {}
static SLOTS: Mutex<Vec<&'static Slot>> = Mutex::new(vec![]);
static OUT: Mutex<Option<Box<dyn Fn(*const (), *const (), &str) + Send + Sync>>> = Mutex::new(None);
thread_local! { static SLOT: Cell<Option<&'static Slot>> = const { Cell::new(None) }; }
/// One case may use this much processor time.
const LIMIT_NS: i64 = 60_000_000_000;

/// Register the current thread; it must stay alive as long as the check runs.
pub fn thread() {
    let mut c = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut c); }
    let s: &'static Slot = Box::leak(Box::new(Slot { cur: UnsafeCell::new(None), tick: AtomicU64::new(0), clock: c }));
    SLOTS.lock().unwrap().push(s);
    SLOT.with(|c| c.set(Some(s)));
}
#[inline]
pub fn enter<A, B>(r: &A, c: &B) { if let Some(s) = SLOT.with(|c| c.get()) { unsafe { *s.cur.get() = Some((r as *const A as *const (), c as *const B as *const ())); } s.tick.store(s.tick.load(Relaxed) + 1, Release); } }
#[inline]
pub fn leave() { if let Some(s) = SLOT.with(|c| c.get()) { unsafe { *s.cur.get() = None; } s.tick.store(s.tick.load(Relaxed) + 1, Release); } }
fn report(s: &Slot, what: &str) -> ! {
    if let Some((r, c)) = unsafe { *s.cur.get() } { if let Ok(g) = OUT.try_lock() { if let Some(f) = &*g { f(r, c, what); use std::io::Write; let _ = std::io::stdout().flush(); unsafe { _exit(1) } } } }
    eprintln!("the checker itself failed: {what}");
    unsafe { _exit(4) }
}
extern "C" fn on_crash(sig: i32) {
    match SLOT.with(|c| c.get()) { Some(s) => report(s, &format!("died with signal {sig}")), None => { eprintln!("the checker itself crashed (signal {sig})"); unsafe { _exit(4) } } }
}
/// `out` prints the violation for a rule and case given by address.
pub fn install(out: impl Fn(*const (), *const (), &str) + Send + Sync + 'static) {
    *OUT.lock().unwrap() = Some(Box::new(out));
    // Rust has already given its threads alternate stacks
    const SA_ONSTACK: i32 = 0x0800_0000;
    const SA_NODEFER: i32 = 0x4000_0000;
    const SA_RESETHAND: i32 = 0x8000_0000u32 as i32;
    for sig in [11, 7, 4, 8] { let a = SigAction { handler: on_crash, mask: [0; 16], flags: SA_ONSTACK | SA_NODEFER | SA_RESETHAND, restorer: 0 }; unsafe { sigaction(sig, &a, std::ptr::null_mut()); } }
    std::thread::spawn(|| {
        let mut seen: Vec<(u64, i64)> = vec![];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            let l = SLOTS.lock().unwrap();
            seen.resize(l.len(), (u64::MAX, 0));
            for (i, s) in l.iter().enumerate() {
                let t = s.tick.load(Acquire);
                let mut ts = Timespec { s: 0, ns: 0 };
                if unsafe { clock_gettime(s.clock, &mut ts) } != 0 { continue; }
                let c = ts.s * 1_000_000_000 + ts.ns;
                if seen[i].0 != t { seen[i] = (t, c); continue; }
                if c - seen[i].1 > LIMIT_NS && unsafe { (*s.cur.get()).is_some() } { report(s, "did not finish within 60 s of processor time"); }
            }
        }
    });
}
