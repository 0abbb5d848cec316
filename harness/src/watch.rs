//! Which case each thread is executing: a crash or an endless loop inside the code under test is a failure of that case.
use crate::api::*;
use crate::engine::{Rule, fmt_args_raw};
use std::cell::{Cell, UnsafeCell};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

unsafe extern "C" {
    fn vp_install(cb: extern "C" fn(i32));
    fn vp_altstack(mem: *mut u8, size: usize);
    fn vp_cpu_clock() -> i32;
    fn vp_cpu_ns(clock: i32) -> i64;
    fn vp_sweep_pos() -> *const u32;
    fn _exit(c: i32) -> !;
}
pub struct Slot { cur: UnsafeCell<Option<(*const dyn Rule, Args)>>, sweep: Cell<bool>, pos: Cell<*const u32>, tick: AtomicU64, clock: Cell<i32>, used: AtomicBool, stack: UnsafeCell<Vec<u8>> }
unsafe impl Sync for Slot {}
unsafe impl Send for Slot {}
static SLOTS: Mutex<Vec<&'static Slot>> = Mutex::new(vec![]);
static OUT: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));
thread_local! { static SLOT: Cell<Option<&'static Slot>> = const { Cell::new(None) }; }
/// One case may use this much processor time.
const LIMIT_NS: i64 = 60_000_000_000;

/// Registration of the current thread; ends when dropped.
pub struct Thread(&'static Slot);
impl Drop for Thread { fn drop(&mut self) { SLOT.with(|s| s.set(None)); let _l = SLOTS.lock().unwrap(); unsafe { *self.0.cur.get() = None; } self.0.used.store(false, Release); } }
pub fn thread() -> Thread {
    let mut l = SLOTS.lock().unwrap();
    let s = match l.iter().find(|s| !s.used.load(Acquire)) {
        Some(s) => *s,
        None => { let s: &'static Slot = Box::leak(Box::new(Slot { cur: UnsafeCell::new(None), sweep: Cell::new(false), pos: Cell::new(std::ptr::null()), tick: AtomicU64::new(0), clock: Cell::new(0), used: AtomicBool::new(false), stack: UnsafeCell::new(vec![0; 1 << 17]) })); l.push(s); s }
    };
    s.used.store(true, Release);
    s.tick.fetch_add(1, Relaxed);
    unsafe { s.clock.set(vp_cpu_clock()); s.pos.set(vp_sweep_pos()); let st = &mut *s.stack.get(); vp_altstack(st.as_mut_ptr(), st.len()); }
    SLOT.with(|c| c.set(Some(s)));
    Thread(s)
}
#[inline]
pub fn enter(r: &dyn Rule, a: &Args) {
    if let Some(s) = SLOT.with(|c| c.get()) {
        // the rules outlive the run
        let r: *const (dyn Rule + 'static) = unsafe { std::mem::transmute(r) };
        unsafe { *s.cur.get() = Some((r, *a)); }
        s.tick.store(s.tick.load(Relaxed) + 1, Release);
    }
}
#[inline]
pub fn enter_sweep(r: &dyn Rule) { if let Some(s) = SLOT.with(|c| c.get()) { s.sweep.set(true); enter(r, &[0; 3]); } }
#[inline]
pub fn leave() { if let Some(s) = SLOT.with(|c| c.get()) { s.sweep.set(false); unsafe { *s.cur.get() = None; } s.tick.store(s.tick.load(Relaxed) + 1, Release); } }

fn current(s: &Slot) -> Option<(*const dyn Rule, Args)> {
    let (r, a) = unsafe { *s.cur.get() }?;
    Some((r, if s.sweep.get() { [unsafe { s.pos.get().read_volatile() } as u128, 0, 0] } else { a }))
}
fn report(s: &Slot, what: &str) -> ! {
    let Some((r, a)) = current(s) else { eprintln!("the checker itself failed ({what})"); unsafe { _exit(4) } };
    let r = unsafe { &*r };
    let (dir, prop) = OUT.try_lock().map(|g| g.clone()).unwrap_or_default();
    let _ = std::fs::create_dir_all(format!("{dir}/replays"));
    let p = format!("{dir}/replays/{prop}-crash.replay");
    let _ = std::fs::write(&p, format!("property {prop}\nrule {}\nargs {}\n# {} {what}\n# re-run: ./check {prop} --replay {p}\n", r.id(), fmt_args_raw(&a), show_args(r.f(), &a)));
    println!("{} {}: the call {what}", r.id(), show_args(r.f(), &a));
    println!("VIOLATION property={prop} replay={p}");
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(1) }
}
extern "C" fn on_crash(sig: i32) {
    match SLOT.with(|c| c.get()) { Some(s) => report(s, &format!("died with signal {sig}")), None => { eprintln!("the checker itself crashed (signal {sig})"); unsafe { _exit(4) } } }
}
pub fn install(dir: &str, prop: &str) {
    *OUT.lock().unwrap() = (dir.into(), prop.into());
    unsafe { vp_install(on_crash); }
    std::thread::spawn(|| {
        let mut seen: Vec<(u64, i64)> = vec![];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            let l = SLOTS.lock().unwrap();
            seen.resize(l.len(), (u64::MAX, 0));
            for (i, s) in l.iter().enumerate() {
                if !s.used.load(Acquire) { seen[i] = (u64::MAX, 0); continue; }
                let t = s.tick.load(Acquire);
                let c = unsafe { vp_cpu_ns(s.clock.get()) };
                if c < 0 { continue; }
                if seen[i].0 != t { seen[i] = (t, c); continue; }
                if c - seen[i].1 > LIMIT_NS && current(s).is_some() { report(s, "did not return within 60 s of processor time"); }
            }
        }
    });
}
