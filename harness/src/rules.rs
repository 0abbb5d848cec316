//! The rules: what must hold for one argument tuple.
use crate::api::*;
use crate::engine::*;
use crate::evolve;
use crate::gen_table::{FNS, HELPERS};
use crate::judge::*;
use crate::sym;
use std::sync::Arc;

/// A result that may be the sentinel of a caught panic.
#[inline]
fn sentinel(f: &FnInfo, r: &Ret) -> bool { if f.sig == Sig::F_I { r[0] == 0x7ead_beef } else { r[0] == f.ty.mask() } }

/// No argument is NaN, infinite or zero, and the result is neither NaN nor saturated.
#[inline]
pub fn plain(f: &FnInfo, a: &Args, r: &Ret) -> bool {
    let ty = f.ty;
    for (i, fl) in f.sig.args().iter().enumerate() { if *fl && (!ty.is_finite(a[i]) || ty.is_zero(a[i])) { return false; } }
    if f.sig == Sig::F_I { return true; }
    ty.is_finite(r[0]) && !ty.is_zero(r[0])
}

pub struct Acc { pub f: &'static FnInfo, pub v: Arc<Variant>, pub op: i32, pub tol: u64 }
impl Acc {
    pub fn new(f: &'static FnInfo, v: Arc<Variant>) -> Acc { Acc { f, v, op: op_id(f.base), tol: tol(f) } }
}
impl Rule for Acc {
    fn id(&self) -> String { format!("acc:{}@{}", self.f.name, self.v.name) }
    fn f(&self) -> &'static FnInfo { self.f }
    #[inline]
    fn quick(&self, a: &Args, st: &mut Seen) -> bool {
        let r = self.v.call(self.f, a);
        st.nontrivial = plain(self.f, a, &r);
        if sentinel(self.f, &r) { return false; }
        fast_ok(self.f, self.op, self.tol, a, &r)
    }
    fn eval(&self, a: &Args) -> Option<String> {
        take_panics();
        let r = self.v.call(self.f, a);
        if take_panics() > 0 { return Some("panicked".into()); }
        acc(self.f, a, &r).map(|m| format!("returned {}; {m}", show_ret(self.f, &r)))
    }
}

/// Accuracy of calls with a special operand or a special result.
pub struct Spec(pub Acc);
impl Spec {
    fn special(&self, a: &Args, r: &Ret) -> bool { !plain(self.0.f, a, r) }
}
impl Rule for Spec {
    fn id(&self) -> String { format!("spec:{}@{}", self.0.f.name, self.0.v.name) }
    fn f(&self) -> &'static FnInfo { self.0.f }
    fn quick(&self, a: &Args, st: &mut Seen) -> bool {
        let r = self.0.v.call(self.0.f, a);
        st.nontrivial = plain(self.0.f, a, &r);
        if sentinel(self.0.f, &r) { return false; }
        !self.special(a, &r) || fast_ok(self.0.f, self.0.op, self.0.tol, a, &r)
    }
    fn eval(&self, a: &Args) -> Option<String> {
        if !self.special(a, &self.0.v.call(self.0.f, a)) { return None; }
        self.0.eval(a)
    }
}

/// Same bits from several builds.
pub struct Conf { pub f: &'static FnInfo, pub vs: Vec<Arc<Variant>> }
pub fn same(f: &FnInfo, a: &Args, x: &Ret, y: &Ret) -> bool {
    if x == y { return true; }
    let ty = f.ty;
    if matches!(f.base, "fmin" | "fmax") && ty.is_zero(a[0]) && ty.is_zero(a[1]) && ty.is_zero(x[0]) && ty.is_zero(y[0]) { return true; }
    if matches!(f.base, "fabs" | "copysign") { return false; }
    for (i, fl) in f.sig.rets().iter().enumerate() {
        if x[i] == y[i] { continue; }
        if *fl && ty.is_nan(x[i]) && ty.is_nan(y[i]) { continue; }
        return false;
    }
    true
}
impl Rule for Conf {
    fn id(&self) -> String { format!("conf:{}@{}", self.f.name, self.vs.iter().map(|v| v.name.clone()).collect::<Vec<_>>().join("+")) }
    fn f(&self) -> &'static FnInfo { self.f }
    #[inline]
    fn quick(&self, a: &Args, st: &mut Seen) -> bool {
        let r = self.vs[0].call(self.f, a);
        st.nontrivial = plain(self.f, a, &r);
        if sentinel(self.f, &r) { return false; }
        self.vs[1..].iter().all(|v| { let q = v.call(self.f, a); q == r || same(self.f, a, &r, &q) })
    }
    fn eval(&self, a: &Args) -> Option<String> {
        take_panics();
        let r: Vec<Ret> = self.vs.iter().map(|v| v.call(self.f, a)).collect();
        if take_panics() > 0 { return Some("panicked in at least one build".into()); }
        for i in 1..r.len() {
            if !same(self.f, a, &r[0], &r[i]) { return Some(format!("{} build returned {}, {} build returned {}", self.vs[0].name, show_ret(self.f, &r[0]), self.vs[i].name, show_ret(self.f, &r[i]))); }
        }
        // and once more, to notice state carried between calls
        for (i, v) in self.vs.iter().enumerate() {
            let q = v.call(self.f, a);
            if !same(self.f, a, &r[i], &q) { return Some(format!("{} build returned {} and then {}", v.name, show_ret(self.f, &r[i]), show_ret(self.f, &q))); }
        }
        None
    }
}

/// The C symbol against the Rust function.
pub struct Sym { pub f: &'static FnInfo, pub v: Arc<Variant>, pub c: Arc<Variant> }
impl Sym {
    fn same(&self, a: &Args, x: &Ret, y: &Ret) -> bool {
        if same(self.f, a, x, y) { return true; }
        // passing a signalling f16 NaN by value quiets it (the compiler widens it to f32)
        let ty = self.f.ty;
        ty == Ty::F16 && ty.is_nan(x[0]) && ty.is_nan(y[0]) && ty.is_neg(x[0]) == ty.is_neg(y[0])
    }
}
impl Rule for Sym {
    fn id(&self) -> String { format!("symbol:{}@{}", self.f.name, self.c.name) }
    fn f(&self) -> &'static FnInfo { self.f }
    #[inline]
    fn quick(&self, a: &Args, st: &mut Seen) -> bool {
        let r = self.v.call(self.f, a);
        st.nontrivial = plain(self.f, a, &r);
        if sentinel(self.f, &r) { return false; }
        let q = self.c.call(self.f, a);
        q == r || self.same(a, &r, &q)
    }
    fn eval(&self, a: &Args) -> Option<String> {
        take_panics();
        let r = self.v.call(self.f, a);
        if take_panics() > 0 { return Some("the Rust function panicked".into()); }
        let q = self.c.call(self.f, a);
        if self.same(a, &r, &q) { None } else { Some(format!("symbol returned {}, function returned {}", show_ret(self.f, &q), show_ret(self.f, &r))) }
    }
}

/// Libm<T>::method against the free function.
pub struct Fwd { pub h: usize, pub f: &'static FnInfo, pub v: Arc<Variant> }
impl Fwd { pub fn new(h: usize, v: Arc<Variant>) -> Fwd { Fwd { h, f: by_name(HELPERS[h].1), v } } }
impl Rule for Fwd {
    fn id(&self) -> String { format!("fwd:{}@{}", HELPERS[self.h].0, self.v.name) }
    fn f(&self) -> &'static FnInfo { self.f }
    #[inline]
    fn quick(&self, a: &Args, st: &mut Seen) -> bool {
        let r = self.v.call(self.f, a);
        st.nontrivial = plain(self.f, a, &r);
        if sentinel(self.f, &r) { return false; }
        let q = self.v.call_helper(self.h, self.f, a);
        q == r || same(self.f, a, &r, &q)
    }
    fn eval(&self, a: &Args) -> Option<String> {
        take_panics();
        let r = self.v.call(self.f, a);
        let q = self.v.call_helper(self.h, self.f, a);
        if take_panics() > 0 { return Some("panicked".into()); }
        if same(self.f, a, &r, &q) { None } else { Some(format!("method returned {}, function returned {}", show_ret(self.f, &q), show_ret(self.f, &r))) }
    }
}

/// Returns normally with run-time checks on, within a bounded number of branch events when observed.
pub struct Total { pub f: &'static FnInfo, pub v: Arc<Variant>, pub observed: bool }
impl Rule for Total {
    fn id(&self) -> String { format!("total:{}@{}", self.f.name, self.v.name) }
    fn f(&self) -> &'static FnInfo { self.f }
    #[inline]
    fn quick(&self, a: &Args, st: &mut Seen) -> bool {
        if self.observed {
            let (n, r) = evolve::observed(&self.v, self.f, a, evolve::step_limit(self.f, a));
            st.nontrivial = plain(self.f, a, &r);
            return n.is_some() && !sentinel(self.f, &r);
        }
        let r = self.v.call(self.f, a);
        st.nontrivial = plain(self.f, a, &r);
        !sentinel(self.f, &r)
    }
    fn eval(&self, a: &Args) -> Option<String> {
        take_panics();
        if self.observed {
            let lim = evolve::step_limit(self.f, a);
            let (n, _) = evolve::observed(&self.v, self.f, a, lim);
            if n.is_none() { return Some(format!("did not return within {lim} branch events")); }
        } else { self.v.call(self.f, a); }
        if take_panics() > 0 { Some("panicked (debug assertions and overflow checks on)".into()) } else { None }
    }
}

/// Relations between calls.
pub struct SymRule { pub s: &'static sym::Sym, pub f: &'static FnInfo, pub v: Arc<Variant> }
impl Rule for SymRule {
    fn id(&self) -> String { format!("sym:{}:{}@{}", self.s.name, self.f.name, self.v.name) }
    fn f(&self) -> &'static FnInfo { self.f }
    #[inline]
    fn quick(&self, a: &Args, st: &mut Seen) -> bool {
        let ty = self.f.ty;
        st.nontrivial = self.f.sig.args().iter().enumerate().all(|(i, fl)| !*fl || (ty.is_finite(a[i]) && !ty.is_zero(a[i])));
        (self.s.check)(&self.v, self.f, a).is_none()
    }
    fn eval(&self, a: &Args) -> Option<String> {
        take_panics();
        let m = (self.s.check)(&self.v, self.f, a);
        if take_panics() > 0 { return Some("panicked".into()); }
        m
    }
}

/// Rebuild a rule from its id.
pub fn parse(w: &World, id: &str) -> Arc<dyn Rule> {
    let die = || -> ! { eprintln!("unknown rule {id}"); std::process::exit(3) };
    let Some((head, vs)) = id.rsplit_once('@') else { die() };
    let Some((kind, name)) = head.split_once(':') else { die() };
    let f = |n: &str| FNS.iter().find(|f| f.name == n).unwrap_or_else(|| die());
    match kind {
        "acc" => Arc::new(Acc::new(f(name), w.var(vs))),
        "spec" => Arc::new(Spec(Acc::new(f(name), w.var(vs)))),
        "conf" => Arc::new(Conf { f: f(name), vs: vs.split('+').map(|v| w.var(v)).collect() }),
        "fwd" => Arc::new(Fwd::new(HELPERS.iter().position(|h| h.0 == name).unwrap_or_else(|| die()), w.var(vs))),
        "hist" => { let h = crate::checks::Hist::new(f(name), w.var(vs)); h.seen.store(true, std::sync::atomic::Ordering::Relaxed); Arc::new(h) }
        "conc" => Arc::new(crate::checks::Conc::new(f(name), w.var(vs))),
        "symbol" => Arc::new(Sym { f: f(name), v: w.var("arch"), c: w.var(vs) }),
        "total" => Arc::new(Total { f: f(name), v: w.var(vs), observed: vs == "cov" }),
        "sym" => { let Some((s, n)) = name.split_once(':') else { die() }; Arc::new(SymRule { s: sym::SYMS.iter().find(|x| x.name == s).unwrap_or_else(|| die()), f: f(n), v: w.var(vs) }) }
        _ => die(),
    }
}
