#!/usr/bin/env python3
"""Generates variant/src/gen.rs (exports) and harness/src/gen.rs (function table). Run by hand when the API table changes."""
import os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FT = {"h": ("f16", "u16"), "s": ("f32", "u32"), "d": ("f64", "u64"), "q": ("f128", "u128")}
un = "acos acosh asin asinh atan atanh cbrt cos cosh erf erfc exp exp10 exp2 expm1 j0 j1 lgamma log log10 log1p log2 sin sinh tan tanh tgamma y0 y1".split()
un_all = "ceil fabs floor rint round roundeven sqrt trunc".split()
bi = "atan2 hypot nextafter pow remainder".split()
bi_all = "copysign fdim fmax fmaximum fmaximum_num fmin fminimum fminimum_num fmod".split()
T = []  # (name, base, ty, sig)
def nm(b, t, ):
    suf = {"h": "f16", "s": "f", "d": "", "q": "f128"}[t]
    if b == "lgamma_r": return "lgammaf_r" if t == "s" else "lgamma_r"
    return b + suf
for b in un:
    for t in "sd": T.append((nm(b,t), b, t, "F_F"))
for b in un_all:
    for t in "hsdq": T.append((nm(b,t), b, t, "F_F"))
for b in bi:
    for t in "sd": T.append((nm(b,t), b, t, "FF_F"))
for b in bi_all:
    for t in "hsdq": T.append((nm(b,t), b, t, "FF_F"))
for t in "sdq": T.append((nm("fma",t), "fma", t, "FFF_F"))
for t in "sd": T.append((nm("ilogb",t), "ilogb", t, "F_I"))
for b in ["jn","yn"]:
    for t in "sd": T.append((nm(b,t), b, t, "IF_F"))
for b in ["ldexp","scalbn"]:
    for t in "hsdq": T.append((nm(b,t), b, t, "FI_F"))
for b in ["modf","sincos"]:
    for t in "sd": T.append((nm(b,t), b, t, "F_FF"))
for b in ["frexp","lgamma_r"]:
    for t in "sd": T.append((nm(b,t), b, t, "F_FI"))
for t in "sd": T.append((nm("remquo",t), "remquo", t, "FF_FI"))

# Libm<T> forwarders: (T, method) -> free function name
H = []
f32m = {n[:-1] if n not in ("lgammaf_r",) else "lgamma_r": n for n in [x[0] for x in T if x[2]=="s"]
        if not n.startswith(("fmaximum","fminimum"))}
for m, n in sorted(f32m.items()): H.append(("s", m, n))
for x in T:
    if x[2]=="d":
        H.append(("d", "roundevem" if x[0]=="roundeven" else x[0], x[0]))
for n in ["fmaximum_numf","fmaximumf","fminimum_numf","fminimumf"]: H.append(("d", n, n))
h16 = {"ceil":"ceilf16","copysign":"copysignf16","fabs":"fabsf16","fdim":"fdimf16","floor":"floorf16","fmax":"fmaxf16",
 "fmaximum_num":"fmaximum_numf16","fmaximumf16":"fmaximumf16","fmin":"fminf16","fminimum":"fminimumf16","fminimum_num":"fminimum_numf16",
 "fmod":"fmodf16","ldexp":"ldexpf16","rint":"rintf16","round":"roundf16","roundeven":"roundevenf16","scalbn":"scalbnf16","sqrtf":"sqrtf16","truncf":"truncf16"}
for m,n in h16.items(): H.append(("h",m,n))
for x in T:
    if x[2]=="q": H.append(("q", x[1], x[0]))

def wrapper(sym, callee, t, sig):
    F, B = FT[t]
    c = callee
    fb = f"{F}::from_bits"
    if sig=="F_F": return f"ex!(fn {sym}(a: {B}) -> {B} {{ {c}({fb}(a)).to_bits() }} else {{ {B}::MAX }});"
    if sig=="FF_F": return f"ex!(fn {sym}(a: {B}, b: {B}) -> {B} {{ {c}({fb}(a), {fb}(b)).to_bits() }} else {{ {B}::MAX }});"
    if sig=="FFF_F": return f"ex!(fn {sym}(a: {B}, b: {B}, d: {B}) -> {B} {{ {c}({fb}(a), {fb}(b), {fb}(d)).to_bits() }} else {{ {B}::MAX }});"
    if sig=="F_I": return f"ex!(fn {sym}(a: {B}) -> i32 {{ {c}({fb}(a)) }} else {{ 0x7ead_beef }});"
    if sig=="IF_F": return f"ex!(fn {sym}(n: i32, a: {B}) -> {B} {{ {c}(n, {fb}(a)).to_bits() }} else {{ {B}::MAX }});"
    if sig=="FI_F": return f"ex!(fn {sym}(a: {B}, n: i32) -> {B} {{ {c}({fb}(a), n).to_bits() }} else {{ {B}::MAX }});"
    if sig=="F_FF": return f"ex!(fn {sym}(a: {B}, o: &mut {B}) -> {B} {{ let (x, y) = {c}({fb}(a)); *o = y.to_bits(); x.to_bits() }} else {{ {B}::MAX }});"
    if sig=="F_FI": return f"ex!(fn {sym}(a: {B}, o: &mut i32) -> {B} {{ let (x, y) = {c}({fb}(a)); *o = y; x.to_bits() }} else {{ {B}::MAX }});"
    if sig=="FF_FI": return f"ex!(fn {sym}(a: {B}, b: {B}, o: &mut i32) -> {B} {{ let (x, y) = {c}({fb}(a), {fb}(b)); *o = y; x.to_bits() }} else {{ {B}::MAX }});"
by = {x[0]: x for x in T}
with open(R+"/variant/src/gen.rs","w") as f:
    f.write("// Generated by tools/gen_api.py\n")
    for n,b,t,s in T: f.write(wrapper("v_"+n, "libm::"+n, t, s)+"\n")
    for t,m,n in H:
        x = by[n]
        f.write(wrapper(f"h_{FT[t][0]}_{m}", f"libm::Libm::<{FT[t][0]}>::{m}", x[2], x[3])+"\n")
# The same exports with the generic routines in place of the public functions that wrap them.
G = {b: b for b in "ceil copysign fabs fdim floor fmax fmaximum fmaximum_num fmin fminimum fminimum_num fmod round scalbn sqrt trunc".split()}
G["ldexp"] = "scalbn"
with open(R+"/variant/src/gen_generic.rs","w") as f:
    f.write("// Generated by tools/gen_api.py\n")
    for n,b,t,s in T:
        if b in ("rint", "roundeven"): c = "rint_nearest"
        elif b in G: c = "libm::generic::"+G[b]
        else: c = "libm::"+n
        f.write(wrapper("v_"+n, c, t, s)+"\n")
    for t,m,n in H:
        x = by[n]
        f.write(wrapper(f"h_{FT[t][0]}_{m}", f"libm::Libm::<{FT[t][0]}>::{m}", x[2], x[3])+"\n")
# The same exports calling the C symbols of crates/compiler-builtins-smoke-test.
CS = open(R+"/data/c_symbols.txt").read().split()
os.makedirs(R+"/capi/export/src", exist_ok=True)
with open(R+"/capi/export/src/gen.rs","w") as f:
    f.write("// Generated by tools/gen_api.py\nmod c { #[allow(improper_ctypes)] unsafe extern \"C\" {\n")
    P = {"F_F": "a: {F}", "FF_F": "a: {F}, b: {F}", "FFF_F": "a: {F}, b: {F}, d: {F}", "F_I": "a: {F}", "IF_F": "n: i32, a: {F}", "FI_F": "a: {F}, n: i32",
         "F_FF": "a: {F}, o: &mut {F}", "F_FI": "a: {F}, o: &mut i32", "FF_FI": "a: {F}, b: {F}, o: &mut i32"}
    for n in CS:
        _,b,t,s = by[n]; F = FT[t][0]
        p, r = P[s].replace("{F}", F), "i32" if s=="F_I" else F
        if b == "sincos": p, r = f"a: {F}, s: &mut {F}, c: &mut {F}", "()"
        f.write(f"    pub fn {n}({p}) -> {r};\n")
    f.write("} }\n")
    for n,b,t,s in T:
        F, B = FT[t]; fb = f"{F}::from_bits"
        if n not in CS:
            f.write(wrapper("v_"+n, "missing", t, s).replace("missing(", f"missing::<{'i32' if s=='F_I' else F}>(").replace("let (x, y) = missing::<"+F+">", f"let (x, y) = missing::<({F}, {'i32' if s.endswith('FI') else F})>")+"\n")
            continue
        f.write({
          "F_F": f"ex!(fn v_{n}(a: {B}) -> {B} {{ c::{n}({fb}(a)).to_bits() }});",
          "FF_F": f"ex!(fn v_{n}(a: {B}, b: {B}) -> {B} {{ c::{n}({fb}(a), {fb}(b)).to_bits() }});",
          "FFF_F": f"ex!(fn v_{n}(a: {B}, b: {B}, d: {B}) -> {B} {{ c::{n}({fb}(a), {fb}(b), {fb}(d)).to_bits() }});",
          "F_I": f"ex!(fn v_{n}(a: {B}) -> i32 {{ c::{n}({fb}(a)) }});",
          "IF_F": f"ex!(fn v_{n}(n: i32, a: {B}) -> {B} {{ c::{n}(n, {fb}(a)).to_bits() }});",
          "FI_F": f"ex!(fn v_{n}(a: {B}, n: i32) -> {B} {{ c::{n}({fb}(a), n).to_bits() }});",
          "F_FF": f"ex!(fn v_{n}(a: {B}, o: &mut {B}) -> {B} {{ let mut y = {fb}(0); let x = c::{n}({fb}(a), &mut y); *o = y.to_bits(); x.to_bits() }});",
          "F_FI": f"ex!(fn v_{n}(a: {B}, o: &mut i32) -> {B} {{ c::{n}({fb}(a), o).to_bits() }});",
          "FF_FI": f"ex!(fn v_{n}(a: {B}, b: {B}, o: &mut i32) -> {B} {{ c::{n}({fb}(a), {fb}(b), o).to_bits() }});",
        }[s] .replace("let mut y", "let mut y") + "\n" if b != "sincos" else
          f"ex!(fn v_{n}(a: {B}, o: &mut {B}) -> {B} {{ let (mut s, mut k) = ({fb}(1), {fb}(1)); c::{n}({fb}(a), &mut s, &mut k); *o = k.to_bits(); s.to_bits() }});\n")
    for t,m,n in H: f.write(f"h!(h_{FT[t][0]}_{m});\n")
with open(R+"/harness/src/gen.rs","w") as f:
    f.write("// Generated by tools/gen_api.py\nuse crate::api::{FnInfo, Ty, Sig};\n")
    f.write("pub static FNS: &[FnInfo] = &[\n")
    for i,(n,b,t,s) in enumerate(T):
        f.write(f'    FnInfo {{ id: {i}, name: "{n}", base: "{b}", ty: Ty::{FT[t][0].upper()}, sig: Sig::{s} }},\n')
    f.write("];\n/// (symbol of the forwarding method, name of the free function)\npub static HELPERS: &[(&str, &str)] = &[\n")
    for t,m,n in H: f.write(f'    ("h_{FT[t][0]}_{m}", "{n}"),\n')
    f.write("];\n")
with open(R+"/harness/src/gen.rs","a") as f:
    f.write("/// Functions with a C symbol of the same name.\npub static C_API: &[&str] = &[\n")
    for n in CS: f.write(f'    "{n}",\n')
    f.write("];\n")
print(len(T), "functions", len(H), "helpers")
