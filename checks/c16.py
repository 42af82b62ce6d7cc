#!/usr/bin/env python3
"""C16: types which annotations map to C++ types cross the boundary as those types; must_bind and do_not_bind hold."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, sweep, topic
from topic import TI
from gen_core import order

W = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64}
CC = {k: f"std::{'u' if k[0] == 'u' else ''}int{w}_t" for k, w in W.items()} | {"bool": "bool"}


def w64(v): return (v + 2**63) % 2**64 - 2**63
def wrap(t, v):
    if t == "bool": return int(v % 2 != 0)
    n = W[t]
    return v % 2**n if t[0] == "u" else (v + 2**(n - 1)) % 2**n - 2**(n - 1)
def i64(v): return "(-9223372036854775807ll - 1)" if v == -2**63 else f"{v}ll"

HID = r'''
pub(crate) mod mv {
    pub trait MV: Sized { fn mk(x: i64) -> Self; fn val(&self) -> i64; }
    macro_rules! ints { ($($t:ty)*) => { $(impl MV for $t { fn mk(x: i64) -> Self { x as $t } fn val(&self) -> i64 { *self as i64 } })* } }
    ints!(i8 u8 i16 u16 i32 u32 i64 u64);
    impl MV for bool { fn mk(x: i64) -> Self { x % 2 != 0 } fn val(&self) -> i64 { *self as i64 } }
    pub fn mix(a: i64, b: i64) -> i64 { a.wrapping_mul(31).wrapping_add(b) }
    impl<T: MV> MV for Option<T> { fn mk(x: i64) -> Self { if x.rem_euclid(3) == 0 { None } else { Some(T::mk(x.wrapping_add(1))) } } fn val(&self) -> i64 { match self { None => -7, Some(v) => v.val() } } }
    impl<T: MV, E: MV> MV for Result<T, E> { fn mk(x: i64) -> Self { if x.rem_euclid(2) == 0 { Ok(T::mk(x)) } else { Err(E::mk(x)) } } fn val(&self) -> i64 { match self { Ok(v) => mix(v.val(), 1), Err(v) => mix(v.val(), 2) } } }
    impl<T: MV> MV for Vec<T> { fn mk(x: i64) -> Self { (0..x.rem_euclid(4)).map(|i| T::mk(x ^ i)).collect() } fn val(&self) -> i64 { self.iter().fold(5, |h, v| mix(h, v.val())) } }
    impl<T: MV, const N: usize> MV for [T; N] { fn mk(x: i64) -> Self { std::array::from_fn(|i| T::mk(x ^ i as i64)) } fn val(&self) -> i64 { self.iter().fold(5, |h, v| mix(h, v.val())) } }
    impl<A: MV, B: MV> MV for (A, B) { fn mk(x: i64) -> Self { (A::mk(x), B::mk(!x)) } fn val(&self) -> i64 { mix(self.0.val(), self.1.val()) } }
    impl<A: MV, B: MV, C: MV> MV for (A, B, C) { fn mk(x: i64) -> Self { (A::mk(x), B::mk(!x), C::mk(x ^ 5)) } fn val(&self) -> i64 { mix(mix(self.0.val(), self.1.val()), self.2.val()) } }
}
pub(crate) use mv::MV;
pub(crate) mod own {
    use std::ffi::c_void;
    unsafe extern "C" { pub safe fn user_new(v: i64) -> *mut c_void; pub fn user_free(p: *mut c_void); pub fn user_get(p: *const c_void) -> i64; }
}
'''
BASE_H = r'''#pragma once
#include <array>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <new>
#include <optional>
#include <set>
#include <tuple>
#include <utility>
namespace user {
struct Obj { int64_t v; };
inline std::set<void*> live;
extern "C" __attribute__((used)) inline void* user_new(int64_t v) { auto* p = new Obj{v}; live.insert(p); return p; }
extern "C" __attribute__((used)) inline void user_free(void* p) { if (!p) return; if (!live.erase(p)) { printf("MISMATCH freed twice\n"); return; } delete static_cast<Obj*>(p); }
extern "C" __attribute__((used)) inline int64_t user_get(const void* p) { if (!live.count(const_cast<void*>(p))) { printf("MISMATCH use of a freed value\n"); return 0; } return static_cast<const Obj*>(p)->v; }
template <class T> struct MV;
inline int64_t mix(int64_t a, int64_t b) { return static_cast<int64_t>(static_cast<uint64_t>(a) * 31u + static_cast<uint64_t>(b)); }
template <class T> requires std::is_integral_v<T> struct MV<T> { static T mk(int64_t x) { if constexpr (std::is_same_v<T, bool>) return x % 2 != 0; else return static_cast<T>(x); } static int64_t val(T v) { return static_cast<int64_t>(v); } };
template <class T> T mk(int64_t x) { return MV<T>::mk(x); }
template <class T> int64_t val(const T& v) { return MV<T>::val(v); }
template <class T> struct MV<std::optional<T>> { static std::optional<T> mk(int64_t x) { if ((x % 3 + 3) % 3 == 0) return std::nullopt; return std::optional<T>(MV<T>::mk(static_cast<int64_t>(static_cast<uint64_t>(x) + 1))); } static int64_t val(const std::optional<T>& v) { return v ? MV<T>::val(*v) : -7; } };
template <class T, std::size_t N> struct MV<std::array<T, N>> { template <std::size_t... I> static std::array<T, N> go(int64_t x, std::index_sequence<I...>) { return {MV<T>::mk(x ^ static_cast<int64_t>(I))...}; } static std::array<T, N> mk(int64_t x) { return go(x, std::make_index_sequence<N>()); } static int64_t val(const std::array<T, N>& v) { int64_t h = 5; for (auto& e : v) h = mix(h, MV<T>::val(e)); return h; } };
template <class A, class B> struct MV<std::tuple<A, B>> { static std::tuple<A, B> mk(int64_t x) { return {MV<A>::mk(x), MV<B>::mk(~x)}; } static int64_t val(const std::tuple<A, B>& v) { return mix(MV<A>::val(std::get<0>(v)), MV<B>::val(std::get<1>(v))); } };
template <class A, class B, class C> struct MV<std::tuple<A, B, C>> { static std::tuple<A, B, C> mk(int64_t x) { return {MV<A>::mk(x), MV<B>::mk(~x), MV<C>::mk(x ^ 5)}; } static int64_t val(const std::tuple<A, B, C>& v) { return mix(mix(MV<A>::val(std::get<0>(v)), MV<B>::val(std::get<1>(v))), MV<C>::val(std::get<2>(v))); } };
}  // namespace user
'''
RS_STD_H = r'''
namespace user {
template <class T, class E> struct MV<rs_std::Result<T, E>> { static int64_t val(const rs_std::Result<T, E>& v) { return v.has_value() ? mix(MV<T>::val(v.value()), 1) : mix(MV<E>::val(v.error()), 2); } };
template <class T> struct MV<rs_std::Option<T>> { static int64_t val(const rs_std::Option<T>& v) { return v.has_value() ? MV<T>::val(*v) : -7; } };
template <class T> struct MV<rs_std::Vec<T>> { static int64_t val(const rs_std::Vec<T>& v) { int64_t h = 5; for (auto& e : v) h = mix(h, MV<T>::val(e)); return h; } };
inline auto* keep1 = &user_new; inline auto* keep2 = &user_free; inline auto* keep3 = &user_get;
}
'''
def mixp(a, b): return w64(a * 31 + b)


class T:
    """A type: `rs`, `cc` (as the C++ program spells it), `val(x)` = value of mk(x), abilities."""
    def __init__(self, rs, cc, val, kind, copy=True, deps=(), user=""):
        self.rs, self.cc, self.val, self.kind, self.copy, self.deps, self.user, self.mkcc = rs, cc, val, kind, copy, set(deps), user, True


def prim(t): return T(t, CC[t], lambda x: wrap(t, x), "prim")
def opt(t): return T(f"Option<{t.rs}>", f"std::optional<{t.cc}>", lambda x: -7 if x % 3 == 0 else t.val(w64(x + 1)), "Option", t.copy, t.deps)
def fold(t, x, n):
    h = 5
    for i in range(n): h = mixp(h, t.val(w64(x ^ i)))
    return h
def arr(t, n): return T(f"[{t.rs}; {n}]", f"std::array<{t.cc}, {n}>", lambda x: fold(t, x, n), "array", t.copy, t.deps)
def vec(t):
    v = T(f"Vec<{t.rs}>", f"rs_std::Vec<{t.cc}>", lambda x: fold(t, x, x % 4), "Vec", False, t.deps); v.mkcc = False; return v
def res(t, e):
    v = T(f"Result<{t.rs}, {e.rs}>", f"rs_std::Result<{t.cc}, {e.cc}>", lambda x: mixp(t.val(x), 1) if x % 2 == 0 else mixp(e.val(x), 2), "Result", t.copy and e.copy, t.deps | e.deps); v.mkcc = False; return v
def tup(*ts):
    def val(x):
        h = mixp(ts[0].val(x), ts[1].val(~x))
        return mixp(h, ts[2].val(w64(x ^ 5))) if len(ts) > 2 else h
    return T(f"({', '.join(t.rs for t in ts)})", f"std::tuple<{', '.join(t.cc for t in ts)}>", val, "tuple", all(t.copy for t in ts), set().union(*(t.deps for t in ts)))


class G:
    def __init__(self, r):
        self.r, self.n, self.items, self.types = r, 0, [], []
        self.mods = [()]
        for k in range(r.choice([0, 1, 2])): self.mods.append(r.choice(self.mods) + (f"m{k}",))
        self.generics = []

    def id(self, p): self.n += 1; return f"{p}{self.n}"
    def xs(self, k=3): r = self.r; return [r.choice([0, 1, 2, -1, 2**63 - 1, -2**63, r.randint(-300, 300), r.randint(-2**63, 2**63 - 1)]) for _ in range(k)]
    def attr(self, k, v=""): return f'#[doc = "CRUBIT_ANNOTATE: {k}={v}"]\n'

    def item(self, id, rust, mod, deps, cc="", user="", kinds=(), hdr=None, late=False, **kw):
        i = TI(id, rust, mod, deps=sorted(deps), cc=cc, kinds=kinds, **kw)
        i.user, i.hdr, i.late = user, hdr, late
        self.items.append(i)
        return i

    def header(self, own=False): return self.r.choice(([] if own else ["user.h", "user.h"]) + [f"u{self.n}.h", f"inc/d{self.n % 3}/u{self.n}.h"])
    def ns(self): return self.r.choice(["user", "user", "user::inner", "other::deep"])

    # --- kinds of mapped types -------------------------------------------------------------------
    def layout(self):
        r = self.r; n = self.id("L"); c = r.choice([f"C{n}", f"c_{n}"]); mod = r.choice(self.mods); ns = self.ns(); hdr = self.header()
        copy = r.random() < .7
        left, pos, fs = 64, 0, []
        while left:
            t = r.choice([k for k in W if W[k] <= left]); fs.append((t, pos)); pos += W[t]; left -= W[t]
        extra = [(t, None) for t in r.choices(["u8", "bool", "i32", "u64", "i16"], k=r.choice([0, 0, 1, 2]))]
        fs += extra; r.shuffle(fs)
        names = [f"f{k}" for k in range(len(fs))]
        k = self.n
        rs = f"#[repr(C)]\n{'#[derive(Clone, Copy)]' if copy else ''}\npub struct {n} {{ {', '.join(r.choice(['pub ', '']) + f'{a}: {t}' for a, (t, p) in zip(names, fs))} }}\n"
        mk = ", ".join(f"{a}: (x >> {p}) as {t}" if p is not None else f"{a}: <{t} as crate::MV>::mk({k})" for a, (t, p) in zip(names, fs))
        def bits(self_, cast): return " | ".join(cast(self_ + a, t, p) for a, (t, p) in zip(names, fs) if p is not None)
        okr = " && ".join([f"crate::MV::val(&self.{a}) == {wrap(t, k)}" for a, (t, p) in zip(names, fs) if p is None] or ["true"])
        rs += f"impl crate::MV for {n} {{ fn mk(x: i64) -> Self {{ {n} {{ {mk} }} }} fn val(&self) -> i64 {{ if !({okr}) {{ return -99 }} {bits('self.', lambda e, t, p: f'((({e} as i64) & {2**W[t] - 1 if W[t] < 64 else -1}) << {p})')} }} }}"
        okc = " && ".join([f"user::val(v.{a}) == {wrap(t, k)}" for a, (t, p) in zip(names, fs) if p is None] or ["true"])
        mkc = ", ".join(f"static_cast<{CC[t]}>(x >> {p})" if p is not None else f"user::mk<{CC[t]}>({k})" for a, (t, p) in zip(names, fs))
        vc = bits("v.", lambda e, t, p: f"((static_cast<uint64_t>(v.{e[2:]}) & {2**W[t] - 1}ull) << {p})")
        q = f"{ns}::{c}"
        user = f"namespace {ns} {{ struct {c} {{ {' '.join(f'{CC[t]} {a};' for a, (t, p) in zip(names, fs))} }}; }}\ntemplate <> struct user::MV<{q}> {{ static {q} mk(int64_t x) {{ return {{{mkc}}}; }} static int64_t val(const {q}& v) {{ if (!({okc})) return -99; return static_cast<int64_t>({vc}); }} }};"
        self.typeitem(n, mod, q, rs, user, hdr, "layout", copy, lambda x: x)

    def typeitem(self, n, mod, q, rs, user, hdr, kind, copy, val, deps=(), conv="", spell=None):
        at = [self.attr("cpp_type", spell or self.r.choice([q, q if q.startswith("const ") else "::" + q, q.replace("::", " :: ")] if kind not in ("comp",) else [q]))]
        if kind != "comp":
            at.append(self.attr("include_path", hdr))
            if self.r.random() < .2: at.append(self.attr("include_path", "user.h"))
        at += conv
        self.r.shuffle(at)
        self.item(n, "".join(at) + rs, mod, deps, user=user, hdr=hdr if kind != "comp" else None, kinds={f"type {kind}", "Copy" if copy else "not Copy"})
        t = T("::".join(["crate", *mod, n]), q, val, kind, copy, {n} | set(deps), user)
        self.types.append(t)
        return t

    def owning(self):
        r = self.r; n = self.id("O"); mod = r.choice(self.mods); ns = self.ns(); hdr = self.header(); c = f"Own{n}"; q = f"{ns}::{c}"
        front = r.random() < .5
        fr, fc = ("tag: u16, p: *mut std::ffi::c_void", "uint16_t tag = 9; void* p;") if front else ("p: *mut std::ffi::c_void, tag: u16", "void* p; uint16_t tag = 9;")
        rs = f"#[repr(C)]\npub struct {n} {{ {fr} }}\nimpl Drop for {n} {{ fn drop(&mut self) {{ unsafe {{ crate::own::user_free(self.p) }} }} }}\n"
        rs += f"impl crate::MV for {n} {{ fn mk(x: i64) -> Self {{ {n} {{ tag: 9, p: crate::own::user_new(x) }} }} fn val(&self) -> i64 {{ if self.tag != 9 {{ return -98 }} unsafe {{ crate::own::user_get(self.p) }} }} }}"
        user = f"namespace {ns} {{ struct {c} {{ {fc} {c}() : p(nullptr) {{}} {c}({c}&& o) : p(std::exchange(o.p, nullptr)) {{}} {c}& operator=({c}&& o) {{ if (this != &o) {{ ::user::user_free(p); p = std::exchange(o.p, nullptr); }} return *this; }} ~{c}() {{ ::user::user_free(p); }} }}; }}\n"
        user += f"template <> struct user::MV<{q}> {{ static {q} mk(int64_t x) {{ {q} o; o.p = user_new(x); return o; }} static int64_t val(const {q}& v) {{ return v.tag == 9 ? user_get(v.p) : -98; }} }};"
        self.typeitem(n, mod, q, rs, user, hdr, "owning", False, lambda x: x)

    def pointer(self):
        """A repr(transparent) struct around a pointer, mapped to a C++ pointer."""
        r = self.r; n = self.id("P"); mod = r.choice(self.mods); hdr = self.header(own=True)
        ts = [t for t in self.types if t.kind == "layout"]
        if not ts: return self.layout()
        t = r.choice(ts); const = r.random() < .5
        q = f"const {t.cc}*" if const else f"{t.cc}*"
        spell = r.choice([q, f"{t.cc} const*", q.replace("*", " *")]) if const else r.choice([q, q.replace("*", " *")])
        ph = r.random() < .3
        rs = f"#[repr(transparent)]\n#[derive(Clone, Copy)]\npub struct {n} {{ p: *{'const' if const else 'mut'} {r.choice([t.rs, 'std::ffi::c_void'])}{', _ph: std::marker::PhantomData<u8>' if ph else ''} }}\n"
        rs += f"impl crate::MV for {n} {{ fn mk(x: i64) -> Self {{ {n} {{ p: Box::into_raw(Box::new(<{t.rs} as crate::MV>::mk(x))).cast(){', _ph: std::marker::PhantomData' if ph else ''} }} }} fn val(&self) -> i64 {{ crate::MV::val(unsafe {{ &*(self.p as *const {t.rs}) }}) }} }}"
        user = f"template <> struct user::MV<{q}> {{ static {q} mk(int64_t x) {{ return new {t.cc}(user::mk<{t.cc}>(x)); }} static int64_t val({q} v) {{ return user::val(*v); }} }};"
        # Two Rust types may be mapped to one C++ pointer type.
        if any(o.cc == q for o in self.types): user = ""
        dep = {t.rs.split("::")[-1]} | {d for o in self.types if o.cc == q for d in o.deps}
        self.typeitem(n, mod, q, rs, f'#include "{self.hdr_of(t)}"\n' + user, hdr, "pointer", True, lambda x: x, deps=dep, spell=spell)

    def hdr_of(self, t): return next(i.hdr for i in self.items if i.id == t.rs.split("::")[-1]) or "user.h"

    def convertible(self):
        r = self.r; n = self.id("V"); mod = r.choice(self.mods); ns = self.ns(); hdr = self.header(); c = f"Cv{n}"; q = f"{ns}::{c}"; s = n.lower()
        kind = r.choice(["copy", "copy", "drop", "pointer", "sidec"])
        pre = r.choice([0, 1, 7])
        padc = "".join(f" char pad{k} = {k};" for k in range(pre))
        # The C++ class counts its values through a live object.
        cls = f"struct {c} {{{padc} void* p; explicit {c}(int64_t v) : p(::user::user_new(v)) {{}} {c}(const {c}& o) : p(::user::user_new(::user::user_get(o.p))) {{}} {c}& operator=(const {c}&) = delete; ~{c}() {{ ::user::user_free(p); }} }};"
        ext = f'extern "C" __attribute__((used)) inline void {s}_put(int64_t v, void* o) {{ new (o) {q}(v); }} extern "C" __attribute__((used)) inline int64_t {s}_get(const void* o) {{ return user_get(static_cast<const {q}*>(o)->p); }} extern "C" __attribute__((used)) inline void {s}_end(void* o) {{ static_cast<{q}*>(o)->~{c}(); }} inline auto* {s}_k1 = &{s}_put; inline auto* {s}_k2 = &{s}_get; inline auto* {s}_k3 = &{s}_end;'
        mv = f"template <> struct user::MV<{q}> {{ static {q} mk(int64_t x) {{ return {q}(x); }} static int64_t val(const {q}& v) {{ return user_get(v.p); }} }};"
        imp = f"unsafe extern \"C\" {{ fn {s}_put(v: i64, o: *mut std::ffi::c_void); fn {s}_get(o: *const std::ffi::c_void) -> i64; fn {s}_end(o: *mut std::ffi::c_void); }}\n"
        conv = [self.attr("rust_to_cpp_converter", f"{s}_r2c"), self.attr("cpp_to_rust_converter", f"{s}_c2r")]
        V = "*const std::ffi::c_void, b: *mut std::ffi::c_void"
        fn = lambda k, body: f"#[unsafe(no_mangle)] unsafe extern \"C\" fn {s}_{k}(a: {V}) {{ unsafe {{ {body} }} }}\n"
        if kind == "copy":
            lo = r.choice(["i64", "[u8; 8]"])
            st, g = ("x", "x") if lo == "i64" else ("x.to_le_bytes()", "i64::from_le_bytes(X)")
            get = lambda e: e if lo == "i64" else f"i64::from_le_bytes({e})"
            rs = f"#[derive(Clone, Copy)]\npub struct {n} {{ v: {lo} }}\nimpl crate::MV for {n} {{ fn mk(x: i64) -> Self {{ {n} {{ v: {st} }} }} fn val(&self) -> i64 {{ {get('self.v')} }} }}\n"
            rs += imp + fn("r2c", f"{s}_put(crate::MV::val(&*(a as *const {n})), b)") + fn("c2r", f"(b as *mut {n}).write(crate::MV::mk({s}_get(a)))")
        elif kind == "drop":
            # The Rust type owns something: C++ gives its value away, so the converter ends it.
            rs = f"pub struct {n} {{ p: *mut std::ffi::c_void }}\nimpl Drop for {n} {{ fn drop(&mut self) {{ unsafe {{ crate::own::user_free(self.p) }} }} }}\nimpl crate::MV for {n} {{ fn mk(x: i64) -> Self {{ {n} {{ p: crate::own::user_new(x) }} }} fn val(&self) -> i64 {{ unsafe {{ crate::own::user_get(self.p) }} }} }}\n"
            rs += imp + fn("r2c", f"{s}_put(crate::MV::val(&*(a as *const {n})), b)") + fn("c2r", f"let v = {s}_get(a); {s}_end(a as *mut std::ffi::c_void); (b as *mut {n}).write(crate::MV::mk(v))")
        elif kind == "sidec":
            # Both converters are C++ functions which know the layout of the (repr(C)) Rust type.
            rs = f"#[repr(C)] #[derive(Clone, Copy)]\npub struct {n} {{ hi: u32, lo: u32 }}\nimpl crate::MV for {n} {{ fn mk(x: i64) -> Self {{ {n} {{ hi: (x >> 32) as u32, lo: x as u32 }} }} fn val(&self) -> i64 {{ ((self.hi as i64) << 32) | self.lo as i64 }} }}\n"
            ext += f' extern "C" __attribute__((used)) inline void {s}_r2c(const void* a, void* b) {{ auto* u = static_cast<const uint32_t*>(a); new (b) {q}(static_cast<int64_t>((static_cast<uint64_t>(u[0]) << 32) | u[1])); }} extern "C" __attribute__((used)) inline void {s}_c2r(const void* a, void* b) {{ auto v = static_cast<uint64_t>({s}_get(a)); auto* u = static_cast<uint32_t*>(b); u[0] = static_cast<uint32_t>(v >> 32); u[1] = static_cast<uint32_t>(v); }} inline auto* {s}_k4 = &{s}_r2c; inline auto* {s}_k5 = &{s}_c2r;'
        else:
            # Mapped to a pointer to a C++ object.
            cls = f"struct {c} {{{padc} int64_t v; }};"; ext = f'extern "C" __attribute__((used)) inline void* {s}_box(int64_t v) {{ auto* c = new {q}; c->v = v; return c; }} extern "C" __attribute__((used)) inline int64_t {s}_get(const void* o) {{ return static_cast<const {q}*>(o)->v; }} inline auto* {s}_k1 = &{s}_box; inline auto* {s}_k2 = &{s}_get;'
            rs = f"#[derive(Clone, Copy)]\npub struct {n} {{ t: u8, v: i64 }}\nimpl crate::MV for {n} {{ fn mk(x: i64) -> Self {{ {n} {{ t: 4, v: x }} }} fn val(&self) -> i64 {{ if self.t == 4 {{ self.v }} else {{ -97 }} }} }}\n"
            rs += f"unsafe extern \"C\" {{ fn {s}_box(v: i64) -> *mut std::ffi::c_void; fn {s}_get(o: *const std::ffi::c_void) -> i64; }}\n"
            rs += fn("r2c", f"(b as *mut *mut std::ffi::c_void).write({s}_box((*(a as *const {n})).v))") + fn("c2r", f"(b as *mut {n}).write(crate::MV::mk({s}_get(a)))")
            q0 = q; q = r.choice([f"{q}*", f"const {q}*"])
            mv = f"template <> struct user::MV<{q}> {{ static {q} mk(int64_t x) {{ return static_cast<{q}>({s}_box(x)); }} static int64_t val({q} v) {{ return v->v; }} }};"
        user = f"namespace {ns} {{ {cls} }}\nnamespace user {{ {ext} }}\n{mv}"
        self.typeitem(n, mod, q, rs, user, hdr, "convertible", kind != "drop", lambda x: x, conv=conv)

    def generic(self):
        """A generic layout-equivalent type; instantiations are types of their own."""
        r = self.r; n = self.id("G"); mod = r.choice(self.mods); ns = self.ns(); hdr = self.header(); c = f"Tm{n}"
        k = r.choice([1, 2, 2, 3]); P = [f"{p}{self.n}" if r.random() < .3 else p for p in ["A", "B", "T"][:k]]
        order_ = list(range(k)); r.shuffle(order_)
        q = f"{ns}::{c}"
        dup = r.random() < .15
        spell = f"{q}<{', '.join('{' + P[o] + '}' for o in order_)}{', {' + P[0] + '}' if dup else ''}{', 3' if (three := r.random() < .2) else ''}>"
        fields = [(f"x{i}", P[i]) for i in range(k)]; r.shuffle(fields)
        rs = f"#[repr(C)]\npub struct {n}<{', '.join(P)}> {{ {', '.join(f'pub {f}: {p}' for f, p in fields)} }}\nimpl<{', '.join(p + ': Copy' for p in P)}> Clone for {n}<{', '.join(P)}> {{ fn clone(&self) -> Self {{ *self }} }}\nimpl<{', '.join(p + ': Copy' for p in P)}> Copy for {n}<{', '.join(P)}> {{}}\n"
        rs += f"impl<{', '.join(p + ': crate::MV' for p in P)}> crate::MV for {n}<{', '.join(P)}> {{ fn mk(x: i64) -> Self {{ {n} {{ {', '.join(f'{f}: crate::MV::mk(x ^ {3 * int(f[1:])})' for f, p in fields)} }} }} fn val(&self) -> i64 {{ let h = 1; {' '.join(f'let h = crate::mv::mix(h, self.x{i}.val());' for i in range(k))} h }} }}"
        params = [P[o] for o in order_] + (["D"] if dup else [])
        tl = ", ".join("class " + p for p in params) + (", int N" if three else ""); al = ", ".join(params) + (", N" if three else "")
        user = f"namespace {ns} {{ template <{tl}> struct {c} {{ {' '.join(f'{p} {f};' for f, p in fields)} }}; }}\ntemplate <{tl}> struct user::MV<{q}<{al}>> {{ using S = {q}<{al}>; static S mk(int64_t x) {{ return {{{', '.join(f'user::mk<{p}>(x ^ {3 * int(f[1:])})' for f, p in fields)}}}; }} static int64_t val(const S& v) {{ int64_t h = 1; {' '.join(f'h = mix(h, user::val(v.x{i}));' for i in range(k))} return h; }} }};"
        at = [self.attr("cpp_type", spell), self.attr("include_path", hdr)]; r.shuffle(at)
        self.item(n, "".join(at) + rs, mod, (), user=user, hdr=hdr, kinds={"generic type"})
        if r.random() < .4:
            # Other names of the type: with the same parameters, and with others.
            A = self.id("Ga"); perm = P[:]; r.shuffle(perm)
            self.item(A, f"pub type {A}<{', '.join(perm)}> = {'::'.join(['crate', *mod, n])}<{', '.join(P)}>;", r.choice(self.mods), {n}, kinds={"alias of a generic type"})
        if r.random() < .3:
            # Impls for generic types have no bindings, and do no harm.
            I = self.id("Ti"); g = "::".join(["crate", *mod, n])
            imp = f"impl<{', '.join(P)}> {I} for {g}<{', '.join(P)}>" if r.random() < .5 else f"impl {I} for {g}<{', '.join(r.sample(['u8', 'bool', 'i64', 'u16'], k))}>"
            self.item(I, f"pub trait {I} {{ fn f(&self, a: i32) -> i32; }}\n{imp} {{ fn f(&self, a: i32) -> i32 {{ a }} }}", r.choice(self.mods), {n}, kinds={"impl for a generic type"})
        self.generics.append(dict(n=n, mod=mod, k=k, order=order_, dup=dup, three=three, q=q, used=set()))

    def instance(self):
        r = self.r
        if not self.generics: return self.generic()
        g = r.choice(self.generics)
        pool = [t for t in self.types if t.kind in ("layout", "pointer", "generic")] + [prim(t) for t in r.sample(list(CC), 4)]
        # The members of instantiations with drop glue would need owners in C++: covered by `owning`.
        args = [r.choice(pool) for _ in range(g["k"])]
        n = g["n"]
        cc = f"{g['q']}<{', '.join(args[o].cc for o in g['order'])}{', ' + args[0].cc if g['dup'] else ''}{', 3' if g['three'] else ''}>"
        def val(x):
            h = 1
            for i, a in enumerate(args): h = mixp(h, a.val(w64(x ^ (3 * i))))
            return h
        rs = f"{'::'.join(['crate', *g['mod'], n])}<{', '.join(a.rs for a in args)}>"
        if rs in g["used"]: return
        g["used"].add(rs)
        deps = {n}.union(*(a.deps for a in args))
        if r.random() < .25:
            # An alias which gives this instantiation a C++ type of its own.
            al = self.id("Sp"); c = f"user::Special{al}"; hdr = self.header(own=True); mod = r.choice(self.mods)
            at = [self.attr("cpp_type", c), self.attr("include_path", hdr), self.attr("specializes_cpp_type")]
            incs = "".join(f'#include "{i.hdr}"\n' for i in self.items if i.id in deps and i.hdr)
            user = incs + f"namespace user {{ struct Special{al} : {cc} {{ }}; }}\ntemplate <> struct user::MV<{c}> {{ static {c} mk(int64_t x) {{ return {c}{{user::mk<{cc}>(x)}}; }} static int64_t val(const {c}& v) {{ return user::val<{cc}>(v); }} }};"
            self.item(al, "".join(at) + f"pub type {al} = {rs};", mod, deps, user=user, hdr=hdr, kinds={"specializing alias"})
            deps |= {al}; cc = c
            if r.random() < .5: rs = "::".join(["crate", *mod, al])
            # Which C++ type an instantiation is depends on the alias, so that no other item may use it without.
        self.types.append(T(rs, cc, val, "generic", all(a.copy for a in args), deps))

    def composable(self):
        r = self.r; n = self.id("B"); ns = self.ns(); c = f"Cm{n}"; q = f"{ns}::{c}"; abi = f"Abi{n}"
        mod = ()  # the ABI has to be at the root of the crate
        drop = r.random() < .5
        big = r.random() < .5
        parts = ["u8", "i64"] if big else ["i64", "u8"]
        fld = "Box<i64>" if drop else "i64"
        rs = f"pub struct {n} {{ v: {fld}, t: u8 }}\nimpl crate::MV for {n} {{ fn mk(x: i64) -> Self {{ {n} {{ v: {'Box::new(x)' if drop else 'x'}, t: 6 }} }} fn val(&self) -> i64 {{ if self.t == 6 {{ {'*' if drop else ''}self.v }} else {{ -96 }} }} }}\n{'#[derive(Clone, Copy)]' if False else ''}"
        enc = {"u8": "bridge_rust::transmute_abi::<u8>().encode(v.t, e);", "i64": f"bridge_rust::transmute_abi::<i64>().encode({'*' if drop else ''}v.v, e);"}
        dec = {"u8": "let t = bridge_rust::transmute_abi::<u8>().decode(d);", "i64": "let v = bridge_rust::transmute_abi::<i64>().decode(d);"}
        rs += f"#[derive(Clone, Default)] pub struct {abi};\nunsafe impl bridge_rust::CrubitAbi for {abi} {{ type Value = {n}; const SIZE: usize = 9; fn encode(self, v: {n}, e: &mut bridge_rust::Encoder) {{ {' '.join(enc[p] for p in parts)} }} unsafe fn decode(self, d: &mut bridge_rust::Decoder) -> {n} {{ unsafe {{ {' '.join(dec[p] for p in parts)} {n} {{ v: {'Box::new(v)' if drop else 'v'}, t }} }} }} }}"
        ence = {"u8": "crubit::TransmuteAbi<uint8_t>().Encode(v.t, e);", "i64": "crubit::TransmuteAbi<int64_t>().Encode(::user::user_get(v.p), e);"}
        dece = {"u8": "uint8_t t = crubit::TransmuteAbi<uint8_t>().Decode(d);", "i64": "int64_t x = crubit::TransmuteAbi<int64_t>().Decode(d);"}
        user = f"namespace {ns} {{ struct {c} {{ void* p; uint8_t t = 6; explicit {c}(int64_t x) : p(::user::user_new(x)) {{}} {c}({c}&& o) : p(std::exchange(o.p, nullptr)), t(o.t) {{}} {c}& operator=({c}&& o) {{ std::swap(p, o.p); std::swap(t, o.t); return *this; }} ~{c}() {{ ::user::user_free(p); }} }};\n"
        user += f"struct {abi} {{ using Value = {c}; static constexpr std::size_t kSize = 9; void Encode({c} v, crubit::Encoder& e) && {{ {' '.join(ence[p] for p in parts)} }} {c} Decode(crubit::Decoder& d) && {{ {' '.join(dece[p] for p in parts)} {c} r(x); r.t = t; return r; }} }}; }}\ntemplate <> struct user::MV<{q}> {{ static {q} mk(int64_t x) {{ return {q}(x); }} static int64_t val(const {q}& v) {{ return v.t == 6 ? user_get(v.p) : -96; }} }};"
        self.typeitem(n, mod, q, rs, user, None, "comp", False, lambda x: x, conv=[self.attr("bridge_abi_rust", abi), self.attr("bridge_abi_cpp", f"{ns}::{abi}")])

    def comp_generic(self):
        """A generic composable type: fields in any order in the buffer."""
        r = self.r; n = self.id("BG"); ns = self.ns(); c = f"Cg{n}"; q = f"{ns}::{c}"; abi = f"GAbi{n}"; rev = r.random() < .5
        rs = f"pub struct {n}<A, B>(A, B);\nimpl<A: crate::MV, B: crate::MV> crate::MV for {n}<A, B> {{ fn mk(x: i64) -> Self {{ {n}(A::mk(x ^ 9), B::mk(x)) }} fn val(&self) -> i64 {{ crate::mv::mix(self.0.val(), self.1.val()) }} }}\n"
        e = ["self.1.encode(v.1, e);", "self.0.encode(v.0, e);"]; d = ["let b = self.1.decode(d);", "let a = self.0.decode(d);"]
        if not rev: e.reverse(); d.reverse()
        rs += f"#[derive(Clone, Default)] pub struct {abi}<A, B>(pub A, pub B);\nunsafe impl<A: bridge_rust::CrubitAbi, B: bridge_rust::CrubitAbi> bridge_rust::CrubitAbi for {abi}<A, B> {{ type Value = {n}<A::Value, B::Value>; const SIZE: usize = A::SIZE + B::SIZE; fn encode(self, v: Self::Value, e: &mut bridge_rust::Encoder) {{ {' '.join(e)} }} unsafe fn decode(self, d: &mut bridge_rust::Decoder) -> Self::Value {{ unsafe {{ {' '.join(d)} {n}(a, b) }} }} }}"
        ce = ["std::move(b).Encode(std::move(v.b), e);", "std::move(a).Encode(std::move(v.a), e);"]; cd = ["auto y = std::move(b).Decode(d);", "auto x = std::move(a).Decode(d);"]
        if not rev: ce.reverse(); cd.reverse()
        user = f"namespace {ns} {{ template <class A, class B> struct {c} {{ A a; B b; }};\ntemplate <class A, class B> struct {abi} {{ A a; B b; explicit {abi}(A a, B b) : a(std::move(a)), b(std::move(b)) {{}} using Value = {c}<typename A::Value, typename B::Value>; static constexpr std::size_t kSize = A::kSize + B::kSize; void Encode(Value v, crubit::Encoder& e) && {{ {' '.join(ce)} }} Value Decode(crubit::Decoder& d) && {{ {' '.join(cd)} return Value{{std::move(x), std::move(y)}}; }} }}; }}\n"
        user += f"template <class A, class B> struct user::MV<{q}<A, B>> {{ using S = {q}<A, B>; static S mk(int64_t x) {{ return S{{user::mk<A>(x ^ 9), user::mk<B>(x)}}; }} static int64_t val(const S& v) {{ return mix(user::val(v.a), user::val(v.b)); }} }};"
        at = [self.attr("cpp_type", q), self.attr("bridge_abi_rust", abi), self.attr("bridge_abi_cpp", f"{ns}::{abi}")]; r.shuffle(at)
        self.item(n, "".join(at) + rs, (), (), user=user, kinds={"generic composable type"})
        for _ in range(r.choice([1, 2, 3])):
            def part(d):
                k = r.random()
                cs = [t for t in self.types if t.kind == "comp"]
                if d and k < .25: return opt(part(d - 1))
                if cs and k < .6: return r.choice(cs)
                ls = [t for t in self.types if t.kind in ("layout", "owning")]
                if ls and k < .75: return r.choice(ls)
                return prim(r.choice(list(CC)))
            a, b = part(1), part(1)
            self.types.append(T(f"crate::{n}<{a.rs}, {b.rs}>", f"{q}<{a.cc}, {b.cc}>", (lambda a, b: lambda x: mixp(a.val(w64(x ^ 9)), b.val(x)))(a, b), "comp", False, {n} | a.deps | b.deps))

    # --- uses ------------------------------------------------------------------------------------
    def shape(self, t):
        r = self.r; k = t.kind
        if k in ("layout", "owning", "generic", "pointer"):
            o = r.choice(["v", "v", "opt", "res", "vec", "arr", "tup", "tup3", "tupn"])
        elif k == "convertible": o = r.choice(["v", "v", "tup", "tup3", "tupn"])
        else: o = r.choice(["v", "v", "opt"])
        p = lambda: prim(r.choice(list(CC)))
        if o == "opt": return opt(t)
        if o == "res": return res(t, p())
        if o == "vec": return vec(t)
        if o == "arr": return arr(t, r.choice([1, 2, 3]))
        if o == "tup": return tup(*r.choice([(t, p()), (p(), t), (t, t)]))
        if o == "tup3": return tup(*r.sample([t, p(), r.choice([t, p()])], 3))
        if o == "tupn": return tup(*r.choice([(tup(t, p()), p()), (p(), tup(p(), t))]))
        return t

    def call(self, mod, n): return "::".join(["lib", *mod, n])

    def use(self):
        r = self.r
        if not self.types: return self.layout()
        t = r.choice(self.types); mod = r.choice(self.mods)
        layout = t.kind in ("layout", "owning", "generic")
        op = r.choice(["value", "value", "value", "method", "trait", "two"] + (["ref", "mut", "pick", "slice", "ptr", "field", "field", "enum", "optref"] if layout else ["pfield", "slice"] if t.kind == "pointer" else ["convert", "tagged"]))
        n = self.id("u"); q = self.call(mod, n); kinds = {f"{op} of {t.kind}"}
        cc = []
        M, V = f"user::mk<{t.cc}>", "user::val"
        if op == "value":
            s = self.shape(t); kinds = {f"{s.kind} of {t.kind}" if s is not t else f"value of {t.kind}"}
            rs = f"pub fn {n}(x: i64) -> {s.rs} {{ crate::MV::mk(x) }}"
            can_arg = s.kind != "Result" or s.copy
            pas = can_arg and r.random() < .7
            if can_arg: rs += f"\npub fn {n}_in(w: {s.rs}) -> i64 {{ crate::MV::val(&w) }}"
            if pas: rs += f"\npub fn {n}_io(a: u8, w: {s.rs}, v: {s.rs}, b: bool) -> {s.rs} {{ if b {{ w }} else {{ v }} }}"
            cc.append(f"static_assert(std::is_same_v<decltype({q}(0)), {s.cc}>);")
            for x in self.xs():
                cc.append(f'{{ auto w = {q}({i64(x)}); tst::check("{n}({x})", tst::ser({V}(w)), "{s.val(x)}"); }}')
                y = self.xs(1)[0]
                mk = (lambda x: f"user::mk<{s.cc}>({i64(x)})") if s.mkcc else (lambda x: f"{q}({i64(x)})")
                if can_arg: cc.append(f'tst::check("{n}_in({x})", tst::ser({q}_in({mk(x)})), "{s.val(x)}");')
                if pas:
                    b = r.random() < .5
                    cc.append(f'tst::check("{n}_io({x}, {y}, {b})", tst::ser({V}({q}_io(1, {mk(x)}, {mk(y)}, {"true" if b else "false"}))), "{s.val(x if b else y)}");')
            deps = s.deps
        else:
            deps = t.deps
            x, y = self.xs(2)
            X, Y = i64(x), i64(y)
            tv = t.val
            if op == "two":
                u = r.choice(self.types); deps = deps | u.deps
                rs = f"pub fn {n}(a: {t.rs}, k: i32, b: {u.rs}) -> i64 {{ crate::mv::mix(crate::MV::val(&b), crate::MV::val(&a)) ^ k as i64 }}"
                cc.append(f'tst::check("{n}", tst::ser({q}({M}({X}), 77, user::mk<{u.cc}>({Y}))), "{w64(mixp(u.val(y), tv(x)) ^ 77)}");')
            elif op == "method":
                S = f"S{self.n}"
                rs = f"pub struct {S} {{ pub k: i64 }}\nimpl {S} {{ pub fn {n}(r: {t.rs}, k: i64) -> {S} {{ {S} {{ k: crate::MV::val(&r) ^ k }} }} pub fn get(&self, r: {t.rs}) -> {t.rs} {{ if crate::MV::val(&r) == self.k {{ r }} else {{ crate::MV::mk(self.k) }} }} pub fn eat(self, r: {t.rs}) -> i64 {{ self.k ^ crate::MV::val(&r) }} }}"
                Q = self.call(mod, S)
                cc.append(f'{{ auto s = {Q}::{n}({M}({X}), 5); tst::check("{S}.k", tst::ser(s.k), "{w64(tv(x) ^ 5)}"); auto g = s.get({M}({Y})); tst::check("{S}::get", tst::ser({V}(g)), "{tv(y) if tv(y) == w64(tv(x) ^ 5) else tv(w64(tv(x) ^ 5))}"); tst::check("{S}::eat", tst::ser(std::move(s).eat({M}({Y}))), "{w64(tv(x) ^ 5 ^ tv(y))}"); }}')
            elif op == "trait":
                S, Tr = f"S{self.n}", f"Tr{self.n}"
                rs = f"pub struct {S} {{ pub k: i64 }}\npub trait {Tr} {{ fn {n}(&self, r: {t.rs}) -> {t.rs}; fn st(r: {t.rs}) -> i64; }}\nimpl {Tr} for {S} {{ fn {n}(&self, r: {t.rs}) -> {t.rs} {{ crate::MV::mk(crate::MV::val(&r) ^ self.k) }} fn st(r: {t.rs}) -> i64 {{ crate::MV::val(&r) }} }}\nimpl {S} {{ pub fn mk(k: i64) -> {S} {{ {S} {{ k }} }} }}"
                I = f"rs_std::impl<{self.call(mod, S)}, {self.call(mod, Tr)}>"
                cc.append(f'{{ auto s = {self.call(mod, S)}::mk(6); auto g = {I}::{n}(s, {M}({X})); tst::check("{n}", tst::ser({V}(g)), "{tv(w64(tv(x) ^ 6))}"); tst::check("{Tr}::st", tst::ser({I}::st({M}({Y}))), "{tv(y)}"); }}')
                if layout and t.kind != "generic" and r.random() < .6:
                    rs += f"\nimpl {Tr} for {t.rs} {{ fn {n}(&self, r: {t.rs}) -> {t.rs} {{ crate::MV::mk(crate::MV::val(self) ^ crate::MV::val(&r)) }} fn st(r: {t.rs}) -> i64 {{ !crate::MV::val(&r) }} }}"
                    J = f"rs_std::impl<{t.cc}, {self.call(mod, Tr)}>"
                    cc.append(f'{{ auto s = {M}({X}); auto g = {J}::{n}(s, {M}({Y})); tst::check("{n} of {t.kind}", tst::ser({V}(g)), "{tv(w64(tv(x) ^ tv(y)))}"); }}')
                    kinds |= {f"trait for {t.kind}"}
            elif op == "convert":
                S = f"S{self.n}"
                rs = f"pub struct {S} {{ pub k: i64 }}\nimpl From<{t.rs}> for {S} {{ fn from(r: {t.rs}) -> {S} {{ {S} {{ k: crate::MV::val(&r) ^ 3 }} }} }}"
                cc.append(f'{{ {self.call(mod, S)} s({M}({X})); tst::check("{S}", tst::ser(s.k), "{w64(tv(x) ^ 3)}"); }}')
            elif op == "tagged":
                # Fields and payloads of such types have no counterpart: the rest of the type still has.
                S = f"S{self.n}"
                rs = f"pub struct {S} {{ pub a: u8, pub r: {t.rs}, pub k: i64 }}\npub fn {n}(x: i64) -> {S} {{ {S} {{ a: 7, r: crate::MV::mk(x), k: x }} }}\nimpl {S} {{ pub fn rv(&self) -> i64 {{ crate::MV::val(&self.r) }} }}"
                cc.append(f'{{ auto s = {q}({X}); tst::check("{S}", tst::ser(s.k) + tst::ser(s.a) + tst::ser(s.rv()), "{x}7{tv(x)}"); }}')
            elif op == "ref":
                rs = f"pub fn {n}(a: u8, r: &{t.rs}) -> i64 {{ crate::MV::val(r) }}"
                cc.append(f'{{ auto a = {M}({X}); const auto& c = a; tst::check("{n}", tst::ser({q}(1, c)), "{tv(x)}"); }}')
            elif op == "mut":
                rs = f"pub fn {n}(r: &mut {t.rs}, x: i64) -> i64 {{ let o = crate::MV::val(r); *r = crate::MV::mk(x); o }}"
                cc.append(f'{{ auto a = {M}({X}); auto o = {q}(a, {Y}); tst::check("{n}", tst::ser(o), "{tv(x)}"); tst::check("{n} writes", tst::ser({V}(a)), "{tv(y)}"); }}')
            elif op == "pick":
                rs = f"pub fn {n}<'a>(a: &'a {t.rs}, b: &'a {t.rs}, k: bool) -> &'a {t.rs} {{ if k {{ a }} else {{ b }} }}"
                cc.append(f'{{ auto a = {M}({X}); auto b = {M}({Y}); tst::check_true("{n}", &{q}(&a, &b, true) == &a && &{q}(&a, &b, false) == &b); }}')
            elif op == "optref":
                rs = f"pub fn {n}(a: Option<&{t.rs}>) -> i64 {{ match a {{ None => -3, Some(r) => crate::MV::val(r) }} }}"
                cc.append(f'{{ auto a = {M}({X}); tst::check("{n}", tst::ser({q}(&a)), "{tv(x)}"); tst::check("{n}()", tst::ser({q}(std::nullopt)), "-3"); }}')
            elif op == "ptr":
                rs = f"pub fn {n}(a: *const {t.rs}) -> i64 {{ if a.is_null() {{ -5 }} else {{ crate::MV::val(unsafe {{ &*a }}) }} }}\npub fn {n}_m(a: *mut {t.rs}, x: i64) -> *mut {t.rs} {{ unsafe {{ *a = crate::MV::mk(x); }} a }}"
                cc.append(f'{{ auto a = {M}({X}); tst::check("{n}", tst::ser({q}(&a)), "{tv(x)}"); tst::check("{n}(null)", tst::ser({q}(nullptr)), "-5"); auto* p = {q}_m(&a, {Y}); tst::check_true("{n}_m", p == &a); tst::check("{n}_m writes", tst::ser({V}(a)), "{tv(y)}"); }}')
            elif op == "slice":
                k = r.choice([0, 1, 3])
                rs = f"pub fn {n}(a: &[{t.rs}]) -> i64 {{ a.iter().fold(5, |h, v| crate::mv::mix(h, crate::MV::val(v))) }}\npub fn {n}_m(a: &mut [{t.rs}], x: i64) {{ for (i, e) in a.iter_mut().enumerate() {{ *e = crate::MV::mk(x ^ i as i64); }} }}"
                h = 5; h2 = 5
                for i in range(3): h = mixp(h, tv(w64(x ^ i))); h2 = mixp(h2, tv(w64(y ^ i)))
                A = f"std::array<{t.cc}, 3>"
                cc.append(f'{{ auto a = user::mk<{A}>({X}); tst::check("{n}", tst::ser({q}(rs_std::SliceRef<{t.cc} const>(a))), "{h}"); {q}_m(rs_std::SliceRef<{t.cc}>(a), {Y}); tst::check("{n}_m", tst::ser({V}(a)), "{h2}"); }}')
            elif op in ("field", "pfield"):
                S = f"S{self.n}"
                fs = [("a", prim(r.choice(list(CC)))), ("r", t)]
                if r.random() < .4: fs.append(("o", opt(t)))
                if r.random() < .4: fs.append(("v", arr(t, 2)))
                if r.random() < .3: fs.append(("w", vec(t)))
                r.shuffle(fs)
                rs = f"{r.choice(['', '#[repr(C)]'])} pub struct {S} {{ {', '.join(f'pub {f}: {u.rs}' for f, u in fs)} }}\npub fn {n}(x: i64) -> {S} {{ {S} {{ {', '.join(f'{f}: crate::MV::mk(x ^ {k})' for k, (f, u) in enumerate(fs))} }} }}\nimpl {S} {{ pub fn rv(&self) -> i64 {{ crate::MV::val(&self.r) }} pub fn rr(&self) -> &{t.rs} {{ &self.r }} pub fn mm(&mut self) -> &mut {t.rs} {{ &mut self.r }} }}"
                if t.kind == "pointer": rs = rs.replace(f" pub fn rr(&self) -> &{t.rs} {{ &self.r }} pub fn mm(&mut self) -> &mut {t.rs} {{ &mut self.r }}", "")
                cc.append(f'{{ auto s = {q}({X});')
                for k, (f, u) in enumerate(fs): cc.append(f'tst::check("{S}.{f}", tst::ser({V}(s.{f})), "{w64(u.val(w64(x ^ k))) if u.kind == "prim" else u.val(w64(x ^ k))}");')
                cc.append(f"static_assert(std::is_same_v<decltype(s.r), {t.cc}>);")
                if layout: cc.append(f'tst::check_true("{S}: addresses", &s.rr() == &s.r && &s.mm() == &s.r);')
                if t.copy or layout: cc.append(f's.r = {M}({Y}); tst::check("{S}.r after writing", tst::ser(s.rv()), "{tv(y)}");')
                cc.append("}")
            elif op == "enum":
                S = f"E{self.n}"
                rs = f"pub enum {S} {{ A({t.rs}), B(u8, {t.rs}), C }}\npub fn {n}(x: i64) -> {S} {{ match x.rem_euclid(3) {{ 0 => {S}::A(crate::MV::mk(x)), 1 => {S}::B(4, crate::MV::mk(x)), _ => {S}::C }} }}\nimpl {S} {{ pub fn ev(&self) -> i64 {{ match self {{ {S}::A(r) => crate::MV::val(r), {S}::B(k, r) => crate::MV::val(r) ^ *k as i64, {S}::C => -2 }} }} }}"
                Q = self.call(mod, S)
                cc.append(f'{{ auto s = {q}({X}); tst::check("{S}", tst::ser(s.ev()), "{[tv(x), w64(tv(x) ^ 4), -2][x % 3]}"); ' + (f'auto a = {Q}::MakeA({M}({Y})); tst::check("{S}::A", tst::ser(a.ev()), "{tv(y)}"); auto b = {Q}::MakeB(200, {M}({Y})); tst::check("{S}::B", tst::ser(b.ev()), "{w64(tv(y) ^ 200)}"); ' if t.copy else '') + '}')
        self.item(n, rs, mod, deps, cc="\n".join(cc), kinds=kinds)

    def thread_safe(self):
        """References to such types are not const in C++."""
        r = self.r; n = self.id("Q"); mod = r.choice(self.mods); q = self.call(mod, n)
        rs = self.attr("cpp_thread_safe") + f"pub struct {n} {{ k: std::sync::atomic::AtomicI64 }}\nimpl {n} {{ pub fn mk(x: i64) -> {n} {{ {n} {{ k: x.into() }} }} pub fn get(&self) -> i64 {{ self.k.load(std::sync::atomic::Ordering::SeqCst) }} pub fn add(&self, d: i64) {{ self.k.fetch_add(d, std::sync::atomic::Ordering::SeqCst); }} pub fn me(&self) -> &{n} {{ self }} pub fn sub(&mut self, d: i64) {{ *self.k.get_mut() -= d; }} }}\n"
        rs += f"pub fn bump{n}(a: &{n}, b: &{n}) {{ a.add(b.get()) }}\npub fn pick{n}<'a>(a: &'a {n}, b: &'a {n}, k: bool) -> &'a {n} {{ if k {{ a }} else {{ b }} }}"
        b = self.call(mod, f"bump{n}"); p = self.call(mod, f"pick{n}")
        x, y = r.randint(-9999, 9999), r.randint(-9999, 9999)
        cc = f'{{ auto a = {q}::mk({x}); auto b = {q}::mk({y}); {b}(a, b); tst::check("{n}", tst::ser(a.get()), "{x + y}"); a.me().add(4); tst::check("{n}::me", tst::ser(a.get()), "{x + y + 4}"); {p}(&a, &b, false).sub(2); tst::check("pick{n}", tst::ser(b.get()), "{y - 2}"); static_assert(std::is_same_v<decltype({p}(&a, &b, true)), {q}&>); static_assert(std::is_same_v<decltype(a.me()), {q}&>); {b}(b, b); tst::check("twice", tst::ser(b.get()), "{2 * (y - 2)}"); }}'
        pr = [(f"auto f(const {q}& a, {q}& b) -> decltype({b}(a, b));", True), (f"extern const {q}& a{n}; extern {q}& b{n}; {b}(a{n}, b{n});", False), (f"extern const {q}& a{n}; extern {q}& b{n}; {b}(b{n}, a{n});", False), (f"extern {q}& b{n}; {b}(b{n}, b{n});", True), (f"extern const {q}& a{n}; a{n}.get();", False), (f"extern const {q}& a{n}; {p}(&a{n}, &a{n}, true);", False)]
        self.item(n, rs, mod, (), cc=cc, kinds={"cpp_thread_safe"}, probes=pr[1:])

    def unbound(self):
        """do_not_bind: nothing in the header, the rest stays."""
        r = self.r; n = self.id("d"); mod = r.choice(self.mods); S = f"D{self.n}"
        rs = self.attr("do_not_bind") + f"pub fn {n}(a: i32) -> i32 {{ a }}\npub fn {n}_k(a: i32) -> i32 {{ a + 1 }}\npub struct {S} {{ pub a: i32 }}\nimpl {S} {{ {self.attr('do_not_bind').strip()} pub fn hid(&self) -> i32 {{ 1 }} pub fn mk(a: i32) -> {S} {{ {S} {{ a }} }} {self.attr('do_not_bind').strip()} pub fn st() -> i32 {{ 4 }} pub fn seen(&self) -> i32 {{ self.a + 2 }} }}"
        q = self.call(mod, n); Q = self.call(mod, S)
        self.item(n, rs, mod, (), cc=f'tst::check("{n}_k", tst::ser({q}_k(4)), "5"); tst::check("{S}", tst::ser({Q}::mk(6).seen()), "8");', kinds={"do_not_bind"}, probes=[(f"(void)&{q};", False), (f"(void)&{q}_k;", True), (f"(void)&{Q}::hid;", False), (f"(void)&{Q}::st;", False), (f"(void)&{Q}::seen;", True)])

    def must(self):
        """must_bind on what has bindings changes nothing."""
        r = self.r
        if not self.items: return
        i = r.choice(self.items)
        if i.crate or "must_bind" in i.rust or not i.cc_main: return
        i.rust = re.sub(r"^(pub (?:fn|struct|enum|trait) )", lambda m: self.attr("must_bind") + m[1], i.rust, flags=re.M)
        i.kinds = set(i.kinds) | {"must_bind"}


def gen(seed):
    r = random.Random(seed)
    g = G(r)
    makers = [g.layout] * 3 + [g.owning] * 2 + [g.pointer] * 2 + [g.convertible] * 3 + [g.generic, g.instance, g.instance, g.composable, g.comp_generic]
    for _ in range(r.randint(2, 6)): r.choice(makers)()
    for _ in range(r.randint(8, 22)):
        k = r.random()
        if k < .2: r.choice(makers)()
        elif k < .25: g.thread_safe()
        elif k < .29: g.unbound()
        elif k < .35: g.must()
        else: g.use()
    ccs = [t.cc for t in g.types]
    # (Two types with one C++ type can not both implement a bound trait, which `MV` is if it is in another crate.)
    if r.random() < .35 and len(ccs) == len(set(ccs)):
        moved = set()
        for i in order(g.items):
            if not i.cc_main and any(k.startswith("type ") or k in ("generic type", "specializing alias", "alias of a generic type") for k in i.kinds) and set(i.deps) <= moved and r.random() < .7:
                i.crate = 1; i.kinds = {*i.kinds, "in another crate"}; moved.add(i.id)
    return g.items


def render(items):
    items = order(items)
    files = {"base.h": [BASE_H], "user.h": ['#pragma once\n#include "base.h"\n']}
    pre = []
    for i in items:
        if getattr(i, "user", ""):
            h = i.hdr
            if h is None: pre.append(i.user)
            else: files.setdefault(h, ['#pragma once\n#include "base.h"\n']).append(i.user)
    comp = '#pragma once\n#include "user.h"\n#include "support/bridge.h"\n' + "\n".join(pre)
    text = {h: "\n".join(v) for h, v in files.items()}
    text["comp.h"] = comp
    moved = [i for i in items if i.crate == 1]; own = [i for i in items if i.crate == 0]
    names = {i.id for i in moved}
    fl = {"flags": ["-L", "$LIBS"], "rustc_flags": ["-L", "$LIBS", "--extern", "bridge_rust=$LIBS/libbridge_rust.rlib"]}
    if moved:
        # The mapped types of another bound crate.
        import copy, re
        body, _ = topic.modules(moved)
        rx = re.compile(r"\bcrate::((?:m\d+::)*(?:" + "|".join(sorted(names)) + r"))\b")
        here = []
        for i in own:
            i = copy.copy(i); i.rust = rx.sub(r"dep::\1", i.rust); i.deps = [d for d in i.deps if d not in names]; here.append(i)
        case = topic.render(here, head="#![allow(warnings)]\npub(crate) use dep::{mv, own, MV};\n", case_extra={"files": text})
        dep = {"name": "dep", "src": "#![allow(warnings)]\n" + HID.replace("pub(crate)", "pub") + body + "\n", "deps": [], **fl}
        case["crates"][0]["deps"] = ["dep"]; case["crates"][0].update(fl); case["crates"].insert(0, dep)
    else:
        case = topic.render([i for i in items], head="#![allow(warnings)]\n" + HID, case_extra={"files": text})
        case["crates"][0].update(fl)
    # The definitions in the users' headers are what the glue links against: all of them are part of the program.
    allinc = "".join(f'\n#include "{h}"' for h in sorted(text))
    fix = lambda s: s.replace('#include "lib.h"', '#include "comp.h"\n#include "lib.h"\n' + RS_STD_H.strip() + allinc, 1)
    case["main"] = fix(case["main"]).replace("tst_live() == 0)", "tst_live() == 0 && user::live.empty())")
    if "probes" in case: case["probes"]["head"] = case["probes"]["head"].replace('#include "lib.h"', '#include "comp.h"\n#include "lib.h"')
    return case


def mustfail(r):
    """must_bind on what can not have bindings: the tool fails and says why. Returns Rust text and what to expect."""
    n = f"x{r.randint(0, 999)}"; N = n.upper()
    mb = '#[doc = "CRUBIT_ANNOTATE: must_bind="]\n'
    bad = r.choice(["i128", "Option<Option<i32>>", "&'static dyn std::fmt::Debug", "std::rc::Rc<i32>", "std::collections::HashMap<i32, i32>", "Box<dyn Fn()>", "impl Iterator<Item = u8>", "Option<(i32, u8)>"])
    k = r.choice(["fn", "fn", "arg", "method", "generic fn", "generic struct", "zst", "nested"])
    if "impl " in bad and k in ("arg", "method", "nested"): bad = "i128"
    if k == "fn": rs, path = f"{mb}pub fn {n}() -> {bad} {{ loop {{}} }}", n
    elif k == "arg": rs, path = f"{mb}pub fn {n}(a: i32, b: {bad}) {{}}", n
    elif k == "method": rs, path = f"pub struct {N} {{ pub a: i32 }}\nimpl {N} {{ {mb}pub fn {n}(&self, b: {bad}) {{}} }}", n
    elif k == "generic fn": rs, path = f"{mb}pub fn {n}<T: Clone>(a: T) -> T {{ a }}", n
    elif k == "generic struct": rs, path = f"{mb}pub struct {N}<T> {{ pub a: T }}", N
    elif k == "zst": rs, path = f"{mb}pub struct {N};", N
    else: rs, path = f"pub mod m {{ {mb}pub fn {n}(b: {bad}) {{}} }}", n
    ok = r.random() < .5
    extra = [f"pub fn ok{j}(a: i32) -> i32 {{ a }}" for j in range(r.choice([0, 1, 3]))]
    # Without must_bind the same crate has bindings.
    return "\n".join([*extra, rs.replace(mb, "") if ok else rs]), path, ok, f"{k} {bad if k not in ('generic fn', 'generic struct', 'zst') else ''}".strip()


def malformed(r):
    """Annotations with mistakes in them: an error, never a crash or a silent change."""
    n = f"x{r.randint(0, 999)}"
    at = r.choice(["nonsense=1", "must_bind", "cpp_nam=a", "=", "cpp_name", "do not bind=", "cpp_name=a\"]\n#[doc = \"CRUBIT_ANNOTATE: cpp_name=b", "must_bind=\"]\n#[doc = \"CRUBIT_ANNOTATE: must_bind="])
    return f"#[doc = \"CRUBIT_ANNOTATE: {at}\"]\npub fn {n}() {{}}\npub fn fine() -> i32 {{ 3 }}", at


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one item: a type mapped to a C++ type by annotations, or a function, method, trait, field, payload or container which uses such a type, with its C++ driver; non-trivial: items which use a mapped type, distinct by Rust text"
    def classify(items, case, res):
        for i in items:
            ctx.count(max(1, i.cc_main.count("tst::check")))
            for k in i.kinds: ctx.cls(k)
            if i.cc_main: ctx.note(i.rust); ctx.sample({"rust": i.rust}, 8)
    n = ctx.n(24, 700)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], gen, render, classify)
    cases = []
    for k in range(ctx.n(24, 400)):
        r = random.Random(f"{ctx.seed}:{ctx.prop}:must:{k}")
        src, path, ok, what = mustfail(r)
        cases.append({"crates": [{"name": "lib", "src": "#![allow(warnings)]\n" + src + "\n", "deps": []}], **({} if ok else {"generate_fails": rf"must_bind.*\b{path}\b"}), "main": None, "what": f"{'no ' if ok else ''}must_bind on {what}"})
    sweep.plain(ctx, base, cases)


if __name__ == "__main__":
    sys.exit(runner.main("C16", check, sweep.replay_case))
