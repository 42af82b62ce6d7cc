#!/usr/bin/env python3
"""C17: a panic of any Rust code which C++ calls ends the process; it never unwinds into C++ (but out of "C-unwind" functions)."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, sweep, topic
from topic import TI

BASE = TI("Base", r"""static ARMED: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
pub fn arm(k: u32) { ARMED.store(k, std::sync::atomic::Ordering::SeqCst) }
pub(crate) fn armed(k: u32) -> bool { ARMED.load(std::sync::atomic::Ordering::SeqCst) == k }
pub(crate) fn zero() -> i64 { std::hint::black_box(0) }
pub(crate) struct Noisy(pub i64);
impl Drop for Noisy { fn drop(&mut self) { std::hint::black_box(self.0); } }
""", cc_decl=r"""#include "support/rs_std/dyn_erased_future.h"
#include <compare>
#include <sstream>
#include <sys/mman.h>
#include <csignal>
#include <array>
static volatile int* flag = static_cast<int*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
struct Guard { ~Guard() { *flag |= 1; } };
// What becomes of a child which runs `f`: bit 0, a destructor ran; bit 1, `f` returned; bit 2, something was caught; bit 3, SIGABRT; bit 4, another signal.
template <class F> int outcome(F f) {
  fflush(stdout); fflush(stderr); *flag = 0;
  pid_t p = fork();
  if (p == 0) {
    int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
    try { Guard g; f(); *flag |= 2; } catch (...) { *flag |= 4; _exit(0); }
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  return *flag | (WIFSIGNALED(st) ? (WTERMSIG(st) == SIGABRT ? 8 : 16) : 0);
}
template <class F> void want(const char* what, int w, F f) { int o = outcome(f); if (o != w) { printf("MISMATCH c++ %s: outcome %d, want %d\n", what, o, w); fflush(stdout); } }
template <class F> void ends(const char* what, F f) { want(what, 8, f); }
template <class F> void runs(const char* what, F f) { want(what, 3, f); }
template <class F> void unwinds(const char* what, F f) { want(what, 5, f); }
struct Sink { std::string s; void Append(std::string_view v) { s += v; } };
struct NoWaker final : rs_std::Waker { void WakeByRef() override {} void WakeAndDestroy() override {} Waker* Clone() override { return this; } void Destroy() override {} };
extern "C" inline std::int32_t twice(std::int32_t x) { return 2 * x; }
""", kinds={"base"})

STYLES = {
    "panic!": 'panic!("boom {}", K)', "panic_any": "std::panic::panic_any(Ku32)", "resume_unwind": 'std::panic::resume_unwind(Box::new(String::from("boom")))',
    "unwrap": "{ let x: Option<u8> = std::hint::black_box(None); x.unwrap(); }", "expect": '{ let x: Result<u8, String> = Err(String::from("no")); x.expect("boom"); }', "index": "{ let v = vec![1u8]; let i = crate::zero() as usize + 7; std::hint::black_box(v[i]); }",
    "division": "{ std::hint::black_box(5 / crate::zero()); }", "unreachable!": "unreachable!()", "assert!": "assert!(crate::zero() == 1)", "todo!": "todo!()",
    "slice": "{ let s = String::from(\"\\u{e9}\"); let i = crate::zero() as usize + 1; std::hint::black_box(&s[i..]); }", "RefCell": "{ let c = std::cell::RefCell::new(1); let _a = c.borrow_mut(); let _b = c.borrow_mut(); }",
    "behind frames": "{ fn deep(n: u32) { let _n = crate::Noisy(1); if n == 0 { panic!(\"deep\") } deep(n - 1); std::hint::black_box(n); } deep(5) }", "thread": "{ std::thread::spawn(|| { panic!(\"other thread\") }).join().unwrap() }", "rethrow": "{ let e = std::panic::catch_unwind(|| panic!(\"inner\")).unwrap_err(); std::panic::resume_unwind(e) }",
}


class G:
    def __init__(self, r): self.r, self.n, self.k, self.items = r, 0, 0, [BASE]; self.kinds = set()

    def trip(self, call=None):
        """A Rust statement which panics when the returned number is armed."""
        r = self.r; self.k += 1; s = r.choice(list(STYLES)); self.kinds.add(s)
        pre = r.choice(["", "", "let _n = crate::Noisy(3); "])
        return f"{pre}if crate::armed({self.k}) {{ {STYLES[s].replace('K', str(self.k)) if s in ('panic!', 'panic_any') else STYLES[s]}; }}", self.k

    def calm(self):
        """Panics which Rust keeps to itself."""
        self.kinds.add("caught in Rust"); return "let _ = std::panic::catch_unwind(|| panic!(\"caught\"));" if self.r.random() < .7 else "let _ = std::thread::spawn(|| panic!(\"in its thread\")).join();"

    def use(self, name, what, pre, e, k, val=None, how="ends"):
        """C++ text: the same expression runs to its end, and with the trap armed does not."""
        ok = f' tst::check_true("{name}: value", {val});' if val else ""
        return (f'runs("{name}: {what}", [] {{ {pre} {e}; }});\n{how}("{name}: {what} panics", [] {{ {pre} lib::arm({k}); {e}; }});' + (f"\n{{ {pre}{ok} }}" if val else ""))

    def add(self, n, rust, cc, kinds, deps=("Base",), expect=()):
        self.items.append(TI(n, rust, deps=list(deps), cc="\n".join(cc), kinds=set(kinds) | self.kinds, expect=list(expect))); self.kinds = set()

    def fn(self):
        r = self.r; self.n += 1; n = f"f{self.n}"; t, k = self.trip(); x = r.randint(-999, 999)
        ps = [("i32", str(x), "")]
        for j in range(r.choice([0, 0, 1, 2, 3])):
            ps.append(r.choice([("u8", "7", ""), ("&str", 'rs_std::StrRef("abc")', ""), ("&i64", f"w{j}", f"std::int64_t w{j} = 5;"), ("&mut i64", f"w{j}", f"std::int64_t w{j} = 5;"), ("Option<u8>", "std::optional<std::uint8_t>(3)", ""), ("(u8, bool)", "std::tuple<std::uint8_t, bool>(1, true)", ""), ("[u8; 3]", "std::array<std::uint8_t, 3>{1, 2, 3}", ""),
                               ("extern \"C\" fn(i32) -> i32", "twice", ""), ("f64", "1.5", ""), ("*const i32", "nullptr", ""), ("&[u8]", "rs_std::SliceRef<const std::uint8_t>()", "")]))
        out, val, cv = r.choice([("i32", "p0", f"{x}"), ("i32", "p0", f"{x}"), ("()", "()", None), ("bool", "p0 > 0", "true" if x > 0 else "false"), ("Option<i32>", "Some(p0)", f"std::optional<std::int32_t>({x})"), ("(i32, u8)", "(p0, 1)", f"std::tuple<std::int32_t, std::uint8_t>({x}, 1)"), ("[i32; 2]", "[p0; 2]", f"std::array<std::int32_t, 2>{{{x}, {x}}}"), ("f64", "p0 as f64", f"{x}.0"), ("&'static str", '"abc"', None)])
        pre = " ".join(p[2] for p in ps); e = lambda q: f"{q}({', '.join(p[1] for p in ps)})"
        dec = ", ".join(f"p{i}: {p[0]}" for i, p in enumerate(ps)); calm = self.calm() if r.random() < .2 else ""
        cabi_ok = all(p[0] in ("i32", "u8", "f64", "*const i32", "&i64", "&mut i64") or p[0].startswith("extern") for p in ps) and out in ("i32", "()", "bool", "f64")
        q, abi = r.choice(["free", "free", "free", "mod", "unsafe"]), ""
        if r.random() < (.6 if cabi_ok else .25): abi = r.choice(["C", "C", "C-unwind", "C-unwind"] if r.random() < .8 else ["system"])
        attr = ""
        if abi and r.random() < .5 and cabi_ok and abi != "system": attr = r.choice([f"#[unsafe(no_mangle)] ", f'#[unsafe(export_name = "exp_{n}")] '])
        sig = f"{attr}pub {'unsafe ' if q == 'unsafe' else ''}" + (f'extern "{abi}" ' if abi else "") + f"fn {n}({dec}) -> {out} {{ {calm} {t} {val} }}"
        if q == "mod": sig = f"pub mod m_{n} {{ {sig} }}"; Q = f"lib::m_{n}::{n}"
        else: Q = f"lib::{n}"
        # A function with the ABI "C-unwind" is called without a thunk only if it is exported; what a thunk calls must not unwind out of it.
        how = "unwinds" if abi == "C-unwind" and attr and cabi_ok else None
        cc = []
        if how: cc.append(self.use(n, f'extern {abi}', pre, f"(void){e(Q)}", k, how="unwinds"))
        elif abi == "C-unwind": cc.append(f'runs("{n}", [] {{ {pre} (void){e(Q)}; }});\n{{ int o = outcome([] {{ {pre} lib::arm({k}); (void){e(Q)}; }}); tst::check_true("{n} panics", o == 8 || o == 5); }}')
        elif abi == "system" and False: pass
        else: cc.append(self.use(n, "function", pre, f"(void){e(Q)}", k))
        if cv and abi != "C-unwind": cc.append(f'{{ {pre} tst::check_true("{n} returns", {e(Q)} == {cv}); }}')
        self.add(n, sig, cc, {"function", f'extern "{abi}"' + (" exported" if attr else "") if abi else "Rust ABI", "returns " + out} | {"parameter " + p[0] for p in ps})

    def never(self):
        self.n += 1; n = f"v{self.n}"; r = self.r
        b = r.choice(["panic!(\"never\")", "unreachable!()", "loop { crate::zero(); panic!() }", "std::panic::panic_any(5u8)"])
        self.add(n, f"pub fn {n}(x: i32) -> ! {{ let _ = x; {b} }}", [f'ends("{n}", [] {{ lib::{n}(1); }});'], {"-> !"})

    def callback(self):
        """C++ between two frames of Rust."""
        self.n += 1; n = f"c{self.n}"; t, k = self.trip()
        rust = f'pub fn {n}(f: extern "C" fn(i32) -> i32, x: i32) -> i32 {{ let _n = crate::Noisy(2); f(x) + 1 }}\npub fn {n}_in(x: i32) -> i32 {{ {t} x + 5 }}\nextern "C" fn {n}_p(x: i32) -> i32 {{ {t} x + 7 }}\npub fn {n}_get() -> extern "C" fn(i32) -> i32 {{ {n}_p }}\n#[derive(Clone, Copy)] #[repr(C)] pub struct S{n} {{ pub f: extern "C" fn(i32) -> i32 }}\nimpl S{n} {{ pub fn mk() -> S{n} {{ S{n} {{ f: {n}_p }} }} }}'
        cb = f"+[](std::int32_t x) -> std::int32_t {{ return lib::{n}_in(x); }}"
        cc = [f'struct L_ {{ static std::int32_t f(std::int32_t x) {{ Guard g; return lib::{n}_in(x); }} }};',
              self.use(n, "callback", "", f"(void)lib::{n}(L_::f, 3)", k), f'tst::check_true("{n} returns", lib::{n}(L_::f, 3) == 9);',
              self.use(n, "pointer from Rust", f"auto& p = lib::{n}_get();", "(void)p(3)", k), f'tst::check_true("{n} pointer", lib::{n}_get()(3) == 10);',
              self.use(n, "pointer in a field", f"auto s = lib::S{n}::mk();", "(void)s.f(3)", k)]
        # The guard of the callback ran when nothing panics, hence its own expectation.
        self.add(n, rust, cc, {"callback", "function pointer"})

    def future(self):
        self.n += 1; n = f"a{self.n}"; t, k = self.trip(); t2, k2 = self.trip(); t3, k3 = self.trip()
        rust = f"struct D{n}; impl Drop for D{n} {{ fn drop(&mut self) {{ {t2} }} }}\npub async fn {n}(x: i32) -> i32 {{ let d = D{n}; {t} std::future::ready(()).await; {t3} std::mem::forget(d); x + 1 }}"
        pre = "static NoWaker w; std::int32_t out = 0; "
        cc = [self.use(n, "poll", pre + f"auto f = lib::{n}(4);", "(void)f.Poll(&w, &out)", k), self.use(n, "poll later", pre + f"auto f = lib::{n}(4);", "(void)f.Poll(&w, &out)", k3),
              f'{{ {pre} auto f = lib::{n}(4); bool done = f.Poll(&w, &out); tst::check_true("{n} ready", done && out == 5); }}']
        rust += f"\npub async fn {n}_d(x: i32) -> i32 {{ let d = D{n}; std::future::pending::<()>().await; drop(d); x }}"
        cc.append(self.use(n, "drop of a pending future", pre, f"{{ auto f = lib::{n}_d(4); (void)f.Poll(&w, &out); }}", k2))
        self.add(n, rust, cc, {"async"})

    def type(self):
        r = self.r; self.n += 1; n = f"K{self.n}"; Q = f"lib::{n}"; cc, o, kinds = [], [], set()
        kind = r.choice(["struct", "struct", "repr(C)", "tuple", "enum"]); copy = kind != "enum" and r.random() < .3
        drop = not copy and r.random() < .6
        body = {"struct": f"pub struct {n} {{ v: i64, w: u16 }}", "repr(C)": f"#[repr(C)] pub struct {n} {{ w: u16, pub v: i64 }}", "tuple": f"pub struct {n}(i64, pub u16);", "enum": f"pub enum {n} {{ A, B(i64), C {{ v: i64 }} }}"}[kind]
        mk = {"struct": f"{n} {{ v: x, w: 1 }}", "repr(C)": f"{n} {{ v: x, w: 1 }}", "tuple": f"{n}(x, 1)", "enum": f"if x == 0 {{ {n}::A }} else {{ {n}::B(x) }}"}[kind]
        val = {"struct": "self.v", "repr(C)": "self.v", "tuple": "self.0", "enum": f"match self {{ {n}::A => 0, {n}::B(v) => *v, {n}::C {{ v }} => *v }}"}[kind]
        o.append(("#[derive(Clone, Copy)] " if copy else "") + body); o.append(f"impl {n} {{ pub fn mk(x: i64) -> {n} {{ {mk} }} pub fn v(&self) -> i64 {{ {val} }} }}")
        v = r.randint(1, 999); a = f"auto a = {Q}::mk({v});"; b = f"auto b = {Q}::mk({v + 1});"; mv = lambda x: x if copy else f"std::move({x})"
        def use(what, pre, e, k, **kw): cc.append(self.use(n, what, pre, e, k, **kw)); kinds.add(what)
        if drop:
            t, k = self.trip(); o.append(f"impl Drop for {n} {{ fn drop(&mut self) {{ {t} }} }}"); use("destructor", "", f"{{ {a} (void)a; }}", k)
            use("drop of what is assigned over", a, "a = " + f"{Q}::mk(5)", k) if not r.random() < .3 else None
            if r.random() < .5:
                o.append(f"impl {n} {{ pub fn opt(x: i64) -> Option<{n}> {{ Some({n}::mk(x)) }} pub fn res(x: i64) -> Result<{n}, u8> {{ Ok({n}::mk(x)) }} pub fn pair(x: i64) -> ({n}, u8) {{ ({n}::mk(x), 1) }} pub fn list(x: i64) -> Vec<{n}> {{ vec![{n}::mk(x), {n}::mk(x)] }} }}")
                for m in r.sample(["opt", "res", "pair", "list"], 2): use(f"destructor of {m}", "", f"{{ auto c = {Q}::{m}(3); (void)c; }}", k)
            if r.random() < .5: o.append(f"impl {n} {{ pub fn eat(x: {n}) -> i64 {{ x.v() }} }}"); use("drop of an argument", a, f"(void){Q}::eat(std::move(a))", k)
        if not copy and r.random() < .5:
            t, k = self.trip(); cf = r.random() < .5; t2, k2 = self.trip() if cf else (None, k)
            o.append(f"impl Clone for {n} {{ fn clone(&self) -> {n} {{ {t} {n}::mk(self.v()) }} " + (f"fn clone_from(&mut self, o: &{n}) {{ {t2} *self = {n}::mk(o.v()); }} " if cf else "") + "}")
            use("copy construction", a, f"{Q} c(a)", k); use("copy assignment", a + b, "a = b", k2)
            if r.random() < .5:
                o.append(f"impl {n} {{ pub fn many(x: i64) -> Vec<{n}> {{ vec![{n}::mk(x), {n}::mk(x)] }} }}"); use("copy of a Vec", f"auto l = {Q}::many(2);", "auto m = l", k)
        if drop or r.random() < .6:
            t, k = self.trip(); o.append(f"impl Default for {n} {{ fn default() -> {n} {{ {t} {n}::mk(7) }} }}"); use("default construction", "", f"{Q} c; (void)c", k)
        for m, slf, e in r.sample([("by_ref", "&self", "a.by_ref(2)"), ("by_mut", "&mut self", "a.by_mut(2)"), ("by_val", "self", f"{mv('a')}.by_val(2)"), ("assoc", None, f"{Q}::assoc(2)")], r.randint(1, 4)):
            t, k = self.trip(); o.append(f"impl {n} {{ pub fn {m}({slf + ', ' if slf else ''}x: i64) -> i64 {{ {t} x }} }}"); use("method " + m, a, f"(void){e}", k)
        if r.random() < .5:
            ts = [self.trip() for _ in range(3)]
            o.append(f"pub trait Tr{n} {{ fn a(&self) -> i64; fn b(&mut self, x: i64) -> i64; fn s() -> i64; }}\nimpl Tr{n} for {n} {{ fn a(&self) -> i64 {{ {ts[0][0]} 1 }} fn b(&mut self, x: i64) -> i64 {{ {ts[1][0]} x }} fn s() -> i64 {{ {ts[2][0]} 2 }} }}")
            for (m, arg), (t, k) in zip([("a", "a"), ("b", "a, 4"), ("s", "")], ts): use("trait method", a, f"(void)rs_std::impl<{Q}, lib::Tr{n}>::{m}({arg})", k)
        conv = r.sample(["From", "Into", "Neg", "Add", "AddAssign", "Eq", "PartialOrd", "Ord", "Display", "Index", "IntoIterator", "Iterator", "Not", "Shl"], r.randint(1, 5))
        if "Ord" in conv: conv = [c for c in conv if c not in ("Eq", "PartialOrd")]
        if "PartialOrd" in conv: conv = [c for c in conv if c != "Eq"]
        if "Iterator" in conv: conv = [c for c in conv if c != "IntoIterator"]
        if kind == "tuple": conv = [c for c in conv if c != "From"] or ["Neg"]
        for c in conv:
            t, k = self.trip()
            if c == "From": o.append(f"impl From<i32> for {n} {{ fn from(x: i32) -> {n} {{ {t} {n}::mk(x as i64) }} }}"); use(c, "", f"{Q} c(std::int32_t(3)); (void)c", k)
            elif c == "Into": o.append(f"impl From<{n}> for (i64, bool) {{ fn from(x: {n}) -> (i64, bool) {{ {t} (x.v(), true) }} }}" if False else f"impl From<{n}> for i64 {{ fn from(x: {n}) -> i64 {{ {t} x.v() }} }}"); use(c, a, f"(void)static_cast<std::int64_t>({mv('a')})", k)
            elif c in ("Neg", "Not"): o.append(f"impl core::ops::{c} for {n} {{ type Output = i64; fn {c.lower()}(self) -> i64 {{ {t} 1 }} }}"); use(c, a, f"(void)({'-' if c == 'Neg' else '!'}{mv('a')})", k)
            elif c in ("Add", "Shl"): o.append(f"impl core::ops::{c}<i32> for {n} {{ type Output = i64; fn {c.lower()}(self, x: i32) -> i64 {{ {t} x as i64 }} }}"); use(c, a, f"(void)({mv('a')} {'+' if c == 'Add' else '<<'} std::int32_t(3))", k)
            elif c == "AddAssign": o.append(f"impl core::ops::AddAssign<i32> for {n} {{ fn add_assign(&mut self, x: i32) {{ {t} let _ = x; }} }}"); use(c, a, "a += std::int32_t(3)", k)
            elif c == "Eq": o.append(f"impl PartialEq for {n} {{ fn eq(&self, o: &{n}) -> bool {{ {t} self.v() == o.v() }} }}"); use(c, a + b, "(void)(a == b)", k); use("!=", a + b, "(void)(a != b)", k)
            elif c == "PartialOrd": o.append(f"impl PartialEq for {n} {{ fn eq(&self, o: &{n}) -> bool {{ self.v() == o.v() }} }}\nimpl PartialOrd for {n} {{ fn partial_cmp(&self, o: &{n}) -> Option<core::cmp::Ordering> {{ {t} self.v().partial_cmp(&o.v()) }} }}"); use(c, a + b, "(void)(a < b)", k)
            elif c == "Ord": o.append(f"impl PartialEq for {n} {{ fn eq(&self, o: &{n}) -> bool {{ self.v() == o.v() }} }}\nimpl Eq for {n} {{}}\nimpl PartialOrd for {n} {{ fn partial_cmp(&self, o: &{n}) -> Option<core::cmp::Ordering> {{ Some(self.cmp(o)) }} }}\nimpl Ord for {n} {{ fn cmp(&self, o: &{n}) -> core::cmp::Ordering {{ {t} self.v().cmp(&o.v()) }} }}"); use(c, a + b, "(void)(a <=> b)", k); use("Ord <", a + b, "(void)(a < b)", k)
            elif c == "Display": o.append(f'impl core::fmt::Display for {n} {{ fn fmt(&self, f: &mut core::fmt::Formatter<\'_>) -> core::fmt::Result {{ f.write_str("x")?; {t} f.write_str("y") }} }}'); use("<< to a stream", a + "std::ostringstream os;", "os << a", k); use("AbslStringify", a + "Sink s;", "AbslStringify(s, a)", k)
            elif c == "Index": o.append(f"impl core::ops::Index<usize> for {n} {{ type Output = i64; fn index(&self, i: usize) -> &i64 {{ {t} let _ = i; &5 }} }}"); use(c, a, "(void)a[std::size_t{0}]", k)
            elif c == "Iterator": o.append(f"impl Iterator for {n} {{ type Item = i64; fn next(&mut self) -> Option<i64> {{ {t} None }} }}"); use("next in a loop", a, "for (auto&& x : a) { (void)x; }", k)
            elif c == "IntoIterator":
                t2, k2 = self.trip()
                o.append(f"pub struct It{n}(i64);\nimpl Iterator for It{n} {{ type Item = i64; fn next(&mut self) -> Option<i64> {{ {t} None }} }}\nimpl<'a> IntoIterator for &'a {n} {{ type Item = i64; type IntoIter = It{n}; fn into_iter(self) -> It{n} {{ {t2} It{n}(1) }} }}")
                ca = f"const auto a = {Q}::mk(3);"; use("next in a loop", ca, "for (auto&& x : a) { (void)x; }", k); use("into_iter in a loop", ca, "for (auto&& x : a) { (void)x; }", k2)
        self.add(n, "\n".join(o), cc, kinds | {"type: " + kind, "Copy" if copy else "Drop" if drop else "plain"})


def gen(seed):
    g = G(random.Random(seed))
    for _ in range(6): g.fn()
    for _ in range(5): g.type()
    g.never(); g.callback(); g.future()
    return g.items


def render(items): return topic.render(items, prelude=False, flags=["--default-features=async_fn_send_modulo_regions"], live=False)


def check(ctx):
    base = build.e2e_unwind_base()
    ctx.rule = "a case is one generated function, callback, async function or type with operators, conversions, iteration, clone and drop, built so that panics unwind and C++ has exceptions; every use from C++ is run twice, once with the panic of the Rust code armed; non-trivial: all, distinct by Rust text"
    def classify(items, case, res):
        for i in items:
            if i.id == "Base": continue
            ctx.count(i.cc_main.count("runs(") + i.cc_main.count("ends(") + i.cc_main.count("unwinds("))
            for k in i.kinds: ctx.cls(k)
            ctx.note(i.rust); ctx.sample({"rust": i.rust, "uses": i.cc_main.split("\n")[:4]}, 5)
    n = ctx.n(32, 900)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], gen, render, classify)


def replay(ctx, data):
    res = sweep.run_one(build.e2e_unwind_base(), data["case"])
    if res["ok"] is False: raise runner.Violation(f"stage `{res['stage']}`: {res['detail']}", data)


if __name__ == "__main__":
    sys.exit(runner.main("C17", check, replay))
