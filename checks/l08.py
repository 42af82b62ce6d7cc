"""L08: values bridged between Rust and C++ arrive unchanged, are moved exactly once, and stay within their buffer."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import native, runner
from runner import Violation, pmap

CC = r"""
#include "support/bridge.h"
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <bit>
#include <optional>
#include <tuple>
#include <utility>
using namespace crubit;
struct P1 { uint8_t a; uint32_t b; uint16_t c; bool operator==(const P1&) const = default; };
static long live = 0, copies = 0;
// A move-only class: its moved-from value is empty.
struct Trk {
  uint64_t id; uint64_t magic;
  explicit Trk(uint64_t i) : id(i), magic(i ^ 0x5eed) { ++live; }
  Trk(Trk&& o) noexcept : id(o.id), magic(o.magic) { o.id = 0; o.magic = 0x5eed; ++live; }
  Trk& operator=(Trk&& o) noexcept { std::swap(id, o.id); std::swap(magic, o.magic); return *this; }
  ~Trk() { if (magic != (id ^ 0x5eed)) { std::printf("MISMATCH a value which is not alive is destroyed\n"); std::fflush(stdout); std::_Exit(3); } magic = 1; --live; }
};
// A copyable class whose copies are counted.
struct Cnt {
  uint64_t id; uint64_t magic;
  explicit Cnt(uint64_t i) : id(i), magic(i ^ 0xc0de) { ++live; }
  Cnt(const Cnt& o) : id(o.id), magic(o.magic) { ++live; ++copies; }
  Cnt(Cnt&& o) noexcept : id(o.id), magic(o.magic) { o.id = 0; o.magic = 0xc0de; ++live; }
  Cnt& operator=(const Cnt&) = delete;
  ~Cnt() { if (magic != (id ^ 0xc0de)) { std::printf("MISMATCH a value which is not alive is destroyed\n"); std::fflush(stdout); std::_Exit(3); } magic = 1; --live; }
};
static bool same(const Trk& a, const Trk& b) { return a.id == b.id && a.magic == b.magic; }
static bool same(const Cnt& a, const Cnt& b) { return a.id == b.id && a.magic == b.magic; }
static bool same(float a, float b) { return std::bit_cast<uint32_t>(a) == std::bit_cast<uint32_t>(b); }
static bool same(double a, double b) { return std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b); }
template <class T> requires std::is_integral_v<T> || std::is_pointer_v<T> || std::is_same_v<T, P1>
static bool same(const T& a, const T& b) { return a == b; }
template <class A, class B> static bool same(const std::pair<A, B>& a, const std::pair<A, B>& b);
template <class... A> static bool same(const std::tuple<A...>& a, const std::tuple<A...>& b);
template <class A> static bool same(const std::optional<A>& a, const std::optional<A>& b) { return a.has_value() == b.has_value() && (!a || same(*a, *b)); }
template <class A, class B> static bool same(const std::pair<A, B>& a, const std::pair<A, B>& b) { return same(a.first, b.first) && same(a.second, b.second); }
template <class... A> static bool same(const std::tuple<A...>& a, const std::tuple<A...>& b) {
  return [&]<size_t... I>(std::index_sequence<I...>) { return (true && ... && same(std::get<I>(a), std::get<I>(b))); }(std::index_sequence_for<A...>{});
}
struct Buf {
  size_t n, off; unsigned char* base;
  Buf(size_t n, size_t off, unsigned char fill) : n(n), off(off), base((unsigned char*)std::malloc(n + off)) { std::memset(base, fill, n + off); }
  unsigned char* p() { return base + off; }
  void guard(const char* w, unsigned char fill) { for (size_t i = 0; i < off; ++i) if (base[i] != fill) { std::printf("MISMATCH %s: a byte before the buffer was written\n", w); break; } }
  ~Buf() { std::free(base); }
};
#define FAIL(...) (std::printf("MISMATCH " __VA_ARGS__), std::printf("\n"))
template <class Abi, class MkAbi, class MkVal>
static void trip(const char* w, MkAbi abi, MkVal val, size_t rsize, int (*rt)(const unsigned char*, unsigned char*), void (*born)(unsigned char*), long owned, size_t off) {
  long l0 = live, c0 = copies;
  if (Abi::kSize != rsize) { FAIL("%s: C++ says that it takes %zu bytes, Rust %zu", w, Abi::kSize, rsize); return; }
  for (int fill : {0x00, 0xff, 0x5a}) {
    {
      Buf a(Abi::kSize, off, fill), b(Abi::kSize, off ^ 1, fill);
      internal::Encode(abi(), a.p(), val());
      a.guard(w, fill);
      if (live != l0 + owned) FAIL("%s: %ld values are alive once encoded, want %ld", w, live - l0, owned);
      if (int r = rt(a.p(), b.p())) FAIL("%s: what Rust decodes differs (%d)", w, r);
      b.guard(w, fill);
      {
        auto got = internal::Decode(abi(), b.p());
        static_assert(std::is_same_v<decltype(got), typename Abi::Value>);
        if (live != l0 + owned) FAIL("%s: %ld values are alive once decoded, want %ld", w, live - l0, owned);
        auto want = val();
        if (!same(got, want)) FAIL("%s: a value differs after C++ -> Rust -> C++", w);
      }
      if (live != l0) FAIL("%s: %ld values are still alive at the end", w, live - l0);
      if (copies != c0) FAIL("%s: %ld copies were made", w, copies - c0);
    }
    if (born) {
      Buf a(Abi::kSize, off, fill);
      born(a.p());
      a.guard(w, fill);
      live += owned;
      {
        auto got = internal::Decode(abi(), a.p());
        auto want = val();
        if (!same(got, want)) FAIL("%s: a value differs after Rust -> C++", w);
      }
      if (live != l0) FAIL("%s: %ld values are still alive at the end", w, live - l0);
      if (copies != c0) FAIL("%s: %ld copies were made", w, copies - c0);
    }
  }
}
"""
RS = r"""
#![allow(non_camel_case_types, dead_code, unused)]
use bridge_rust::{CrubitAbi, OptionAbi, TransmuteAbi, transmute_abi};
use bridge_rust::internal::{encode, decode};
#[repr(C)] pub struct P1 { a: u8, b: u32, c: u16 }
#[repr(C)] pub struct Trk { id: u64, magic: u64 }
#[repr(C)] pub struct Cnt { id: u64, magic: u64 }
pub struct Opaque(*const u8);
trait Same { fn same(&self, o: &Self) -> bool; }
macro_rules! prim { ($($t:ty)*) => { $(impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } })* } }
prim!(u8 u16 u32 u64 i8 i16 i32 i64 bool usize isize char);
impl Same for f32 { fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() } }
impl Same for f64 { fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() } }
impl Same for *const u8 { fn same(&self, o: &Self) -> bool { *self == *o } }
impl Same for P1 { fn same(&self, o: &Self) -> bool { self.a == o.a && self.b == o.b && self.c == o.c } }
impl Same for Trk { fn same(&self, o: &Self) -> bool { self.id == o.id && self.magic == o.magic } }
impl Same for Cnt { fn same(&self, o: &Self) -> bool { self.id == o.id && self.magic == o.magic } }
impl Same for Opaque { fn same(&self, o: &Self) -> bool { !self.0.is_null() } }
impl<T: Same> Same for Option<T> { fn same(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false } } }
macro_rules! tup { ($($n:ident $i:tt),*) => { impl<$($n: Same),*> Same for ($($n,)*) { fn same(&self, o: &Self) -> bool { true $(&& self.$i.same(&o.$i))* } } } }
tup!(); tup!(A 0); tup!(A 0, B 1); tup!(A 0, B 1, C 2); tup!(A 0, B 1, C 2, D 3); tup!(A 0, B 1, C 2, D 3, E 4); tup!(A 0, B 1, C 2, D 3, E 4, F 5);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6); tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7); tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9); tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10); tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
"""

INTS = {"u8": ("uint8_t", 8, 0), "u16": ("uint16_t", 16, 0), "u32": ("uint32_t", 32, 0), "u64": ("uint64_t", 64, 0),
        "i8": ("int8_t", 8, 1), "i16": ("int16_t", 16, 1), "i32": ("int32_t", 32, 1), "i64": ("int64_t", 64, 1)}
LEAVES = list(INTS) + ["bool", "f32", "f64", "ptr", "P1", "Trk", "Cnt"]


def gen_tree(r, depth, boxes=True):
    k = r.random()
    if depth == 0 or k < 0.25: return ("leaf", r.choice(LEAVES))
    if boxes and k < 0.33: return ("box", gen_tree(r, depth - 1))
    if k < 0.55: return ("opt", gen_tree(r, depth - 1, boxes))
    if k < 0.68: return ("pair", gen_tree(r, depth - 1, boxes), gen_tree(r, depth - 1, boxes))
    n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 12])
    return ("tuple", *[gen_tree(r, depth - 1 if n < 6 else min(1, depth - 1), boxes) for _ in range(n)])


def cxx_leaf(t):
    if t in INTS: return INTS[t][0]
    return {"bool": "bool", "f32": "float", "f64": "double", "ptr": "const unsigned char*"}.get(t, t)


def cxx_val_ty(t):
    k = t[0]
    if k == "leaf": return cxx_leaf(t[1])
    if k == "box": return cxx_val_ty(t[1])
    if k == "opt": return f"std::optional<{cxx_val_ty(t[1])}>"
    return ("std::pair<" if k == "pair" else "std::tuple<") + ", ".join(map(cxx_val_ty, t[1:])) + ">"


def cxx_abi(t):
    k = t[0]
    if k == "leaf": return f"TransmuteAbi<{cxx_leaf(t[1])}>"
    if k == "box": return f"BoxedAbi<{cxx_val_ty(t[1])}>"
    return {"opt": "OptionAbi<", "pair": "PairAbi<", "tuple": "TupleAbi<"}[k] + ", ".join(map(cxx_abi, t[1:])) + ">"


def cxx_abi_expr(t):
    k, a = t[0], cxx_abi(t)
    if k in ("leaf", "box"): return a + "()"
    xs = ", ".join(map(cxx_abi_expr, t[1:]))
    if k == "opt": return f"{a}({xs})"
    if k == "pair": return f"{a}({xs})"
    # As the generated headers spell it.
    return f"{a}(std::tuple({xs}))" if len(t) > 2 or (len(t) == 2 and t[1][0] != "tuple") else f"{a}({{std::tuple<{', '.join(map(cxx_abi, t[1:]))}>({xs})}})"


def rs_leaf(t):
    return {"ptr": "*const u8"}.get(t, t)


def rs_abi(t):
    k = t[0]
    if k == "leaf": return f"TransmuteAbi<{rs_leaf(t[1])}>"
    if k == "box": return "TransmuteAbi<Opaque>"
    if k == "opt": return f"OptionAbi<{rs_abi(t[1])}>"
    return "(" + "".join(rs_abi(x) + ", " for x in t[1:]) + ")"


def rs_abi_expr(t):
    k = t[0]
    if k in ("leaf", "box"): return "transmute_abi()"
    if k == "opt": return f"OptionAbi({rs_abi_expr(t[1])})"
    return "(" + "".join(rs_abi_expr(x) + ", " for x in t[1:]) + ")"


def value(r, t, inbox=False):
    """-> (C++ expression, Rust expression, number of counted values, of them not in boxes)"""
    k = t[0]
    if k == "leaf":
        n = t[1]
        if n in INTS:
            c, b, s = INTS[n]
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
            v = r.choice([lo, hi, 0, 1, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi)])
            u = v & ((1 << b) - 1)
            return f"({c})UINT64_C({u})", f"({u}u{b} as {n})", 0
        if n == "bool":
            v = r.choice(["true", "false"]); return v, v, 0
        if n == "f32":
            u = r.choice([0, 0x80000000, 0x7f800000, 0x7fc00001, r.getrandbits(32) & 0xff7fffff]); return f"std::bit_cast<float>(uint32_t({u}u))", f"f32::from_bits({u}u32)", 0
        if n == "f64":
            u = r.choice([0, 1 << 63, 0x7ff8000000000001, r.getrandbits(64) & ~(1 << 52)]); return f"std::bit_cast<double>(UINT64_C({u}))", f"f64::from_bits({u}u64)", 0
        if n == "ptr":
            u = r.getrandbits(40); return f"reinterpret_cast<const unsigned char*>(UINT64_C({u}))", f"({u}usize as *const u8)", 0
        if n == "P1":
            a, b, c = r.getrandbits(8), r.getrandbits(32), r.getrandbits(16); return f"P1{{{a}, {b}u, {c}}}", f"P1 {{ a: {a}, b: {b}, c: {c} }}", 0
        u = r.getrandbits(63) | 1
        x = 0x5eed if n == "Trk" else 0xc0de
        return f"{n}(UINT64_C({u}))", f"{n} {{ id: {u}, magic: {u ^ x} }}", 1
    if k == "box":
        c, _, o = value(r, t[1]); return c, "Opaque(core::ptr::null())", o
    if k == "opt":
        if r.random() < 0.35: return f"{cxx_val_ty(t)}(std::nullopt)", "None", 0
        c, x, o = value(r, t[1]); return f"{cxx_val_ty(t)}(std::in_place, {c})", f"Some({x})", o
    vs = [value(r, x) for x in t[1:]]
    if k == "tuple" and not vs: return "std::tuple<>()", "()", 0
    cc = f"{cxx_val_ty(t)}(" + ", ".join(v[0] for v in vs) + ")"
    return cc, "(" + "".join(v[1] + ", " for v in vs) + ")", sum(v[2] for v in vs)


def has(t, kind):
    return t[0] == kind or any(has(x, kind) for x in t[1:] if isinstance(x, tuple))


def bad1(t):
    """std::tuple<std::tuple<..>> can't be made from one argument without ambiguity."""
    return (t[0] == "tuple" and len(t) == 2 and t[1][0] in ("tuple", "pair", "opt")) or any(bad1(x) for x in t[1:] if isinstance(x, tuple))


def render(cases):
    cc, rs, main = [CC], [RS], []
    for name, t, vals in cases:
        rs.append(f'#[no_mangle] pub extern "C" fn {name}_size() -> usize {{ <{rs_abi(t)} as CrubitAbi>::SIZE }}')
        cc.append(f'extern "C" size_t {name}_size();')
        for j, (c, x, owned, off) in enumerate(vals):
            f = f"{name}_{j}"
            rs.append(f"""#[no_mangle] pub unsafe extern "C" fn {f}(i: *const u8, o: *mut u8) -> i32 {{
  let v = decode::<{rs_abi(t)}>({rs_abi_expr(t)}, i); let w: <{rs_abi(t)} as CrubitAbi>::Value = {x};
  let ok = v.same(&w); encode::<{rs_abi(t)}>({rs_abi_expr(t)}, o, v); if ok {{ 0 }} else {{ 1 }} }}""")
            cc.append(f'extern "C" int {f}(const unsigned char*, unsigned char*);')
            born = "nullptr"
            if not has(t, "box"):
                born = f + "b"
                rs.append(f'#[no_mangle] pub unsafe extern "C" fn {f}b(o: *mut u8) {{ encode::<{rs_abi(t)}>({rs_abi_expr(t)}, o, {x}) }}')
                cc.append(f'extern "C" void {f}b(unsigned char*);')
            main.append(f'  trip<{cxx_abi(t)}>("{f}", [] {{ return {cxx_abi_expr(t)}; }}, [] {{ return {c}; }}, {name}_size(), {f}, {born}, {owned}, {off});')
    cc.append("int main() {\n" + "\n".join(main) + '\n  std::printf("DONE\\n");\n}\n')
    return {"files": {"main.cc": "\n".join(cc), "rs.rs": "\n".join(rs)}, "cxx": ["main.cc"], "rust": "rs.rs"}


def gen(r, n, nvals):
    out = []
    while len(out) < n:
        t = gen_tree(r, r.choice([1, 2, 2, 3, 3]))
        if bad1(t) or len(str(t)) > 1500: continue
        out.append((f"t{len(out)}", t, [(*value(r, t), r.choice([0, 1, 3, 7])) for _ in range(nvals)]))
    return out


def fixed(r, nvals):
    """Every leaf alone, in an option and in a box."""
    ts = [("leaf", l) for l in LEAVES]
    ts += [("opt", t) for t in ts] + [("box", t) for t in ts] + [("tuple",), ("opt", ("tuple",)), ("opt", ("opt", ("leaf", "Trk"))), ("tuple", *[("leaf", l) for l in LEAVES[:12]])]
    return [(f"f{i}", t, [(*value(r, t), r.choice([0, 1, 3, 7])) for _ in range(nvals)]) for i, t in enumerate(ts)]


def check(ctx):
    ctx.rule = ("a case is an ABI type tree (transmuted integers, floats, pointers, padded structs, move-only and copy-counting classes under tuples, pairs, options and boxes) with a value; "
                "non-trivial: the tree has at least two levels; cases are told apart by tree and value")
    batches = [fixed(ctx.rng("fixed"), 5)]
    batches += [gen(ctx.rng("t", k), 22, 5) for k in range(ctx.n(7, 120))]
    def one(cs): return cs, native.run_unit(render(cs))
    for cs, (stage, ok, text) in pmap(one, batches, ctx.jobs):
        if ok is None: raise native.build.BuildError(f"{stage}: {text}")
        if not ok:
            best, bt = cs, (stage, text)
            singles = [[(n, t, [v])] for n, t, vs in cs for v in vs if f"{n}_" in text] or [[c] for c in cs]
            for s, (st, o, tx) in pmap(one, singles[:40], ctx.jobs):
                if o is False and len(str(s)) < len(str(best)): best, bt = s, (st, tx)
            raise Violation(f"{[(t, v) for _, t, v in best][:3]}: stage `{bt[0]}`: {bt[1]}", {"unit": render(best), "detail": bt[1][:3000]})
        for n, t, vs in cs:
            for v in vs:
                ctx.count()
                ctx.cls("top: " + (t[1] if t[0] == "leaf" else t[0]))
                if t[0] != "leaf": ctx.note(cxx_abi(t) + v[0])
            ctx.sample(f"{cxx_abi(t)} = {vs[0][0]}")


def replay(ctx, rep):
    native.must(rep["unit"], "replay", rep)


if __name__ == "__main__":
    sys.exit(runner.main("L08", check, replay))
