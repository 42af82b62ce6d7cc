#!/usr/bin/env python3
"""C13: a call which would give Rust an aliased mutable reference ends the process; every other call goes ahead."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, sweep, topic
from topic import TI

NS, NI, NB, NN, NC = 3, 2, 16, 6, 2
M64 = 2**64


def leaves_s(i): return [("s", i, "a")] + [("s", i, "b", k) for k in range(8)] + leaves_in(("s", i, "c")) + [("s", i, "q")]
def leaves_in(p): return [(*p, "x"), (*p, "y")]
def init():
    v, n = {}, 0
    for i in range(NS):
        for l in leaves_s(i): v[l] = n = n + 3
    for j in range(NI):
        for l in leaves_in(("in", j)): v[l] = n = n + 3
    for k in range(NB): v[("b", k)] = 65 + k
    for k in range(NN): v[("n", k)] = n = n + 3
    for k in range(NC): v[("cell", k)] = n = n + 3
    for l in v:
        if "b" in l: v[l] %= 120
    return v


WIDTH = {"a": (32, 1), "q": (32, 1), "x": (16, 0), "y": (64, 0)}
def wrap(l, x):
    w, s = (8, 0) if "b" in l else (32, 1) if l[0] in ("n", "cell") else WIDTH[l[-1]]
    x %= 2**w
    return x - 2**w if s and x >= 2**(w - 1) else x
def place(l):
    if l[0] == "s": return f"A.s[{l[1]}]." + (f"b[{l[3]}]" if l[2] == "b" else ".".join(l[2:]))
    if l[0] == "in": return f"A.in[{l[1]}].{l[2]}"
    if l[0] == "cell": return f"A.c[{l[1]}].get()"
    return f"A.{l[0]}[{l[1]}]"


class V:
    """An argument: C++ expression, bytes it covers, leaf values which Rust sums, leaves it changes if it is mutable."""
    def __init__(self, e, cover, read, write, add=0): self.e, self.cover, self.read, self.write, self.add = e, set(cover), read, write, add


def arg_S(r): i = r.randrange(NS); return V(f"A.s[{i}]", leaves_s(i), [("s", i, "a")], [("s", i, "a")])
def arg_In(r):
    if r.random() < .6: i = r.randrange(NS); p = ("s", i, "c"); e = f"A.s[{i}].c"
    else: i = r.randrange(NI); p = ("in", i); e = f"A.in[{i}]"
    return V(e, leaves_in(p), [(*p, "y")], [(*p, "y")])
def arg_i32(r):
    k = r.randint(0, 2); i = r.randrange(NS)
    l = ("s", i, "a") if k == 0 else ("s", i, "q") if k == 1 else ("n", r.randrange(NN))
    return V(place(l), [l], [l], [l])
def sub(f):
    def g(r):
        if r.random() < .6: p = ("s", r.randrange(NS), "c")
        else: p = ("in", r.randrange(NI))
        l = (*p, f); return V(place(l), [l], [l], [l])
    return g
def arg_arr(r): i = r.randrange(NS); c = [("s", i, "b", k) for k in range(8)]; return V(f"A.s[{i}].b", c, [c[0]], [c[3]])
def span(r, n):
    k = r.random()
    if k < .2: a = r.randint(0, n); return a, 0
    a = r.randrange(n); return a, (r.randint(1, n - a) if k < .7 else min(n - a, r.choice([1, 2])))
def byteslice(mk):
    def g(r):
        if r.random() < .5: a, n = span(r, NB); c = [("b", a + k) for k in range(n)]; e = f"A.b + {a}"
        else: i = r.randrange(NS); a, n = span(r, 8); c = [("s", i, "b", a + k) for k in range(n)]; e = f"A.s[{i}].b.data() + {a}"
        return V(mk(e, n), c, c[:1], c, 100 * n)
    return g
def slice_of(T, arr, tot, leaf, cov):
    def g(r): a, n = span(r, tot); return V(f"rs_std::SliceRef<@{T}>(A.{arr} + {a}, {n})", [l for k in range(n) for l in cov(a + k)], [leaf(a)] if n else [], [leaf(a + k) for k in range(n)], 100 * n)
    return g
def arg_C(r): i = r.randrange(NC); return V(f"A.c[{i}]", [("cell", i)], [("cell", i)], [("cell", i)])


# name: (Rust referent, argument, Rust read of `p`, Rust write to `p`, exempt when shared)
KINDS = {
    "S": ("crate::S", arg_S, "p.a as u64", "p.a = p.a.wrapping_add(7)", False),
    "In": ("crate::In", arg_In, "p.y", "p.y = p.y.wrapping_add(7)", False),
    "i32": ("i32", arg_i32, "*p as u64", "*p = p.wrapping_add(7)", False),
    "u16": ("u16", sub("x"), "*p as u64", "*p = p.wrapping_add(7)", False),
    "u64": ("u64", sub("y"), "*p", "*p = p.wrapping_add(7)", False),
    "[u8; 8]": ("[u8; 8]", arg_arr, "p[0] as u64", "p[3] = p[3].wrapping_add(7)", False),
    "[u8]": ("[u8]", byteslice(lambda e, n: f"rs_std::SliceRef<@std::uint8_t>({e}, {n})"), "p.len() as u64 * 100 + p.first().map_or(0, |x| *x as u64)", "for x in p.iter_mut() { *x = x.wrapping_add(7) }", False),
    "[i32]": ("[i32]", slice_of("std::int32_t", "n", NN, lambda k: ("n", k), lambda k: [("n", k)]), "p.len() as u64 * 100 + p.first().map_or(0, |x| *x as u64)", "for x in p.iter_mut() { *x = x.wrapping_add(7) }", False),
    "[S]": ("[crate::S]", slice_of("lib::S", "s", NS, lambda k: ("s", k, "a"), leaves_s), "p.len() as u64 * 100 + p.first().map_or(0, |x| x.a as u64)", "for x in p.iter_mut() { x.a = x.a.wrapping_add(7) }", False),
    "str": ("str", byteslice(lambda e, n: f"rs_std::StrRef::FromUtf8Unchecked(std::string_view(reinterpret_cast<const char*>({e}), {n}))"), "p.len() as u64 * 100 + p.bytes().next().map_or(0, |x| x as u64)", None, False),
    "C": ("crate::C", arg_C, "p.get() as u64", "p.set(p.get().wrapping_add(7))", True),
    "[C]": ("[crate::C]", slice_of("lib::C", "c", NC, lambda k: ("cell", k), lambda k: [("cell", k)]), "p.len() as u64 * 100 + p.first().map_or(0, |x| x.get() as u64)", "for x in p.iter_mut() { x.set(x.get().wrapping_add(7)) }", True),
}
# What is never checked: by value or behind raw pointers.
PLAIN = {
    "S by value": ("crate::S", lambda r: (lambda v: V(v.e, v.cover, v.read, []))(arg_S(r)), "p.a as u64"),
    "i32 by value": ("i32", lambda r: (lambda v: V(v.e, v.cover, v.read, []))(arg_i32(r)), "p as u64"),
    "*const S": ("*const crate::S", lambda r: (lambda v: V("&" + v.e, v.cover, v.read, []))(arg_S(r)), "unsafe { (*p).a as u64 }"),
    "*mut i32": ("*mut i32", lambda r: (lambda v: V("&" + v.e, v.cover, v.read, []))(arg_i32(r)), "unsafe { *p as u64 }"),
}

BASE = TI("Base", """#[repr(C)] #[derive(Clone, Copy)] pub struct In { pub x: u16, pub y: u64 }
#[repr(C)] #[derive(Clone, Copy)] pub struct S { pub a: i32, pub b: [u8; 8], pub c: In, pub q: i32 }
pub struct C { v: std::cell::Cell<i32>, w: u64 }
impl In { pub fn mk(x: u16, y: u64) -> In { In { x, y } } }
impl S { pub fn mk(a: i32, b: [u8; 8], c: In, q: i32) -> S { S { a, b, c, q } } }
impl C { pub fn mk(x: i32) -> C { C { v: std::cell::Cell::new(x), w: 5 } } pub fn get(&self) -> i32 { self.v.get() } fn set(&self, x: i32) { self.v.set(x) } }""", cc_decl="@ARENA", kinds={"base"})


def arena():
    v = init()
    inn = lambda p: f"lib::In::mk({v[(*p, 'x')]}, {v[(*p, 'y')]}u)"
    s = lambda i: f"lib::S::mk({v[('s', i, 'a')]}, std::array<std::uint8_t, 8>{{{', '.join(str(v[('s', i, 'b', k)]) for k in range(8))}}}, {inn(('s', i, 'c'))}, {v[('s', i, 'q')]})"
    dump = 'inline std::string dump(A_& A) { std::string o; ' + " ".join(f'o += std::to_string({place(l)}) + ",";' for l in v) + " return o; }"
    return f"""#include <array>
#include <sys/mman.h>
struct A_ {{ lib::S s[{NS}] = {{{', '.join(s(i) for i in range(NS))}}}; lib::In in[{NI}] = {{{', '.join(inn(('in', j)) for j in range(NI))}}}; std::uint8_t b[{NB}] = {{{', '.join(str(v[('b', k)]) for k in range(NB))}}};
  std::int32_t n[{NN}] = {{{', '.join(str(v[('n', k)]) for k in range(NN))}}}; lib::C c[{NC}] = {{{', '.join(f"lib::C::mk({v[('cell', k)]})" for k in range(NC))}}}; }};
{dump}
static std::uint32_t* flag = static_cast<std::uint32_t*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
template <class F> void dies(const char* what, F f) {{ A_ A; *flag = 0; bool d = tst::died([&] {{ f(A); }}); if (!d) tst::check_true(what, false); else if (*flag) {{ printf("MISMATCH c++ Rust was entered: "); tst::check_true(what, false); }} }}
template <class F> void runs(const char* what, std::uint64_t r, const char* after, F f) {{ A_ A; *flag = 0; std::uint64_t g = f(A); if (g != r || *flag != 1) {{ printf("MISMATCH c++ %s: returned %llu, want %llu (entered %u)\\n", what, (unsigned long long)g, (unsigned long long)r, *flag); fflush(stdout); }} tst::check(what, dump(A), after); }}"""


class G:
    def __init__(self, r): self.r, self.n, self.items = r, 0, [BASE]

    def params(self, self_kind):
        """[(role, kind)]: role m (mutable reference), s (shared), n (neither)."""
        r = self.r; out = [self_kind] if self_kind else []
        hot = r.choice([["S", "In", "i32"], ["S", "[S]", "[u8]", "[u8; 8]"], ["i32", "[i32]"], ["str", "[u8]", "S"], ["C", "[C]"], ["u16", "u64", "In"], list(KINDS)])
        for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 7]) + (0 if self_kind else 1)):
            if r.random() < .15: out.append(("n", r.choice(list(PLAIN)))); continue
            k = r.choice(hot) if r.random() < .8 else r.choice(list(KINDS))
            out.append(("s" if k == "str" or r.random() < .55 else "m", k))
        return out

    def fn(self):
        r = self.r; self.n += 1; n = f"f{self.n}"; how = r.choice(["free", "free", "method", "method", "trait", "module"])
        me = None
        if how in ("method", "trait"):
            T = r.choice(["S", "S", "In", "C"]); role = r.choice(["m", "m", "s", "n"]) if T == "S" else r.choice(["m", "s"])
            me = ("n", "S by value") if role == "n" else (role, T)
        ps = self.params(me); ps_f = list(enumerate(ps))
        ty = lambda ro, k: PLAIN[k][0] if ro == "n" else ("&" if ro == "s" else "&mut ") + KINDS[k][0]
        dec, reads, writes = ["fl: *mut u32"], [], []
        for i, (ro, k) in ps_f:
            nm = f"p{i}"
            if i == 0 and me: nm = "self"; dec.insert(0, {"m": "&mut self", "s": "&self", "n": "self"}[ro])
            else: dec.append(f"{nm}: {ty(ro, k)}")
            rd = PLAIN[k][2] if ro == "n" else KINDS[k][2]
            reads.append(f"{{ let p = {'&' if ro == 'm' and False else ''}{'&*' if ro == 'm' else ''}{nm}; h = h.wrapping_mul(31).wrapping_add({rd}); }}")
            if ro == "m": writes.append(f"{{ let p = {'&mut *'}{nm}; {KINDS[k][3]}; }}")
        sig = f"fn {n}({', '.join(dec)}) -> u64"; body = f"{{ unsafe {{ *fl += 1; }} let mut h = 0u64; {' '.join(reads)} {' '.join(writes)} h }}"
        T = me and KINDS.get(me[1], ("crate::S",))[0].split("::")[1]
        if how == "trait":
            rust = f"pub trait Tr{n} {{ {sig}; }}\nimpl Tr{n} for crate::{T} {{ {sig} {body} }}"; call = lambda a: f"rs_std::impl<lib::{T}, lib::Tr{n}>::{n}({', '.join([a[0], 'flag', *a[1:]])})"
        elif how == "method": rust = f"impl crate::{T} {{ pub {sig} {body} }}"; call = lambda a: f"{a[0]}.{n}({', '.join(['flag', *a[1:]])})"
        else: rust = f"pub {sig} {body}"; call = lambda a: f"lib::{'m::' if how == 'module' else ''}{n}({', '.join(['flag', *a])})"
        cc, kinds, aborts = [], {how, f"{len([p for p in ps if p[0] != 'n'])} references"}, 0
        for _ in range(10):
            vs = [(PLAIN[k] if ro == "n" else KINDS[k])[1](r) for ro, k in ps]
            if r.random() < .5:   # few overlaps
                for _ in range(20):
                    j = self.clash(ps, vs)
                    if j is None: break
                    ro, k = ps[j]; vs[j] = (PLAIN[k] if ro == "n" else KINDS[k])[1](r)
            es = [v.e.replace("@", "" if ro == "m" else "const ") for (ro, _), v in zip(ps, vs)]
            what = call(es).replace('"', "'")
            if self.clash(ps, vs) is not None:
                aborts += 1; cc.append(f'dies("{what} has to end the process", [](A_& A) {{ (void)({call(es)}); }});')
            else:
                val = init(); h = 0
                for v in vs: h = (h * 31 + v.add * (1 if v.read or not v.add else 1) + sum(val[l] % M64 for l in v.read)) % M64
                for (ro, _), v in zip(ps, vs):
                    if ro == "m":
                        for l in v.write: val[l] = wrap(l, val[l] + 7)
                cc.append(f'runs("{what}", {h}u, "{"".join(f"{val[l]}," for l in val)}", [](A_& A) {{ return {call(es)}; }});')
        if aborts: kinds.add("ends the process")
        if aborts < 10: kinds.add("runs")
        for ro, k in ps: kinds.add({"m": "&mut ", "s": "&", "n": ""}[ro] + k)
        self.items.append(TI(n, rust, ("m",) if how == "module" else (), deps=["Base"], cc="\n".join(cc), kinds=kinds))

    def clash(self, ps, vs):
        """An argument which overlaps with a mutable reference, or None."""
        for i, (ro, k) in enumerate(ps):
            if ro != "m": continue
            for j, (ro2, k2) in enumerate(ps):
                if j == i or ro2 == "n" or (ro2 == "s" and KINDS[k2][4]): continue
                if vs[i].cover & vs[j].cover: return j
        return None


def gen(seed):
    g = G(random.Random(seed))
    for _ in range(12): g.fn()
    return g.items


def render(items):
    for i in items:
        if i.id == "Base": i.cc_decl = arena()
    return topic.render(items, extra_inc=["#include <array>", "#include <string>"])


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one generated function or method with up to eight parameters, and ten calls of it with arguments which overlap or do not overlap; non-trivial: at least two references one of which is mutable, distinct by signature and arguments"
    def classify(items, case, res):
        for i in items:
            if i.id == "Base": continue
            ctx.count(10)
            for k in i.kinds: ctx.cls(k)
            if any(k.startswith("&mut") for k in i.kinds): ctx.note(i.rust + i.cc_main); ctx.sample({"rust": i.rust, "calls": i.cc_main.split("\n")[:3]}, 5)
    n = ctx.n(30, 800)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], gen, render, classify)


if __name__ == "__main__":
    sys.exit(runner.main("C13", check, sweep.replay_case))
