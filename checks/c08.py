#!/usr/bin/env python3
"""C08: every legal Rust name gives a usable C++ name."""
import json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, e2e, runner, sweep, topic
from topic import TI

# C++ keywords (https://en.cppreference.com/w/cpp/keyword) which are no keywords of Rust.
KW = """alignas alignof and and_eq asm auto bitand bitor bool case catch char char8_t char16_t char32_t class compl concept consteval constexpr constinit const_cast co_await co_return co_yield decltype default delete
double dynamic_cast explicit export float friend goto inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast requires short signed sizeof
static_assert static_cast switch template this thread_local throw typedef typeid typename union unsigned void volatile wchar_t xor xor_eq""".split()
# Keywords of Rust, as raw identifiers; those which are keywords of C++ as well.
RAW_CC = "break const continue do else enum extern false for if return static struct true typeof virtual while try".split()
RAW = "as fn impl in let loop match mod move mut pub ref trait type unsafe use where dyn async await abstract become box final macro override priv unsized yield gen".split()
RAW_CC.remove("typeof")
# Names with a meaning in generated code, in the C++ library or in context.
CTX = """value bytes self_ thunk result tuple storage Slot slot crubit_ internal StrRef Option_ Vec_ string vector optional span byte move forward swap size_t int32_t uint8_t uintptr_t nullptr_t memcpy offsetof_ decay declval
get data size begin end iterator impl_ override_ final_ import module atomic_ args Args T U E F _ret ret out ptr buffer lib_ mem main printf abs time remove free exit signal index pipe read write open close link
Tag Make make New drop clone default_ eq ne cmp add hash hasher Default Copy Clone Drop Debug From Into Iterator Fn Ordering Result_ Some None_ Ok_ Err_ i32_ str_ char_ usize_ is_same enable_if true_type assume_init Get
unix linux WIN32 sun spirv min max T0 T1 TArg""".split()
UNI = ["größe", "Ω", "名", "été", "переменная", "ñ", "变量1", "Ünï", "\u00e1b", "ﬂ".replace("ﬂ", "fl"), "\u03b1\u03b2"]
ODD = ["_a", "_1", "a_", "aa_", "A_B_C", "x1y2", "lower", "UPPER", "miXed", "z", "Q", "very_" * 12 + "long", "_Abc", "a0", "e1", "u8x", "L0", "R1"]
# Standard macros, escaped only under the feature that says so.
MACROS = """assert errno NULL EOF stdin stdout stderr INT32_MAX INT8_C EINVAL ENOENT CHAR_BIT INT_MAX SIZE_MAX BUFSIZ FLT_MAX DBL_EPSILON HUGE_VAL NAN INFINITY SIGINT SIG_DFL RAND_MAX EXIT_FAILURE EXIT_SUCCESS LC_ALL CLOCKS_PER_SEC
offsetof va_start va_arg va_end setjmp UINT64_MAX PTRDIFF_MAX WCHAR_MAX SEEK_SET L_tmpnam TMP_MAX FILENAME_MAX isnan_ EDOM ERANGE LONG_MIN SHRT_MAX MB_LEN_MAX PRId64 SCNu8 FE_TONEAREST math_errhandling MATH_ERRNO""".split()
SYS = ["<cassert>", "<cerrno>", "<climits>", "<cstdio>", "<cmath>", "<cstdint>", "<csignal>", "<cstdlib>", "<clocale>", "<ctime>", "<cstddef>", "<cstdarg>", "<csetjmp>", "<cfloat>", "<cinttypes>", "<cfenv>", "<cwchar>"]


def rs_of(n): return "r#" + n if n in RAW or n in RAW_CC else n
def cc_of(n, macros=False): return n + "_" if n in KW or n in RAW_CC or (macros and n in MACROS and not n.endswith("_")) else n
def ns_of(n, macros=False):
    return "rs_" + n if n in ("unix", "linux", "WIN32", "WINNT", "WIN64", "spirv", "sun") else cc_of(n, macros)


class G:
    def __init__(self, r):
        self.r, self.n, self.items = r, 0, []
        self.pnames, self.cnames = set(), set()   # a parameter is not named like a constant in scope
        self.macros = r.random() < .25
        self.pool = KW * 2 + RAW_CC * 2 + RAW * 2 + CTX + UNI * 2 + ODD * 2 + (MACROS * 4 if self.macros else [])
        self.crate = r.choice(["lib", "lib", "lib", "remove", "unix", "time", "Upper", "class", "a_b", "free", "delete", "string", "sun"])
        self.space = r.choice([None, None, None, ["a", "b"], ["outer", "remove"], ["x"], ["lib"], ["a", "unix"]])
        self.top = self.space or [self.crate]
        self.taken = {(): set()}
        self.mods = {(): [self.top_ns(i, s) for i, s in enumerate(self.top)]}   # module -> C++ namespaces
        for _ in range(r.choice([1, 2, 3, 4])):
            par = r.choice([m for m in self.mods if len(m) < 3])
            n = self.fresh(par, isns=True)
            self.mods[par + (rs_of(n),)] = self.mods[par] + [ns_of(n, self.macros)]
            self.taken[par + (rs_of(n),)] = set()

    def top_ns(self, i, s):
        if s in ("unix", "linux", "WIN32", "sun", "spirv"): return "rs_" + s
        if i == 0 and s in ("remove", "time", "free", "exit", "abs"): return "rs_" + s
        return cc_of(s)

    def fresh(self, mod, **kw):
        """A name whose C++ form is unused in the module."""
        t = self.taken[mod]
        while True:
            n = self.r.choice(self.pool)
            c = cc_of(n, self.macros)
            # The generator's own namespaces, which it names without qualification.
            if kw.get("isns") and n in ("crubit", "rs_std", "rs", "std", "internal", "self_", "main"): continue
            # Functions of the C library which headers declare at the top level are no problem in a namespace; `main` is no function name.
            if n == "main" and not mod: continue
            if kw.get("const") and n in self.pnames or kw.get("not_") == n: continue
            if c in t or n in t or n + "_" in t or c.rstrip("_") in t: continue
            t.add(c); t.add(n)
            return n

    def id(self): self.n += 1; return f"it{self.n}"
    def mod(self): return self.r.choice(list(self.mods))
    def q(self, mod, n): return "::" + "::".join(self.mods[mod] + [n])

    def pok(self, n): return n not in ("self_", "true", "false", "Some", "None", "Ok", "Err") and n not in self.cnames

    def params(self, k):
        """k parameters with odd names: Rust list, sum expression."""
        ns = []
        seen = set()
        while len(ns) < k:
            n = self.r.choice(self.pool)
            if not self.pok(n) or n in seen: continue
            seen.add(n); ns.append(n)
            # Now and then the escaped form of a keyword as well.
            if cc_of(n, self.macros) != n and len(ns) < k and self.r.random() < .3 and n + "_" not in seen and self.pok(n + "_"): seen.add(n + "_"); ns.append(n + "_")
        self.pnames |= set(ns)
        return ", ".join(f"{rs_of(n)}: u16" for n in ns), " + ".join(f"{i + 1} * {rs_of(n)} as u64" for i, n in enumerate(ns)) or "0"

    def call(self, k):
        vs = [self.r.randint(0, 65535) for _ in range(k)]
        return ", ".join(map(str, vs)), sum((i + 1) * v for i, v in enumerate(vs))

    def fn(self):
        m = self.mod(); n = self.fresh(m); k = self.r.randint(0, 4); ps, e = self.params(k); a, s = self.call(k); c = self.r.randint(0, 999)
        q = self.q(m, cc_of(n, self.macros))
        self.items.append(TI(self.id(), f"pub fn {rs_of(n)}({ps}) -> u64 {{ {e} + {c} }}", m, cc=f'tst::check("{q}", tst::ser({q}({a})), "{s + c}");', kinds={"fn", self.kind(n)}))

    def kind(self, n):
        return "name: " + ("keyword" if n in KW or n in RAW_CC else "raw" if n in RAW else "macro" if n in MACROS else "non-ascii" if not n.isascii() else "in context" if n in CTX else "odd")

    def const(self):
        m = self.mod(); n = self.fresh(m, const=True); self.cnames.add(n); v = self.r.randint(-2**31, 2**31 - 1); q = self.q(m, cc_of(n, self.macros))
        self.items.append(TI(self.id(), f"pub const {rs_of(n)}: i32 = {v};", m, cc=f"static_assert({q} == {v}ll);", kinds={"const", self.kind(n)}))

    def alias(self):
        m = self.mod(); n = self.fresh(m); q = self.q(m, cc_of(n, self.macros))
        self.items.append(TI(self.id(), f"pub type {rs_of(n)} = u16;", m, cc=f"static_assert(std::is_same_v<{q}, std::uint16_t>);", kinds={"alias", self.kind(n)}))

    def members(self, used, k):
        out = []
        while len(out) < k:
            n = self.r.choice(self.pool)
            c = cc_of(n, self.macros)
            if c in used or n in used or n + "_" in used or n in ("self_",): continue
            used |= {c, n}; out.append(n)
        return out

    def struct(self, union=False):
        r = self.r; m = self.mod(); n = self.fresh(m); t = cc_of(n, self.macros); q = self.q(m, t)
        used = {t, n, "make", "mk"}
        fs = self.members(used, r.randint(1, 4)); ms = self.members(used, r.randint(0, 3)); ks = self.members(used, r.randint(0, 2))
        vals = [r.randint(0, 2**32 - 1) for _ in fs]
        R = rs_of(n)
        if union:
            decl = f"#[repr(C)]\npub union {R} {{ " + ", ".join(f"pub {rs_of(f)}: u32" for f in fs) + " }"
            make = f"pub fn mk(x: u32) -> Self {{ Self {{ {rs_of(fs[0])}: x }} }}"; args = str(vals[0]) + "u"; vals = [vals[0]] * len(fs)
        else:
            decl = r.choice(["", "#[repr(C)]\n"]) + f"pub struct {R} {{ " + ", ".join(f"pub {rs_of(f)}: u32" for f in fs) + " }"
            make = f"pub fn mk({', '.join(f'p{i}: u32' for i in range(len(fs)))}) -> Self {{ Self {{ {', '.join(f'{rs_of(f)}: p{i}' for i, f in enumerate(fs))} }} }}"; args = ", ".join(f"{v}u" for v in vals)
        cc = [f"auto s = {q}::mk({args});"] + [f'tst::check("{q}.{f}", tst::ser(s.{cc_of(f, self.macros)}), "{v}");' for f, v in zip(fs, vals)]
        body = [make]
        for f in ms:
            k = r.randint(0, 3); ps, e = self.params(k); a, s = self.call(k); st = r.random() < .4
            body.append(f"pub fn {rs_of(f)}({'' if st else '&self, '}{ps}) -> u64 {{ {e} + 7 }}")
            cc.append(f'tst::check("{q}::{f}", tst::ser({q + "::" if st else "s."}{cc_of(f, self.macros)}({a})), "{s + 7}");')
        for f in ks:
            v = r.randint(0, 10**6); body.append(f"pub const {rs_of(f)}: u32 = {v};"); cc.append(f"static_assert({q}::{cc_of(f, self.macros)} == {v});")
        # Its uses in signatures of other names.
        g = self.fresh(m); p = self.r.choice([x for x in self.pool if self.pok(x)]); self.pnames.add(p)
        body2 = f"pub fn {rs_of(g)}({rs_of(p)}: &{R}) -> u32 {{ unsafe {{ {rs_of(p)}.{rs_of(fs[-1])} }} }}"
        cc.append(f'tst::check("{g}", tst::ser({self.q(m, cc_of(g, self.macros))}(s)), "{vals[-1]}");')
        self.items.append(TI(self.id(), f"{decl}\nimpl {R} {{\n" + "\n".join(body) + f"\n}}\n{body2}", m, cc="{ " + " ".join(cc) + " }", kinds={"union" if union else "struct", self.kind(n)} | {self.kind(f) for f in fs + ms}))

    def union(self): self.struct(True)

    def enum(self):
        r = self.r; m = self.mod(); n = self.fresh(m); q = self.q(m, cc_of(n, self.macros)); R = rs_of(n)
        vs = []
        while len(vs) < r.randint(2, 4):
            v = r.choice(self.pool)
            if v in ("Self",) or any(v == w or cc_of(v) == cc_of(w) for w, _ in vs) or v in ("tag", n): continue
            vs.append((v, r.random() < .5))
        rep = r.choice(["", "", "#[repr(C)]\n", "#[repr(u8)]\n"])
        arms = ", ".join(f"{R}::{rs_of(v)}{'(x)' if p else ''} => {'*x as u32' if p else 1000 + i}" for i, (v, p) in enumerate(vs))
        cc = []
        for i, (v, p) in enumerate(vs):
            x = r.randint(0, 255)
            a, k = (str(x) if p else ""), cc_of(v, self.macros)
            # The function of a keyword variant: `Make` with the name, or with its escaped form.
            e = f"{q}::Make{v}({a})" if k == v else f"[]<class T_>(std::type_identity<T_>) {{ if constexpr (requires {{ T_::Make{k}({a}); }}) return T_::Make{k}({a}); else return T_::Make{v}({a}); }}(std::type_identity<{q}>())"
            cc.append(f'tst::check("{q}::Make{v}", tst::ser({e}.num_()), "{x if p else 1000 + i}");')
        self.items.append(TI(self.id(), f"{rep}pub enum {R} {{ " + ", ".join(f"{rs_of(v)}{'(u8)' if p else ''}" for v, p in vs) + f" }}\nimpl {R} {{ pub fn num_(&self) -> u32 {{ match self {{ {arms} }} }} }}", m, cc=" ".join(cc), kinds={"enum", self.kind(n)} | {self.kind(v) for v, _ in vs}))

    def trait(self):
        r = self.r; m = self.mod(); n = self.fresh(m, not_="impl"); s = self.fresh(m); f = r.choice([x for x in self.pool if x not in ("self_", "impl", "impl_", "kIsImplemented")]); q = self.q(m, cc_of(n, self.macros)); qs = self.q(m, cc_of(s, self.macros))
        k = r.randint(0, 2); ps, e = self.params(k); a, sm = self.call(k)
        self.items.append(TI(self.id(), f"pub trait {rs_of(n)} {{ fn {rs_of(f)}(&self{', ' + ps if ps else ''}) -> u64; }}\npub struct {rs_of(s)} {{ pub v: u32 }}\nimpl {rs_of(s)} {{ pub fn mk(v: u32) -> Self {{ Self {{ v }} }} }}\nimpl {rs_of(n)} for {rs_of(s)} {{ fn {rs_of(f)}(&self{', ' + ps if ps else ''}) -> u64 {{ {e} + self.v as u64 }} }}", m,
                             cc=f'{{ auto s = {qs}::mk(5); tst::check("{q}::{f}", tst::ser({q}::impl<{qs}>::{cc_of(f, self.macros)}(s{", " + a if a else ""})), "{sm + 5}"); }}', kinds={"trait", self.kind(n), self.kind(f)}))

    def renamed(self):
        """Names given by annotation."""
        r = self.r; m = self.mod(); n = self.fresh(m); c = self.fresh(m); c = c if cc_of(c, True) == c and c.isascii() and c not in RAW else self.id() + "_renamed"
        if r.random() < .5:
            v = r.randint(0, 9999)
            self.items.append(TI(self.id(), f'#[doc = "CRUBIT_ANNOTATE: cpp_name={c}"]\npub fn {rs_of(n)}() -> u32 {{ {v} }}', m, cc=f'tst::check("{c}", tst::ser({self.q(m, c)}()), "{v}");', kinds={"cpp_name"}, probes=[(f"(void)sizeof(&{self.q(m, n)});", False)] if n.isascii() and cc_of(n, True) == n and n != c else []))
        else:
            v = r.randint(0, 9999)
            self.items.append(TI(self.id(), f'#[doc = "CRUBIT_ANNOTATE: cpp_name={c}"]\npub struct {rs_of(n)} {{ pub a: u32 }}\nimpl {rs_of(n)} {{ pub fn mk(a: u32) -> Self {{ Self {{ a }} }} }}', m, cc=f'tst::check("{c}", tst::ser({self.q(m, c)}::mk({v}).a), "{v}");', kinds={"cpp_name"}))


def gen(seed):
    g = G(random.Random(seed))
    for _ in range(24): g.r.choice([g.fn, g.fn, g.const, g.alias, g.struct, g.struct, g.union, g.enum, g.enum, g.trait, g.renamed])()
    for i in g.items: i.g = g
    return g.items


def render(items):
    g = items[0].g
    flags = []
    ns = "::".join(g.mods[()])
    case = topic.render(items, name=g.crate, ns="::" + ns, flags=(["--crate-feature=self=supported", "--crate-feature=self=reserve_standard_macros", "--crate-feature=self=experimental"] if g.macros else []), head="#![allow(warnings)]\n#![allow(uncommon_codepoints)]\n")
    if g.space: case["crates"][0]["namespace"] = "::".join(g.space)
    if g.macros: case["main"] = "\n".join(f"#include {h}" for h in SYS) + "\n" + case["main"]
    if g.macros and "probes" in case: case["probes"]["head"] = "\n".join(f"#include {h}" for h in SYS) + "\n" + case["probes"]["head"]
    return case


# Pairs of items whose C++ names coincide: one minimal crate for each known finding.
KNOWN = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"))).get("findings", [])


def known(ctx, base):
    fs = [f for f in KNOWN if f["property"] == ctx.prop]
    case = lambda f: {"crates": [{"name": "lib", "src": "#![allow(warnings)]\n" + f["input"] + "\n", "deps": [], "flags": []}], "main": f.get("main")}
    for f, r in zip(fs, runner.pmap(lambda f: sweep.run_one(base, case(f)), fs)):
        if r["ok"] is False: print(f"KNOWN-FINDING: property={ctx.prop} {f['what']}, e.g. {' '.join(f['input'].split())} [{r['stage']}]")


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one item of a generated crate whose own name and the names of its members, parameters and modules are drawn from C++ keywords, raw identifiers, names of the C++ library and of generated code, macros and non-ASCII names; non-trivial: all, distinct by text"
    def classify(items, case, res):
        for i in items:
            ctx.count(i.cc_main.count("tst::check") + i.cc_main.count("static_assert"))
            for k in i.kinds: ctx.cls(k)
            ctx.note(i.rust); ctx.sample(i.rust, 8)
    n = ctx.n(28, 800)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], gen, render, classify)
    known(ctx, base)


if __name__ == "__main__":
    sys.exit(runner.main("C08", check, sweep.replay_case))
