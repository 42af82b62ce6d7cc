#!/usr/bin/env python3
"""C15: types, traits and items of other bound crates keep their identity, values and ownership across crates."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, sweep, topic
from topic import TI
from gen_core import order
from model import PRELUDE_CC, PRELUDE_RS

NAMES = ["alpha", "beta", "lib"]


def w64(v): return (v + 2**63) % 2**64 - 2**63
def i64(v): return "(-9223372036854775807ll - 1)" if v == -2**63 else f"{v}ll"
def rl(v): return f"({v}i64)"


class G:
    def __init__(self, r):
        self.r, self.n, self.items, self.types, self.traits = r, 0, [], [], []
        self.ns = [r.choice([None, "a_ns", "outer::inner", "shared::one"]), r.choice([None, None, "b_ns", "shared::two"]), r.choice([None, None, "shared", "l::i::b"])]
        if r.random() < .15: self.ns = ["shared", "shared", r.choice([None, "shared"])]   # one namespace for several crates
        self.chain = r.random() < .8   # beta depends on alpha
        self.mods = [[()], [()], [()]]
        for c in range(3):
            for k in range(r.choice([0, 1, 2])): self.mods[c].append(r.choice([m for m in self.mods[c] if len(m) < 2]) + (f"m{c}{k}" if r.random() < .7 or self.ns[0] == "shared" else f"m{k}",))

    def deps(self, c): return [[], [0] if self.chain else [], [0, 1]][c]
    def nsof(self, c): return self.ns[c] or NAMES[c]
    def name(self, p): self.n += 1; return f"{p}{self.n}"
    def q(self, c, mod, n): return "::".join([self.nsof(c), *mod, n])

    def see(self, c): return [t for t in self.types if t["c"] == c or t["c"] in self.deps(c)]

    def path(self, t, c):
        """How crate `c` names `t` in Rust."""
        ps = [(t["c"], t["mod"], t["n"], None)] + [p for p in t["paths"]]
        ps = [p for p in ps if p[0] == c or p[0] in self.deps(c)]
        k, mod, n, item = self.r.choice(ps)
        return "::".join(["crate" if k == c else NAMES[k], *mod, n]), [item] if item else []

    def leaf(self, c):
        r = self.r; n = self.name("T"); mod = r.choice(self.mods[c]); q = self.q(c, mod, n)
        copy = r.random() < .5; kind = r.choice(["struct", "tuple", "enum", "repr_c", "niche"])
        drv = "#[derive(Clone, Copy, PartialEq)]\n" if copy else "#[derive(Clone)]\n"; tk = "u8" if copy else "crate::hid::Tok"; tv = "3" if copy else "crate::hid::Tok::new()"
        if kind in ("struct", "repr_c"): d = f"{drv}{'#[repr(C)] ' if kind == 'repr_c' else ''}pub struct {n} {{ pub x: i64, t: {tk} }}"; mk, val, ok = f"{n} {{ x, t: {tv} }}", "self.x", "self.t.ok()"
        elif kind == "tuple": d = f"{drv}pub struct {n}(pub i64, {tk});"; mk, val, ok = f"{n}(x, {tv})", "self.0", "self.1.ok()"
        elif kind == "niche": d = f"{drv}pub struct {n} {{ b: bool, x: i64, t: {tk} }}"; mk, val, ok = f"{n} {{ b: x > 3, x, t: {tv} }}", "self.x", "self.t.ok() && self.b == (self.x > 3)"
        else: d = f"{drv}pub enum {n} {{ A(i64, {tk}), B }}"; mk, val, ok = f"if x == 77 {{ {n}::B }} else {{ {n}::A(x, {tv}) }}", f"match self {{ {n}::A(x, _) => *x, {n}::B => 77 }}", f"match self {{ {n}::A(_, t) => t.ok(), {n}::B => true }}"
        o = d + f"\nimpl {n} {{ pub const ID: u16 = {self.n}; pub fn mk(x: i64) -> {n} {{ {mk} }} pub fn val(&self) -> i64 {{ " + ("" if copy else f"if !({ok}) {{ crate::hid::bad(\"dead {n}\") }} ") + f"{val} }} pub fn set(&mut self, x: i64) {{ *self = {n}::mk(x); }} }}"
        if not copy: o += f"\nimpl Default for {n} {{ fn default() -> {n} {{ {n}::mk(-11) }} }}"
        t = dict(n=n, c=c, mod=mod, q=q, copy=copy, id=n, paths=[], parts=None)
        self.types.append(t)
        cc = "{ " + f'auto a = {q}::mk({i64(5)}); tst::check_true("own value of {n}", a.val() == 5 && {q}::ID == {self.n}); ' + "}"
        self.items.append(TI(n, o, mod, cc_decl=f"template <> struct tst::Ser<{q}> {{ static std::string s(const {q}& v) {{ return \"{n}:\" + std::to_string(v.val()); }} }};", cc=cc, kinds={"type", kind, "Copy" if copy else "with drop glue", f"crate {c}"}, crate=c))
        return t

    def composite(self, c):
        """A struct of crate `c` with public fields of types of any crate it sees."""
        r = self.r; n = self.name("H"); mod = r.choice(self.mods[c]); q = self.q(c, mod, n)
        fs, deps = [], set()
        for k in range(r.randint(1, 4)):
            t = r.choice(self.see(c)); p, d = self.path(t, c); deps |= {t["id"], *d}
            fs.append((f"f{k}", t, r.choice(["", "", "Option", "Vec", "arr", "tup", "Result"]), p))
        def rty(t, w, p): return {"": p, "Option": f"Option<{p}>", "Vec": f"Vec<{p}>", "arr": f"[{p}; 2]", "tup": f"({p}, u8)", "Result": f"Result<{p}, u8>"}[w]
        def rmk(t, w, p, k): return {"": f"{p}::mk(x.wrapping_add({k}))", "Option": f"if x % 2 == 0 {{ Some({p}::mk(x.wrapping_add({k}))) }} else {{ None }}", "Vec": f"(0..x.rem_euclid(4)).map(|i| {p}::mk(i.wrapping_mul({k + 3}))).collect()",
                                     "arr": f"[{p}::mk(x), {p}::mk({k})]", "tup": f"({p}::mk(x.wrapping_sub({k})), {k})", "Result": f"if x % 3 == 0 {{ Ok({p}::mk(x.wrapping_add({k}))) }} else {{ Err({k}) }}"}[w]
        def want(t, w, k, x):
            s = lambda v: f"{t['n']}:{w64(v)}"
            return {"": lambda: s(x + k), "Option": lambda: f"S({s(x + k)})" if x % 2 == 0 else "N", "Vec": lambda: "[" + ",".join(s(i * (k + 3)) for i in range(x % 4)) + "]", "arr": lambda: f"[{s(x)},{s(k)}]", "tup": lambda: f"({s(x - k)},{k})", "Result": lambda: f"O({s(x + k)})" if x % 3 == 0 else f"E({k})"}[w]()
        o = f"#[derive(Clone)] pub struct {n} {{ {', '.join(f'pub {f}: {rty(t, w, p)}' for f, t, w, p in fs)} }}\nimpl {n} {{ pub fn mk(x: i64) -> {n} {{ {n} {{ {', '.join(f'{f}: {rmk(t, w, p, k)}' for k, (f, t, w, p) in enumerate(fs))} }} }} }}\nimpl Default for {n} {{ fn default() -> {n} {{ {n}::mk(-11) }} }}"
        cc = []
        for x in [r.randint(-2**63, 2**63 - 1), r.randint(-20, 20), 0]:
            cc.append("{ " + f"auto a = {q}::mk({i64(x)}); " + " ".join(f'tst::check("{n}::{f} of {x}", tst::ser({self.rd(w, f"a.{f}")}), "{want(t, w, k, x)}");' for k, (f, t, w, p) in enumerate(fs)) + " auto b = std::move(a); " + " ".join(f'tst::check("moved {n}::{f} of {x}", tst::ser({self.rd(w, f"b.{f}")}), "{want(t, w, k, x)}");' for k, (f, t, w, p) in enumerate(fs)) + " a = b; " + " ".join(f'tst::check("copied {n}::{f} of {x}", tst::ser({self.rd(w, f"a.{f}")}), "{want(t, w, k, x)}");' for k, (f, t, w, p) in enumerate(fs)) + " }")
        for f, t, w, p in fs:
            if w == "": cc.append(f"static_assert(std::is_same_v<decltype({q}::{f}), {t['q']}>);")
        self.items.append(TI(n, o, mod, deps=sorted(deps), cc="\n".join(cc), kinds={"fields of " + ("the same crate" if t["c"] == c else "another crate") for f, t, w, p in fs} | {"field " + (w or "value") for f, t, w, p in fs}, crate=c))

    def rd(self, w, e): return e

    def reexport(self, c):
        r = self.r; ts = [t for t in self.see(c) if t["c"] != c]
        if not ts: return
        t = r.choice(ts); mod = r.choice(self.mods[c]); p, d = self.path(t, c); alias = r.random() < .3
        n = self.name("A") if alias or r.random() < .6 else t["n"]
        if any(x[:3] == (c, mod, n) for x in t["paths"]) or (self.ns[0] == "shared" and n == t["n"]): return
        id = self.name("use")
        o = f"pub type {n} = {p};" if alias else f"pub use {p} as {n};" if n != p.split('::')[-1] else f"pub use {p};"
        t["paths"].append((c, mod, n, id))
        self.items.append(TI(id, o, mod, deps=[t["id"], *d], cc=f"static_assert(std::is_same_v<{self.q(c, mod, n)}, {t['q']}>);", kinds={"alias" if alias else "re-export", "re-export of crate " + str(t["c"])}, crate=c))

    def fn_reexport(self, c):
        """A function of a lower crate under a path of this one."""
        r = self.r; ds = self.deps(c)
        if not ds: return
        d = r.choice(ds); f = self.name("g"); k = r.randint(1, 9999); mod, m2 = r.choice(self.mods[d]), r.choice(self.mods[c]); n = self.name("r") if r.random() < .5 else f
        if n == f and self.ns[0] == "shared": n = self.name("r")
        self.items.append(TI(f, f"pub fn {f}(x: i64) -> i64 {{ x.wrapping_mul({k}) }}", mod, cc=f'tst::check_true("{f}", {self.q(d, mod, f)}(3) == {3 * k});', kinds={"function"}, crate=d))
        o = f"pub use {NAMES[d]}::{'::'.join([*mod, f])}" + (f" as {n};" if n != f else ";")
        x = self.name("usef")
        self.items.append(TI(x, o, m2, deps=[f], cc=f'tst::check_true("{f} through another crate", {self.q(c, m2, n)}(5) == {5 * k});' if n == f else "", kinds={"re-exported function"}, crate=c))

    def fn(self, c):
        r = self.r; n = self.name("f"); mod = r.choice(self.mods[c]); q = self.q(c, mod, n); deps = set()
        def ty():
            t = r.choice([t for t in self.see(c)] + [t for t in self.see(c) if t["c"] != c] * 3); p, d = self.path(t, c); deps.update({t["id"], *d}); return t, p
        t, p = ty(); k = r.randint(2, 99); s = lambda v, t=t: f"{t['n']}:{w64(v)}"; x = r.choice([0, 77, 2**63 - 1, r.randint(-2**63, 2**63 - 1), r.randint(-9, 9)]); X = f"{t['q']}::mk({i64(x)})"
        shape = r.choice(["in", "out", "ref", "mut", "opt_in", "opt_out", "res", "vec_out", "vec_in", "slice", "slice_mut", "tup", "arr", "fnptr", "retref", "two", "generic_impl"])
        kinds = {"fn " + shape, "own type" if t["c"] == c else f"type of crate {t['c']} in crate {c}"}
        chk = lambda e, v: f'tst::check("{n}", tst::ser({e}), "{v}");'
        if shape == "in": o = f"pub fn {n}(a: {p}) -> i64 {{ a.val().wrapping_mul({k}) }}"; cc = chk(f"{q}({X})", w64(x * k))
        elif shape == "out": o = f"pub fn {n}(v: i64) -> {p} {{ {p}::mk(v.wrapping_add({k})) }}"; cc = chk(f"{q}({i64(x)})", s(x + k)) + f" static_assert(std::is_same_v<decltype({q}(0)), {t['q']}>);"
        elif shape == "ref": o = f"pub fn {n}(a: &{p}) -> i64 {{ a.val().wrapping_mul({k}) }}"; cc = f"const auto a = {X}; " + chk(f"{q}(a)", w64(x * k)) + " " + chk("a", s(x))
        elif shape == "mut": o = f"pub fn {n}(a: &mut {p}) {{ let v = a.val().wrapping_mul({k}); a.set(v) }}"; cc = f"auto a = {X}; {q}(a); " + chk("a", s(x * k)) + f" {q}(a); " + chk("a", s(x * k * k))
        elif shape == "opt_in": o = f"pub fn {n}(a: Option<{p}>) -> i64 {{ a.map_or({k}, |a| a.val()) }}"; cc = chk(f"{q}(std::optional<{t['q']}>({X}))", x) + " " + chk(f"{q}(std::nullopt)", k)
        elif shape == "opt_out": o = f"pub fn {n}(v: i64) -> Option<{p}> {{ if v == {k} {{ None }} else {{ Some({p}::mk(v)) }} }}"; cc = chk(f"{q}({i64(x)})", "N" if x == k else f"S({s(x)})") + " " + chk(f"{q}({k})", "N")
        elif shape == "res":
            u, p2 = ty(); o = f"pub fn {n}(v: i64) -> Result<{p}, {p2}> {{ if v % 2 == 0 {{ Ok({p}::mk(v)) }} else {{ Err({p2}::mk(v)) }} }}"
            cc = chk(f"{q}({i64(x)})", f"O({s(x)})" if x % 2 == 0 else f"E({s(x, u)})") + " " + chk(f"{q}(8)", f"O({s(8)})") + " " + chk(f"{q}(9)", f"E({s(9, u)})")
        elif shape == "vec_out": m = r.randint(0, 5); o = f"pub fn {n}(v: i64) -> Vec<{p}> {{ (0..v).map(|i| {p}::mk(i * {k})).collect() }}"; cc = chk(f"{q}({m})", "[" + ",".join(s(i * k) for i in range(m)) + "]")
        elif shape == "vec_in": m = r.randint(0, 5); o = f"pub fn {n}(v: Vec<{p}>) -> i64 {{ v.iter().map(|a| a.val()).sum::<i64>() }}\npub fn {n}_mk(v: i64) -> Vec<{p}> {{ (0..v).map(|i| {p}::mk(i * {k})).collect() }}"; cc = f"auto v = {q}_mk({m}); " + chk(f"{q}(std::move(v))", sum(i * k for i in range(m)))
        elif shape == "slice": o = f"pub fn {n}(v: &[{p}]) -> i64 {{ v.iter().map(|a| a.val()).sum::<i64>() }}"; cc = f"const {t['q']} a[3] = {{{t['q']}::mk({k}), {t['q']}::mk(2), {t['q']}::mk(3)}}; " + chk(f"{q}(rs_std::SliceRef<const {t['q']}>(a, 3))", k + 5)
        elif shape == "slice_mut": o = f"pub fn {n}(v: &mut [{p}]) {{ for a in v {{ let x = a.val() + {k}; a.set(x) }} }}"; cc = f"{t['q']} a[2] = {{{t['q']}::mk({k}), {t['q']}::mk(2)}}; {q}(rs_std::SliceRef<{t['q']}>(a, 2)); " + chk("a[0]", s(2 * k)) + " " + chk("a[1]", s(2 + k))
        elif shape == "tup":
            u, p2 = ty(); o = f"pub fn {n}(v: i64) -> ({p}, u8, {p2}) {{ ({p}::mk(v), {k}, {p2}::mk({k})) }}"; cc = chk(f"{q}({i64(x)})", f"({s(x)},{k},{s(k, u)})")
        elif shape == "arr": o = f"pub fn {n}(v: i64) -> [{p}; 3] {{ [{p}::mk(v), {p}::mk(1), {p}::mk({k})] }}"; cc = chk(f"{q}({i64(x)})", f"[{s(x)},{s(1)},{s(k)}]")
        elif shape == "fnptr": o = f"extern \"C\" fn {n}_h(a: *const {p}) -> i64 {{ unsafe {{ &*a }}.val().wrapping_sub({k}) }}\npub fn {n}() -> extern \"C\" fn(*const {p}) -> i64 {{ {n}_h }}"; cc = f"auto a = {X}; " + chk(f"{q}()(&a)", w64(x - k))
        elif shape == "retref": o = f"pub fn {n}<'a>(a: &'a {p}, _b: &u8) -> &'a {p} {{ a }}"; cc = f"auto a = {X}; tst::check_true(\"{n}\", &{q}(&a, 3) == &a);"
        elif shape == "two":
            u, p2 = ty(); o = f"pub fn {n}(a: {p}, b: &{p2}) -> i64 {{ a.val().wrapping_mul({k}).wrapping_add(b.val()) }}"; cc = f"auto b = {u['q']}::mk({k}); " + chk(f"{q}({X}, b)", w64(x * k + k))
        else: o = f"pub fn {n}(v: i64) -> impl Iterator<Item = i64> {{ 0..v }}\npub fn {n}_i(a: impl Into<i64>) -> i64 {{ a.into() }}"; cc = ""
        self.items.append(TI(n, o, mod, deps=sorted(deps), cc="{ " + cc + " }" if cc else "", kinds=kinds, crate=c))

    def trait(self, c):
        r = self.r; n = self.name("Tr"); mod = r.choice(self.mods[c]); u = r.choice(self.see(c)); p, d = self.path(u, c)
        o = f"pub trait {n} {{ fn t(&self, k: i64) -> i64; fn m(&mut self, o: &{p}); fn s(v: i64) -> {p}; fn d(&self) -> i64 {{ self.t({self.n}) }} }}"
        tr = dict(n=n, c=c, mod=mod, q=self.q(c, mod, n), u=u, done=set(), k=self.n)
        self.traits.append(tr)
        self.items.append(TI(n, o, mod, deps=[u["id"], *d], kinds={"trait"}, crate=c))

    def impl(self, c):
        r = self.r; trs = [t for t in self.traits if t["c"] == c or t["c"] in self.deps(c)]
        if not trs: return
        tr = r.choice(trs); ts = [t for t in self.see(c) if (tr["c"] == c or t["c"] == c) and t["n"] not in tr["done"] and t["n"] != tr["u"]["n"]]
        if not ts: return
        t = r.choice(ts); tr["done"].add(t["n"]); p, d = self.path(t, c); pu, d2 = self.path(tr["u"], c); k = r.randint(2, 99); u = tr["u"]; x = r.randint(-99, 99)
        tp = "::".join(["crate" if tr["c"] == c else NAMES[tr["c"]], *tr["mod"], tr["n"]])
        o = f"impl {tp} for {p} {{ fn t(&self, k: i64) -> i64 {{ self.val() * k + {k} }} fn m(&mut self, o: &{pu}) {{ let x = self.val() - o.val(); self.set(x) }} fn s(v: i64) -> {pu} {{ {pu}::mk(v * {k}) }} }}"
        I = f"rs_std::impl<{t['q']}, {tr['q']}>"
        cc = "{ " + f'static_assert({I}::kIsImplemented); auto a = {t["q"]}::mk({x}); auto b = {u["q"]}::mk({k}); tst::check_true("{tr["n"]}::t of {t["n"]}", {I}::t(a, 3) == {x * 3 + k}); {I}::m(a, b); tst::check("{tr["n"]}::m of {t["n"]}", tst::ser(a), "{t["n"]}:{x - k}"); tst::check("{tr["n"]}::s of {t["n"]}", tst::ser({I}::s(7)), "{u["n"]}:{7 * k}");' + " }"
        self.items.append(TI(self.name("impl"), o, r.choice(self.mods[c]), deps=sorted({tr["n"], t["id"], u["id"], *d, *d2}), cc=cc, kinds={f"impl in crate {c} of a trait of crate {tr['c']} for a type of crate {t['c']}"}, crate=c))

    def marker(self, c):
        """A trait without methods, so that nothing but the impl itself names the type."""
        r = self.r; tc = r.choice([c, *self.deps(c)]); ts = self.see(c) if tc == c else [t for t in self.types if t["c"] == c]
        if not ts: return
        t = r.choice(ts); n = self.name("Mark"); mod = r.choice(self.mods[tc]); p, d = self.path(t, c); Q = self.q(tc, mod, n)
        arg = r.choice([None, None, None] + [u for u in self.see(tc)]) if tc == c else None   # a type argument that only the impl's header names
        form = r.choice(["", "", "const K: i64;", "type T;"]); body = {"": "", "const K: i64;": "const K: i64 = 7;", "type T;": "type T = u8;"}[form]
        self.items.append(TI(n, f"pub trait {n}{'<A>' if arg else ''} {{ {form} }}", mod, kinds={"marker trait"}, crate=tc))
        if arg: pa, da = self.path(arg, c); d = [*d, *da, arg["id"]]
        A = f"{Q}<{arg['q']}>" if arg else Q
        cc = f"static_assert(rs_std::where_v<{t['q']}, {A}>);" + (f" static_assert(rs_std::impl<{t['q']}, {A}>::K == 7);" if "const" in form else f" static_assert(std::is_same_v<rs_std::impl<{t['q']}, {A}>::T, std::uint8_t>);" if form else "")
        tp = "::".join(["crate" if tc == c else NAMES[tc], *mod, n])
        self.items.append(TI(self.name("Markimpl"), f"impl {tp}{f'<{pa}>' if arg else ''} for {p} {{ {body} }}", r.choice(self.mods[c]), deps=sorted({t["id"], n, *d}), cc=cc, kinds={f"marker trait of crate {tc} for a type of crate {t['c']} in crate {c}" + (f" with an argument of crate {arg['c']}" if arg else "")}, crate=c))

    def convert(self, c):
        """Operators and conversions between types of two crates."""
        r = self.r; own = [t for t in self.types if t["c"] == c]; oth = [t for t in self.see(c) if t["c"] != c]
        if not own or not oth: return
        t, u = r.choice(own), r.choice(oth); key = (t["n"], u["n"])
        if key in self.done_conv: return
        self.done_conv.add(key); p, d = self.path(t, c); pu, d2 = self.path(u, c); k = r.randint(2, 99); x = r.randint(-99, 99)
        o = f"impl From<{pu}> for {p} {{ fn from(a: {pu}) -> {p} {{ {p}::mk(a.val() * {k}) }} }}\nimpl core::ops::Add<{pu}> for {p} {{ type Output = {pu}; fn add(self, o: {pu}) -> {pu} {{ {pu}::mk(self.val() * {k} - o.val()) }} }}\nimpl core::ops::SubAssign<&{pu}> for {p} {{ fn sub_assign(&mut self, o: &{pu}) {{ let x = self.val() - o.val() * {k}; self.set(x) }} }}"
        T, U = t["q"], u["q"]
        cc = "{ " + f'auto a = {T}({U}::mk({x})); tst::check("{t["n"]} from {u["n"]}", tst::ser(a), "{t["n"]}:{x * k}"); auto b = {U}::mk({k}); a -= b; tst::check("{t["n"]} -= {u["n"]}", tst::ser(a), "{t["n"]}:{x * k - k * k}"); tst::check("{t["n"]} + {u["n"]}", tst::ser(std::move(a) + std::move(b)), "{u["n"]}:{(x * k - k * k) * k - k}");' + " }"
        self.items.append(TI(self.name("conv"), o, (), deps=sorted({t["id"], u["id"], *d, *d2}), cc=cc, kinds={"conversions between crates"}, crate=c))


def gen(seed):
    r = random.Random(seed); g = G(r); g.done_conv = set()
    for c in range(3):
        for _ in range(r.randint(1, 2) + (c == 0)): g.leaf(c)
        for _ in range(r.randint(0, 3)): g.reexport(c)
        if r.random() < .5: g.fn_reexport(c)
        for _ in range(2): g.composite(c)
        for _ in range(r.randint(0, 2)): g.trait(c)
        for _ in range(2): g.impl(c)
        for _ in range(1 if c else 0): g.convert(c)
        g.marker(c)
        for _ in range(4 if c else 2): g.fn(c)
    k = r.random() < .6
    if r.random() < .4:   # few items: a header can't rely on what others need
        g.items = sweep.closure(g.items, [i.id for i in r.sample(g.items, r.randint(0, 2)) + [r.choice([i for i in g.items if i.crate == 2 and (k or i.id.startswith('Mark'))])]])
    for i in g.items: i.g = g
    return g.items


PRE = PRELUDE_RS.replace("pub fn next(", "pub fn count(f: usize) -> usize { CNT[f].load(SeqCst) }\n    pub fn next(")


def render(items):
    items = order(items); g = items[0].g; used = sorted({i.crate for i in items})
    for c in used[:]:   # what the crates that are left depend on
        used = sorted(set(used) | set(g.deps(c)))
    crates = []
    for c in used:
        body, _ = topic.modules([i for i in items if i.crate == c])
        pre = PRE if g.ns[0] != "shared" else PRE.replace("pub fn tst_", f"pub fn tst{c}_")
        crates.append({"name": NAMES[c], "src": "#![allow(warnings)]\n" + pre + "\n" + body + "\n", "deps": [NAMES[d] for d in g.deps(c)], "flags": [], "namespace": g.ns[c]})
    incs = [f'#include "{NAMES[c]}.h"' for c in used]
    if len(items) % 2 or len(items) < 8: incs.reverse()   # each header has to be complete by itself
    main = [*topic.INC, *incs, "#include <array>", "#include <optional>", PRELUDE_CC] + [i.cc_decl for i in items if i.cc_decl]
    fns, calls = [], []
    tl = lambda c: f"{g.nsof(c)}::tst{c if g.ns[0] == 'shared' else ''}_"
    for k, i in enumerate(items):
        if i.cc_main:
            fns.append(f"static void t_{k}() {{\n{i.cc_main}\n}}")
            calls.append(f"t_{k}();" + "".join(f' tst::check_true("values of {NAMES[c]} alive after `{i.id}`", {tl(c)}live() == 0);' for c in used))
    main += fns + ["int main() {\n  setvbuf(stdout, nullptr, _IOLBF, 0);\n  " + "\n  ".join(calls) + "".join(f"\n  {tl(c)}flush();" for c in used) + ' puts("DONE");\n  return 0;\n}\n']
    return {"crates": crates, "main": "\n".join(main)}


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one item (type, function, trait, impl, re-export) of one of three crates which use each other's types, with a driver that uses all three headers; non-trivial: items which name something of another crate, distinct by Rust text"
    def classify(items, case, res):
        for i in items:
            ctx.count(max(1, i.cc_main.count("tst::check")))
            for k in i.kinds: ctx.cls(k)
            if any(o.crate != i.crate for o in items if o.id in i.deps): ctx.note(i.rust); ctx.sample({"crate": NAMES[i.crate], "rust": i.rust}, 8)
    n = ctx.n(40, 1000)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], gen, render, classify)


if __name__ == "__main__":
    sys.exit(runner.main("C15", check, sweep.replay_case))
