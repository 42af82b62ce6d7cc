#!/usr/bin/env python3
"""C10: enums keep their variants, discriminants and payloads; #[cpp_enum] types are C++ enums."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, sweep, topic
from topic import TI
from model import Int, Bool, Char, Float, Str, Opt, Tup, Arr, INTS, CC_INT, hexs

REPRS = ["", "", "", "C", "C", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "isize", "C, u8", "C, i16", "C, u64", "C, i64"]


def cstr(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
def clit(t, v): return "(-9223372036854775807ll - 1)" if v == -2**63 else f"{v}ull" if v >= 2**63 else f"{v}ll"


class EnumT:
    """A bound enum as a payload of another."""
    copy = clone = True
    def __init__(self, q, vs): self.q, self.vs = q, vs
    def rs(self): return "crate::" + self.q
    def val(self, r): return r.randrange(len(self.vs))
    def rsx(self, v): return f"crate::{self.q}::{self.vs[v]}"
    def ccx(self, v, ctx): return f"lib::{self.q}::Make{self.vs[v]}()"
    def ser(self, v): return f"e{v}"
    def drops(self): return False


class G:
    def __init__(self, r):
        self.r, self.n, self.items, self.plain = r, 0, [], []
        self.mods = [()]
        for _ in range(r.choice([0, 1, 2])): self.n += 1; self.mods.append((f"m{self.n}",))

    def prim(self, copy):
        r = self.r
        t = r.choice([Int(r.choice(list(INTS))), Int(r.choice(["u8", "i8", "u16"])), Bool(), Bool(), Char(), Float(r.choice(["f32", "f64"])), Str()])
        return Int("u32") if copy and isinstance(t, Str) else t

    def ty(self, copy):
        r = self.r; k = r.randint(0, 9)
        if k == 0: return Opt(r.choice([Int("u8"), Bool(), Int("i64"), Char()]))
        if k == 1: return Tup([r.choice([Int("u16"), Bool(), Int("i64"), Char(), Int("u8")]) for _ in range(r.randint(1, 3))])
        if k == 2: return Arr(r.choice([Int("u16"), Bool(), Int("u8"), Char()]), r.randint(1, 3))
        if k == 3 and self.plain: return r.choice(self.plain)
        return self.prim(copy)

    def enum(self):
        r = self.r; self.n += 1; n = f"E{self.n}"; mod = r.choice(self.mods); q = "::".join([*mod, n]); Q = "lib::" + q
        rep = r.choice(REPRS)
        fieldless = r.random() < .35
        copy = r.random() < .4
        prim = [x for x in rep.replace(" ", "").split(",") if x in INTS]
        dty = prim[0] if prim else "i32" if rep == "C" else "isize"
        nv = r.choice([1, 2, 3, 4, 7, 12]) if fieldless else r.choice([1, 2, 3, 4, 5])
        if nv == 1 and not rep: nv = 2
        vs = []    # [name, kind (unit, tuple, struct), types]
        for i in range(nv):
            k = "unit" if fieldless or r.random() < .35 else r.choice(["tuple", "tuple", "tuple", "struct"])
            vs.append([f"V{i}", k, [] if k == "unit" else [self.ty(copy) for _ in range(r.choice([1, 1, 2, 3]))]])
        if not fieldless and all(k == "unit" for _, k, _ in vs): vs[0][1:] = ["tuple", [Int("u8")]]
        types = [t for _, _, ts in vs for t in ts]
        drops = any(t.drops() for t in types)
        copy = copy and not drops
        # Without a primitive repr, explicit discriminants are only for enums without fields.
        lo, hi = Int(dty).rng()
        if rep == "" : lo, hi = -2**63, 2**63 - 1
        discs, last, used = [], -1, set()
        for _ in vs:
            d = None
            if (fieldless or prim) and r.random() < .45:
                d = r.choice([lo, hi - 20, Int(dty).val(r) if rep else r.randint(-200, 200), r.randint(max(lo, -100), min(hi, 100)), 127, 128, 255, 256, 32768, 65535])
                d = max(lo, min(hi - 20, d))
            v = last + 1 if d is None else d
            while v in used or not lo <= v <= hi: v = d = r.randint(max(lo, -1000), min(hi, 1000))
            used.add(v); last = v; discs.append((v, d is not None))
        eq = r.random() < .5 and not any(isinstance(t, Float) for t in types)
        der = [d for d, on in (("Clone", copy or r.random() < .7), ("Copy", copy), ("PartialEq", eq), ("Eq", eq), ("PartialOrd", eq), ("Ord", eq)) if on]
        clone = "Clone" in der
        if any(isinstance(t, EnumT) for t in types) and eq: der = [d for d in der if d in ("Clone", "Copy")]; eq = False
        dflt = r.randrange(nv) if r.random() < .7 else None
        # Movable in C++: no drop glue, or Default, or Clone.
        movable = not drops or dflt is not None or clone
        o = []
        if rep: o.append(f"#[repr({rep})]")
        if der: o.append(f"#[derive({', '.join(der)})]")
        def decl(v, d):
            n_, k, ts = v
            b = "" if k == "unit" else "(" + ", ".join(t.rs() for t in ts) + ")" if k == "tuple" else " { " + ", ".join(f"f{i}: {t.rs()}" for i, t in enumerate(ts)) + " }"
            return n_ + b + (f" = {d[0]}" if d[1] else "")
        o.append(f"pub enum {n} {{ {', '.join(decl(v, d) for v, d in zip(vs, discs))} }}")
        vals = [[t.val(r) for t in ts] for _, _, ts in vs]
        vals2 = [[t.val(r) for t in ts] for _, _, ts in vs]
        def rsx(i, vals):
            n_, k, ts = vs[i]; xs = [t.rsx(v) for t, v in zip(ts, vals[i])]
            return f"crate::{q}::{n_}" + ("" if k == "unit" else "(" + ", ".join(xs) + ")" if k == "tuple" else " { " + ", ".join(f"f{j}: {x}" for j, x in enumerate(xs)) + " }")
        def ser(i, vals): return f"{n}::V{i}(" + ",".join(t.ser(v) for t, v in zip(vs[i][2], vals[i])) + ")"
        def pat(i):
            n_, k, ts = vs[i]
            return f"{n}::{n_}" + ("" if k == "unit" else "(" + ", ".join(f"x{j}" for j in range(len(ts))) + ")" if k == "tuple" else " { " + ", ".join(f"f{j}: x{j}" for j in range(len(ts))) + " }")
        def arm(i): return pat(i) + f' => {{ let v: Vec<String> = vec![{", ".join(f"x{j}.ser()" for j in range(len(vs[i][2])))}]; format!("{n}::V{i}({{}})", v.join(",")) }}'
        if dflt is not None: o.append(f"impl Default for {n} {{ fn default() -> Self {{ {rsx(dflt, vals)} }} }}")
        o.append(f"impl {n} {{ pub fn desc(&self) -> String {{ use crate::hid::Ser as _; match self {{ {', '.join(arm(i) for i in range(nv))} }} }}")
        o.append(f"  pub fn give(k: usize) -> {n} {{ match k {{ {', '.join(f'{i} => {rsx(i, vals)}' for i in range(nv))}, _ => panic!() }} }}")
        o.append(f"  pub fn set(&mut self, k: usize) {{ *self = match k {{ {', '.join(f'{i} => {rsx(i, vals2)}' for i in range(nv))}, _ => panic!() }} }} }}")
        o.append(f"pub fn ref_{n}(x: &{n}) -> String {{ x.desc() }}")
        if movable: o.append(f"pub fn take_{n}(x: {n}) -> String {{ x.desc() }}\npub fn pass_{n}(x: {n}) -> {n} {{ x }}")
        if fieldless and not drops: o.append(f"pub fn disc_{n}(x: &{n}) -> {dty} {{ match x {{ {', '.join(f'{n}::V{i} => {discs[i][0]}' for i in range(nv))} }} }}")
        ser_desc = lambda e: f'tst::ser({e})'
        want = lambda i, v: cstr(hexs(ser(i, v).encode()))
        cc = []
        is_c = rep.startswith("C")
        def in_cc(var, i, v):
            """What C++ can read of a repr(C) enum by itself."""
            if not is_c: return []
            out = [f'tst::check_true("{n}: tag of V{i}", {var}.tag == {Q}::Tag::V{i});']
            for j, (t, x) in enumerate(zip(vs[i][2], v[i])):
                if isinstance(t, (Int, Bool, Char, Float)): out.append(f'tst::check("{n}::V{i}.{j}", tst::ser({var}.V{i}.{"__field" if vs[i][1] == "tuple" else "f"}{j}), {cstr(t.ser(x))});')
            return out
        if is_c:
            for i in range(nv): cc.append(f"static_assert(static_cast<std::underlying_type_t<{Q}::Tag>>({Q}::Tag::V{i}) == static_cast<std::underlying_type_t<{Q}::Tag>>({clit(dty, discs[i][0])}));")
            if prim: cc.append(f"static_assert(std::is_same_v<std::underlying_type_t<{Q}::Tag>, {'std::int64_t' if prim[0] == 'isize' else CC_INT[prim[0]]}>);")
        for i in range(nv):
            b = [f"auto e = {Q}::give({i});", f'tst::check("{n}::give({i})", {ser_desc("e.desc()")}, {want(i, vals)});', f'tst::check("ref {n} {i}", tst::ser(lib::{"::".join([*mod, "ref_" + n])}(e)), {want(i, vals)});', *in_cc("e", i, vals)]
            j = r.randrange(nv)
            b += [f"e.set({j});", f'tst::check("{n} after set({j})", {ser_desc("e.desc()")}, {want(j, vals2)});', *in_cc("e", j, vals2)]
            if clone: b += [f"{{ auto c = e; e.set({i}); " + f'tst::check("copy of {n}", {ser_desc("c.desc()")}, {want(j, vals2)}); c = e; ' + f'tst::check("copy-assigned {n}", {ser_desc("c.desc()")}, {want(i, vals2)}); }}']
            cc.append("{ " + " ".join(b) + " }")
            if vs[i][1] == "struct": continue
            # Made in C++. (Payloads which are not C++ types as such are only made by Rust.)
            mk = f"{Q}::MakeV{i}({', '.join(t.ccx(v, 'top') for t, v in zip(vs[i][2], vals[i]))})"
            cc.append("{ " + f'auto e = {mk}; tst::check("{n}::MakeV{i}", {ser_desc("e.desc()")}, {want(i, vals)}); ' + " ".join(in_cc("e", i, vals)) + " }")
            if movable:
                cc.append(f'tst::check("take {n}::MakeV{i}", tst::ser(lib::{"::".join([*mod, "take_" + n])}({mk})), {want(i, vals)});')
                cc.append("{ " + f'auto e = lib::{"::".join([*mod, "pass_" + n])}({mk}); tst::check("pass {n}::MakeV{i}", {ser_desc("e.desc()")}, {want(i, vals)}); ' + " ".join(in_cc("e", i, vals)) + " }")
            if vs[i][1] == "unit" and not drops and (fieldless or not is_c):
                cc.append("{ " + f'static constexpr auto e = {Q}::MakeV{i}(); tst::check("constexpr {n}::MakeV{i}", {ser_desc("e.desc()")}, {want(i, vals)});' + (f"static_assert(e.tag == {Q}::Tag::V{i});" if is_c else "") + (f' tst::check_true("discriminant of {n}::V{i}", lib::{"::".join([*mod, "disc_" + n])}(e) == static_cast<{CC_INT[dty]}>({clit(dty, discs[i][0])}));' if fieldless else "") + " }")
        if dflt is not None: cc.append("{ " + f'{Q} e; tst::check("default {n}", {ser_desc("e.desc()")}, {want(dflt, vals)}); ' + " ".join(in_cc("e", dflt, vals)) + " }")
        if eq:
            for _ in range(4):
                i, j = r.randrange(nv), r.randrange(nv)
                # Rust orders by discriminant, then by fields; equality is decided by the values.
                if i != j: less = discs[i][0] < discs[j][0]; cc.append("{ " + f'auto a = {Q}::give({i}), b = {Q}::give({j}); tst::check_true("{n}: V{i} and V{j} compare", !(a == b) && a != b && {"a < b && b > a && !(a >= b)" if less else "a > b && b < a && !(a <= b)"});' + " }")
                else: cc.append("{ " + f'auto a = {Q}::give({i}), b = {Q}::give({j}); tst::check_true("{n}: V{i} equals itself", a == b && !(a != b) && a <= b && a >= b && !(a < b));' + " }")
        if fieldless and not drops and nv > 1 and copy and not is_c and not eq: self.plain.append(EnumT(q, [v[0] for v in vs])); o.append(f'impl crate::hid::Ser for {n} {{ fn ser(&self) -> String {{ match self {{ {", ".join(f"{n}::V{i} => String::from({cstr(f"e{i}")})" for i in range(nv))} }} }} }}')
        deps = sorted({t.q.split("::")[-1] for t in types if isinstance(t, EnumT)})
        kinds = {"repr(" + (rep or "Rust") + ")", "fieldless" if fieldless else "payload"} | ({"drop glue"} if drops else set()) | ({"explicit discriminants"} if any(d[1] for d in discs) else set())
        self.items.append(TI(n, "\n".join(o), mod, deps=deps, cc="\n".join(cc), kinds=kinds))

    def cpp_enum(self):
        r = self.r; self.n += 1; n = f"X{self.n}"; mod = r.choice(self.mods); q = "::".join([*mod, n]); Q = "lib::" + q; L = "lib::" + "::".join([*mod, ""])
        t = r.choice(list(INTS)); T = Int(t); cls = r.random() < .6; lo, hi = T.rng()
        ks = [(f"K{self.n}_{i}", T.val(r)) for i in range(r.choice([1, 2, 3, 6]))]
        alias = r.choice(ks)
        o = [f'#[doc = "CRUBIT_ANNOTATE: cpp_enum=enum{" class" if cls else ""}"]', "#[repr(transparent)]", "#[derive(Clone, Copy, PartialEq, Eq)]", f"pub struct {n}({t});", f"impl {n} {{"]
        for k, v in ks: o.append(f"  pub const {k}: {n} = {n}({v});")
        o.append(f"  pub const AL{self.n}: {n} = {n}::{alias[0]};\n}}")
        o.append(f"pub fn raw_{n}(x: {n}) -> {t} {{ x.0 }}\npub fn of_{n}(x: {t}) -> {n} {{ {n}(x) }}\npub fn ref_{n}(x: &{n}) -> {t} {{ x.0 }}\npub fn bump_{n}(x: &mut {n}) {{ x.0 = x.0.wrapping_add(1); }}")
        o.append(f"pub fn opt_{n}(x: Option<{n}>) -> Option<{n}> {{ x.map(|y| {n}(!y.0)) }}\npub fn sl_{n}(x: &[{n}]) -> {t} {{ x.iter().fold(0, |a, b| a.wrapping_add(b.0)) }}")
        o.append(f"pub struct H{n} {{ pub a: u8, pub e: {n} }}\nimpl H{n} {{ pub fn make(a: u8, e: {n}) -> H{n} {{ H{n} {{ a, e }} }} }}\npub fn is_{n}(x: {n}) -> bool {{ x == {n}::{ks[0][0]} }}")
        U = {"isize": "std::intptr_t", "usize": "std::uintptr_t"}.get(t, CC_INT[t])
        cc = [f"static_assert(std::is_enum_v<{Q}> && std::is_same_v<std::underlying_type_t<{Q}>, {U}>);", f"static_assert({'!' if cls else ''}std::is_convertible_v<{Q}, {U}>);"]
        for k, v in ks + [(f"AL{self.n}", alias[1])]: cc.append(f'static_assert(static_cast<{U}>({Q}::{k}) == static_cast<{U}>({clit(t, v)})); tst::check("raw {n}::{k}", tst::ser({L}raw_{n}({Q}::{k})), "{v}");')
        wrap = lambda v: (v - lo) % 2**T.bits + lo
        for _ in range(3):
            v = T.val(r); e = f"static_cast<{Q}>({T.lit(v)})"; w = T.val(r)
            cc.append(f'tst::check("raw {n}", tst::ser({L}raw_{n}({e})), "{v}"); tst::check_true("of {n}", {L}of_{n}({T.lit(v)}) == {e}); {{ auto x = {e}; tst::check("ref {n}", tst::ser({L}ref_{n}(x)), "{v}"); {L}bump_{n}(x); tst::check_true("bump {n}", x == static_cast<{Q}>({T.lit(wrap(v + 1))})); }}')
            inv = ~v if lo < 0 else hi - v
            cc.append(f'tst::check_true("opt {n}", {L}opt_{n}({e}) == std::optional<{Q}>(static_cast<{Q}>({T.lit(inv)})) && !{L}opt_{n}(std::nullopt).has_value());')
            cc.append(f'{{ std::array<{Q}, 2> a{{{e}, static_cast<{Q}>({T.lit(w)})}}; tst::check("slice {n}", tst::ser({L}sl_{n}(a)), "{wrap(v + w)}"); auto h = {L}H{n}::make(9, {e}); tst::check_true("field {n}", h.e == {e} && h.a == 9); h.e = a[1]; tst::check("field {n}", tst::ser({L}ref_{n}(h.e)), "{w}"); }}')
            cc.append(f'tst::check_true("is {n}", {L}is_{n}({e}) == {"true" if v == ks[0][1] else "false"});')
        cc.append(f'tst::check_true("is {n}", {L}is_{n}({Q}::{ks[0][0]}));')
        if cls: cc.append(f'switch ({L}of_{n}({T.lit(ks[0][1])})) {{ case {Q}::{ks[0][0]}: break; default: tst::check_true("switch over {n}", false); }}')
        self.items.append(TI(n, "\n".join(o), mod, cc="\n".join(cc), kinds={"cpp_enum " + ("enum class" if cls else "enum")}))


def gen(seed):
    g = G(random.Random(seed))
    for _ in range(9): g.enum()
    for _ in range(3): g.cpp_enum()
    return g.items


def render(items): return topic.render(items, extra_inc=["#include <optional>", "#include <array>"])


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one generated enum or cpp_enum type with its driver (every variant made, read, changed, copied, compared on both sides); non-trivial: all, distinct by declaration"
    def classify(items, case, res):
        for i in items:
            ctx.count(i.cc_main.count("tst::check") + i.cc_main.count("static_assert"))
            for k in i.kinds: ctx.cls(k)
            d = next(l for l in i.rust.split("\n") if l.startswith("pub "))
            ctx.note(d); ctx.sample(d, 10)
    n = ctx.n(28, 800)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], gen, render, classify)


if __name__ == "__main__":
    sys.exit(runner.main("C10", check, sweep.replay_case))
