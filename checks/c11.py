#!/usr/bin/env python3
"""C11: operators, comparisons, conversions, Display, indexing and iteration in C++ do what the trait impls do."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, sweep, topic
from topic import TI
from model import Int, Bool, Char, Opt, Tup, Str, CC_INT, INTS, hexs, rs_str, cc_strref, gen_text

BIN = [("Add", "add", "+"), ("Sub", "sub", "-"), ("Mul", "mul", "*"), ("Div", "div", "/"), ("Rem", "rem", "%"), ("BitAnd", "bitand", "&"), ("BitOr", "bitor", "|"), ("BitXor", "bitxor", "^"), ("Shl", "shl", "<<"), ("Shr", "shr", ">>")]
UN = [("Neg", "neg", "-"), ("Not", "not", "!")]


def w64(v): return (v + 2**63) % 2**64 - 2**63
def cstr(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
def i64(v): return "(-9223372036854775807ll - 1)" if v == -2**63 else f"{v}ll"


class Rhs:
    """An argument type: Rust type, its overload class, encoding as i64 (Rust expression of `r`), and a generator of (C++ expression, encoded value)."""
    def __init__(self, rs, cls, enc, gen, cc, kind=None): self.rs, self.cls, self.enc, self.gen, self.cc, self.kind = rs, cls, enc, gen, cc, kind or rs


def int_rhs(t, cls):
    I = Int(t)
    def gen(r): v = I.val(r); return I.lit(v), w64(v)
    return Rhs(t, cls, "r as i64", gen, CC_INT[t])


def fl(t, cc):
    def gen(r): v = r.randint(-10**6, 10**6); return f"static_cast<{cc}>({v})", v
    return Rhs(t, t, "r as i64", gen, cc)


def text_gen(r): s = gen_text(r); return cc_strref(s), len(s.encode()) * 7 + (s.encode()[0] if s else 0)


PRIMS = [int_rhs(t, c) for t, c in (("i8", "i8"), ("u8", "u8"), ("i16", "i16"), ("u16", "u16"), ("i32", "i"), ("i64", "i"), ("isize", "i"), ("u32", "u"), ("u64", "u"), ("usize", "u"))] + [
    fl("f32", "float"), fl("f64", "double"),
    Rhs("bool", "bool", "r as i64", lambda r: (lambda b: ("true" if b else "false", int(b)))(r.random() < .5), "bool"),
    Rhs("char", "char", "r as i64", lambda r: (lambda v: (Char().ccx(v, ""), v))(Char().val(r)), "rs_std::char_"),
    Rhs("&str", "str", "r.len() as i64 * 7 + r.bytes().next().unwrap_or(0) as i64", text_gen, "rs_std::StrRef"),
    Rhs("&[u16]", "slice", "r.len() as i64 * 1000 + r.iter().map(|x| *x as i64).sum::<i64>()", lambda r: (lambda a: ("rs_std::SliceRef<const std::uint16_t>(" + f"std::span<const std::uint16_t>(std::array<std::uint16_t, {len(a)}>{{{{{', '.join(map(str, a))}}}}}))", len(a) * 1000 + sum(a)))([r.randint(0, 65535) for _ in range(r.randint(1, 4))]), "rs_std::SliceRef<const std::uint16_t>"),
    Rhs("Option<u8>", "opt", "match r { None => -1, Some(x) => x as i64 }", lambda r: (lambda v: ("std::optional<std::uint8_t>(std::nullopt)", -1) if v is None else (f"std::optional<std::uint8_t>({v})", v))(r.choice([None, 0, 255, r.randint(0, 255)])), "std::optional<std::uint8_t>"),
    Rhs("(u8, i16)", "tup", "r.0 as i64 * 3 + r.1 as i64", lambda r: (lambda a, b: (f"std::tuple<std::uint8_t, std::int16_t>({a}, {b})", a * 3 + b))(r.randint(0, 255), r.randint(-32768, 32767)), "std::tuple<std::uint8_t, std::int16_t>"),
    Rhs("String", "string", "r.len() as i64 * 7 + r.bytes().next().unwrap_or(0) as i64", lambda r: (lambda e: (f"rs::alloc::string::String({e[0]})", e[1]))(text_gen(r)), "rs::alloc::string::String"),
    Rhs("[u8; 3]", "arr", "r[0] as i64 * 100 + r[1] as i64 * 10 + r[2] as i64", lambda r: (lambda a: (f"std::array<std::uint8_t, 3>{{{{{', '.join(map(str, a))}}}}}", a[0] * 100 + a[1] * 10 + a[2]))([r.randint(0, 255) for _ in range(3)]), "std::array<std::uint8_t, 3>"),
]


class G:
    def __init__(self, r):
        self.r, self.n, self.items, self.types = r, 0, [], []
        self.mods = [()]
        for _ in range(r.choice([0, 1, 2])): self.n += 1; self.mods.append((f"m{self.n}",))

    def rhs_set(self, me, own=True):
        """Argument types whose overloads can't be confused."""
        r = self.r; out, seen = [], set()
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            c = r.choice(PRIMS) if self.types and r.random() < .75 or not own else self.self_rhs(me)
            if r.random() < .12 and self.types: c = self.other_rhs(r.choice(self.types))
            if c.cls in seen: continue
            seen.add(c.cls); out.append(c)
        return out

    def self_rhs(self, t): return self.other_rhs(t)

    def other_rhs(self, t):
        byref = self.r.random() < .5
        def gen(r): v = r.randint(-2**63, 2**63 - 1); return f"{t['Q']}::mk({i64(v)})", v
        return Rhs(("&" if byref else "") + "crate::" + t["q"], t["q"], "r.val()", gen, t["Q"], "other type" + (" by reference" if byref else ""))

    def type(self):
        r = self.r; self.n += 1; n = f"T{self.n}"; mod = r.choice(self.mods); q = "::".join([*mod, n])
        t = dict(n=n, q=q, Q="lib::" + q, mod=mod, copy=r.random() < .5, kind=r.choice(["struct", "struct", "tuple", "enum", "repr_c"]), id=n, deps=set(), o=[], cc=[], kinds=set())
        o = t["o"]; drv = "#[derive(Clone, Copy)]\n" if t["copy"] else ""
        tok = "" if t["copy"] else ", tok: crate::hid::Tok"; tk = "" if t["copy"] else ", tok: crate::hid::Tok::new()"
        if t["kind"] in ("struct", "repr_c"): o.append(f"{drv}{'#[repr(C)]' if t['kind'] == 'repr_c' else ''}pub struct {n} {{ pub x: i64{tok} }}"); mk, val = f"{n} {{ x{tk} }}", "self.x"; ok = "self.tok.ok()"
        elif t["kind"] == "tuple": o.append(f"{drv}pub struct {n}(i64, {'u8' if t['copy'] else 'crate::hid::Tok'});"); mk, val = f"{n}(x, {'3' if t['copy'] else 'crate::hid::Tok::new()'})", "self.0"; ok = "self.1.ok()"
        else: o.append(f"{drv}pub enum {n} {{ A(i64, {'u8' if t['copy'] else 'crate::hid::Tok'}), B }}"); mk, val = f"if x == 77 {{ {n}::B }} else {{ {n}::A(x, {'3' if t['copy'] else 'crate::hid::Tok::new()'}) }}", f"match self {{ {n}::A(x, _) => *x, {n}::B => 77 }}"; ok = f"match self {{ {n}::A(_, t) => t.ok(), {n}::B => true }}"
        o.append(f"impl {n} {{ pub fn mk(x: i64) -> {n} {{ {mk} }} pub fn val(&self) -> i64 {{ " + ("" if t["copy"] else f"if !({ok}) {{ crate::hid::bad(\"{n} used after it was dropped\") }} ") + f"{val} }} }}")
        if not t["copy"]: o.append(f"impl Default for {n} {{ fn default() -> {n} {{ {n}::mk(-11) }} }}")
        return t

    def v(self): return self.r.choice([0, 1, -1, 77, -2**63, 2**63 - 1, self.r.randint(-1000, 1000), self.r.randint(-2**63, 2**63 - 1)])
    def dep(self, t, c):
        for u in self.types + [t]:
            if u["q"] == c.cls and u is not t: t["deps"].add(u["n"])

    def out(self, t, e):
        """(Rust output type, Rust expression of i64 `e` as it, C++ check of expression X against value V)"""
        k = self.r.randint(0, 5)
        if k <= 1: return "crate::" + t["q"], f"crate::{t['q']}::mk({e})", lambda what, X, V: f'tst::check_true("{what}", ({X}).val() == {i64(V)});'
        if k == 2: return "i64", e, lambda what, X, V: f'tst::check("{what}", tst::ser({X}), "{V}");'
        if k == 3: return "Option<i64>", f"{{ let z: i64 = {e}; if z % 2 == 0 {{ Some(z) }} else {{ None }} }}", lambda what, X, V: f'tst::check("{what}", tst::ser({X}), "{f"S({V})" if V % 2 == 0 else "N"}");'
        if k == 4: return "String", f"({e}).to_string()", lambda what, X, V: f'tst::check("{what}", tst::ser({X}), {cstr(hexs(str(V).encode()))});'
        return "bool", f"({e}) % 2 == 0", lambda what, X, V: f'tst::check("{what}", tst::ser({X}), "{"true" if V % 2 == 0 else "false"}");'

    def me(self, t, v, const=True): return f"{'const ' if const else ''}auto a = {t['Q']}::mk({i64(v)});"

    def binops(self, t):
        r = self.r
        for tr, m, op in r.sample(BIN, r.randint(1, 5)):
            for c in self.rhs_set(t):
                self.dep(t, c); k, a = r.choice([3, 5, -7, 11]), r.randint(-99, 99)
                E = f"self.val().wrapping_mul({k}).wrapping_add({c.enc}).wrapping_add({a})"
                oty, oe, chk = self.out(t, E)
                t["o"].append(f"impl core::ops::{tr}<{c.rs}> for {t['n']} {{ type Output = {oty}; fn {m}(self, r: {c.rs}) -> {oty} {{ {oe} }} }}")
                t["kinds"] |= {f"operator{op}", "rhs " + c.kind}
                for _ in range(2):
                    v = self.v(); ce, enc = c.gen(r); R = w64(v * k + enc + a)
                    cons = t["copy"]
                    t["cc"].append("{ " + self.me(t, v, cons) + " " + chk(f"{t['n']} {op} {c.rs}", f"{'a' if cons else 'std::move(a)'} {op} {ce}", R) + (f' tst::check_true("{t["n"]} unchanged", a.val() == {i64(v)});' if cons else f' tst::check_true("{t["n"]} is the default value after it was moved from", a.val() == -11);') + " }")
        for tr, m, op in r.sample(BIN, r.randint(0, 3)):
            for c in self.rhs_set(t):
                self.dep(t, c); k, a = r.choice([3, 5, -7, 11]), r.randint(-99, 99)
                t["o"].append(f"impl core::ops::{tr}Assign<{c.rs}> for {t['n']} {{ fn {m}_assign(&mut self, r: {c.rs}) {{ *self = {t['n']}::mk(self.val().wrapping_mul({k}).wrapping_sub({c.enc}).wrapping_add({a})); }} }}")
                t["kinds"] |= {f"operator{op}=", "rhs " + c.kind}
                v = self.v(); ce, enc = c.gen(r); ce2, enc2 = c.gen(r); R = w64(v * k - enc + a); R2 = w64(R * k - enc2 + a)
                t["cc"].append("{ " + self.me(t, v, False) + f' a {op}= {ce}; tst::check_true("{t["n"]} {op}= {c.rs}", a.val() == {i64(R)}); a {op}= {ce2}; tst::check_true("{t["n"]} {op}= {c.rs} again", a.val() == {i64(R2)}); }}')
        for tr, m, op in r.sample(UN, r.randint(0, 2)):
            k, a = r.choice([3, 5, -7, 11]), r.randint(-99, 99)
            oty, oe, chk = self.out(t, f"self.val().wrapping_mul({k}).wrapping_add({a})")
            t["o"].append(f"impl core::ops::{tr} for {t['n']} {{ type Output = {oty}; fn {m}(self) -> {oty} {{ {oe} }} }}"); t["kinds"].add(f"unary {op}")
            v = self.v(); t["cc"].append("{ " + self.me(t, v, t["copy"]) + " " + chk(f"{op}{t['n']}", f"{op}{'a' if t['copy'] else 'std::move(a)'}", w64(v * k + a)) + " }")

    def compare(self, t):
        r = self.r; m = r.choice([2, 3, 5, 100]); n = t["n"]; k = r.choice([0, 1, 2, 2, 3])
        vals = [self.v() for _ in range(3)] + [r.randint(-9, 9) for _ in range(4)]
        pairs = [(r.choice(vals), r.choice(vals)) for _ in range(6)]
        if k == 0:   # equality only
            t["o"].append(f"impl PartialEq for {n} {{ fn eq(&self, o: &{n}) -> bool {{ self.val().rem_euclid({m}) == o.val().rem_euclid({m}) }} }}"); t["kinds"].add("PartialEq")
            for a, b in pairs:
                e = a % m == b % m
                t["cc"].append("{ " + f'const auto a = {t["Q"]}::mk({i64(a)}); const auto b = {t["Q"]}::mk({i64(b)}); tst::check_true("{n}({a}) == {n}({b})", (a == b) == {"true" if e else "false"} && (a != b) == {"false" if e else "true"});' + " }")
        elif k == 1:  # partial order with incomparable values
            t["o"].append(f"impl PartialEq for {n} {{ fn eq(&self, o: &{n}) -> bool {{ self.partial_cmp(o) == Some(core::cmp::Ordering::Equal) }} }}\nimpl PartialOrd for {n} {{ fn partial_cmp(&self, o: &{n}) -> Option<core::cmp::Ordering> {{ if self.val() % 4 == 0 || o.val() % 4 == 0 {{ None }} else {{ Some(self.val().rem_euclid({m}).cmp(&o.val().rem_euclid({m}))) }} }} }}"); t["kinds"].add("PartialOrd")
            for a, b in pairs:
                c = None if a % 4 == 0 or b % 4 == 0 else (a % m > b % m) - (a % m < b % m)
                want = {None: "unordered", -1: "less", 0: "equivalent", 1: "greater"}[c]
                bs = lambda x: "true" if x else "false"
                t["cc"].append("{ " + f'const auto a = {t["Q"]}::mk({i64(a)}); const auto b = {t["Q"]}::mk({i64(b)}); static_assert(std::is_same_v<decltype(a <=> b), std::partial_ordering>); tst::check_true("{n}({a}) <=> {n}({b})", (a <=> b) == std::partial_ordering::{want}' + (" && !((a <=> b) == 0)" if c is None else "") + f' && (a < b) == {bs(c == -1)} && (a > b) == {bs(c == 1)} && (a <= b) == {bs(c in (-1, 0))} && (a >= b) == {bs(c in (0, 1))} && (a == b) == {bs(c == 0)});' + " }")
        elif k == 2:  # total order
            rev = r.random() < .5; L, R = ("o", "self") if rev else ("self", "o")
            t["o"].append(f"impl PartialEq for {n} {{ fn eq(&self, o: &{n}) -> bool {{ self.cmp(o) == core::cmp::Ordering::Equal }} }}\nimpl Eq for {n} {{}}\nimpl PartialOrd for {n} {{ fn partial_cmp(&self, o: &{n}) -> Option<core::cmp::Ordering> {{ Some(self.cmp(o)) }} }}\nimpl Ord for {n} {{ fn cmp(&self, o: &{n}) -> core::cmp::Ordering {{ {L}.val().rem_euclid({m}).cmp(&{R}.val().rem_euclid({m})) }} }}"); t["kinds"].add("Ord")
            for a, b in pairs:
                c = ((a % m > b % m) - (a % m < b % m)) * (-1 if rev else 1); bs = lambda x: "true" if x else "false"
                t["cc"].append("{ " + f'const auto a = {t["Q"]}::mk({i64(a)}); const auto b = {t["Q"]}::mk({i64(b)}); static_assert(std::is_same_v<decltype(a <=> b), std::strong_ordering>); tst::check_true("{n}({a}) <=> {n}({b})", (a <=> b) == std::strong_ordering::{ {-1: "less", 0: "equal", 1: "greater"}[c] } && (a < b) == {bs(c < 0)} && (a > b) == {bs(c > 0)} && (a <= b) == {bs(c <= 0)} && (a >= b) == {bs(c >= 0)} && (a == b) == {bs(c == 0)});' + " }")
        others = r.sample([Int(T) for T in r.choice([("i32", "u8", "i64", "u16"), ("i8", "isize", "usize", "i16"), ("u32", "u64", "i64", "i32")])], r.choice([1, 2]) if k == 3 else r.choice([0, 0, 1, 2]))
        rhs = [(I.rs(), "*o as i64", "number", lambda I=I: (lambda v: (I.lit(v), w64(v)))(I.val(r))) for I in others]
        ts = [x for x in self.types if x is not t]
        if ts and r.random() < .5:
            o = r.choice(ts); self.dep(t, self.other_rhs(o))
            rhs.append(("crate::" + o["q"], "o.val()", "type", lambda: (lambda v: (f"{o['Q']}::mk({i64(v)})", v))(self.v())))
        for T, e, what, mk in rhs:
            only_eq = r.random() < .2
            t["o"].append(f"impl PartialEq<{T}> for {n} {{ fn eq(&self, o: &{T}) -> bool {{ self.val() == {e} }} }}" + ("" if only_eq else f"\nimpl PartialOrd<{T}> for {n} {{ fn partial_cmp(&self, o: &{T}) -> Option<core::cmp::Ordering> {{ if self.val() == 1 {{ None }} else {{ self.val().partial_cmp(&({e})) }} }} }}")); t["kinds"].add(f"{'==' if only_eq else '<=>'} with a {what}" + ("" if k == 3 else ", besides " + ["PartialEq", "PartialOrd", "Ord"][k]))
            for _ in range(4):
                be, b = mk(); a = r.choice([b, 1, self.v()]); c = None if a == 1 else (a > b) - (a < b); bs = lambda x: "true" if x else "false"
                t["cc"].append("{ " + f'const auto a = {t["Q"]}::mk({i64(a)}); const auto b = {be}; tst::check_true("{n}({a}) against {T} {b}", (a == b) == {bs(a == b)} && (a != b) == {bs(a != b)}' + ("" if only_eq else f' && (a < b) == {bs(c == -1)} && (a > b) == {bs(c == 1)} && ((a <=> b) == std::partial_ordering::unordered) == {bs(c is None)}') + ");" + " }")

    def convert(self, t):
        r = self.r; n = t["n"]
        for c in self.rhs_set(t, own=False):
            if c.cls == t["q"]: continue
            self.dep(t, c); k = r.choice([3, 5, -7])
            into = r.random() < .0
            t["o"].append(f"impl From<{c.rs}> for {n} {{ fn from(r: {c.rs}) -> {n} {{ {n}::mk(({c.enc}).wrapping_mul({k})) }} }}"); t["kinds"].add("From " + c.kind)
            t["cc"].append(f"static_assert(std::is_constructible_v<{t['Q']}, {c.cc}>);" + (f" static_assert(!std::is_convertible_v<{c.cc}, {t['Q']}>);"))
            for _ in range(2): ce, enc = c.gen(r); t["cc"].append("{ " + f'auto a = {t["Q"]}({ce}); tst::check_true("{n} from {c.rs}", a.val() == {i64(w64(enc * k))});' + " }")
        outs = r.sample([("i16", "std::int16_t", "(V % 1000) as i16", lambda v: str(abs(v) % 1000 * (1 if v >= 0 else -1))), ("u8", "std::uint8_t", "V.rem_euclid(251) as u8", lambda v: str(v % 251)), ("bool", "bool", "V % 2 == 0", lambda v: "true" if v % 2 == 0 else "false"),
                         ("String", "rs::alloc::string::String", "V.to_string()", lambda v: hexs(str(v).encode())), ("i64", "std::int64_t", "V.wrapping_add(1)", lambda v: str(w64(v + 1))), ("(u8, bool)", "std::tuple<std::uint8_t, bool>", "(V.rem_euclid(251) as u8, V > 0)", lambda v: f"({v % 251},{'true' if v > 0 else 'false'})")], r.randint(0, 3))
        for rs, cc, e, want in outs:
            by_into = rs[0] == "(" or r.random() < .5
            ex = e.replace("V", "self.val()" if by_into else "r.val()")
            t["o"].append(f"impl Into<{rs}> for {n} {{ fn into(self) -> {rs} {{ {ex} }} }}" if by_into else f"impl From<{n}> for {rs} {{ fn from(r: {n}) -> {rs} {{ {ex} }} }}"); t["kinds"].add(f"conversion to {rs}")
            t["cc"].append(f"static_assert(!std::is_convertible_v<{t['Q']}, {cc}>);")
            for _ in range(2):
                v = self.v(); t["cc"].append("{ " + self.me(t, v, t["copy"]) + f' tst::check("{n} as {rs}", tst::ser(static_cast<{cc}>({"a" if t["copy"] else "std::move(a)"})), {cstr(want(v))});' + " }")

    def display(self, t):
        r = self.r; n = t["n"]; pre, suf = gen_text(r), gen_text(r)
        t["o"].append(f"impl core::fmt::Display for {n} {{ fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ f.write_str({rs_str(pre)})?; core::fmt::Display::fmt(&self.val(), f)?; f.write_str({rs_str(suf)}) }} }}"); t["kinds"].add("Display")
        for _ in range(2):
            v = self.v(); b = pre.encode() + str(v).encode() + suf.encode()
            t["cc"].append("{ " + f'const auto a = {t["Q"]}::mk({i64(v)}); std::ostringstream os; os << "x" << a << "y"; auto s = os.str(); tst::check("{n} streamed", tst::hex(s.data(), s.size()), {cstr(hexs(b"x" + b + b"y"))}); Sink_ k; AbslStringify(k, a); tst::check("{n} stringified", tst::hex(k.s.data(), k.s.size()), {cstr(hexs(b))});' + " }")

    def index(self):
        """Indexing, for reading and writing."""
        r = self.r; self.n += 1; n = f"X{self.n}"; mod = r.choice(self.mods); Q = "::".join(["lib", *mod, n]); o, cc = [], []; ln = r.randint(1, 8); el = r.choice(["i64", "u8", "String"])
        mut = r.random() < .7
        init = [r.randint(0, 200) for _ in range(ln)]
        ev = lambda x: f"String::from(\"v{x}\")" if el == "String" else f"{x}"
        sv = lambda x: hexs(f"v{x}".encode()) if el == "String" else str(x)
        o.append(f"pub struct {n} {{ v: [{el}; {ln}], pub k: u16 }}\nimpl {n} {{ pub fn mk() -> {n} {{ {n} {{ v: [{', '.join(map(ev, init))}], k: 7 }} }} pub fn at(&self, i: usize) -> {el} {{ self.v[i].clone() }} }}\nimpl Default for {n} {{ fn default() -> {n} {{ {n}::mk() }} }}")
        kinds = {"Index"}
        idx = r.sample([("usize", "i", lambda k: f"{k}u"), ("(u8, bool)", "if i.1 { self_ln - 1 - i.0 as usize } else { i.0 as usize }", lambda k: f"std::tuple<std::uint8_t, bool>({k}, false)"), ("&str", "i.len()", lambda k: f"rs_std::StrRef(\"{'z' * k}\")"), ("u16", "i as usize", lambda k: f"std::uint16_t{{{k}}}"), ("bool", "if i { self_ln - 1 } else { 0 }", lambda k: {0: "false"}.get(k, "true" if k == ln - 1 else None))], r.randint(1, 3))
        if any(x[0] == "usize" for x in idx): idx = [x for x in idx if x[0] not in ("u16", "bool")]
        elif any(x[0] == "u16" for x in idx): idx = [x for x in idx if x[0] != "bool"]
        for ty, e, mk in idx:
            e = e.replace("self_ln", str(ln))
            o.append(f"impl core::ops::Index<{ty}> for {n} {{ type Output = {el}; fn index(&self, i: {ty}) -> &{el} {{ &self.v[{e}] }} }}")
            if mut: o.append(f"impl core::ops::IndexMut<{ty}> for {n} {{ fn index_mut(&mut self, i: {ty}) -> &mut {el} {{ &mut self.v[{e}] }} }}"); kinds.add("IndexMut")
            kinds.add("index " + ty)
            for k in range(ln):
                if mk(k) is None: continue
                cc.append("{ " + f'const auto a = {Q}::mk(); tst::check("{n}[{k}]", tst::ser(a[{mk(k)}]), {cstr(sv(init[k]))});' + " }")
                if mut:
                    w = r.randint(0, 200); cv = f"rs::alloc::string::String(rs_std::StrRef(\"v{w}\"))" if el == "String" else str(w)
                    cc.append("{ " + f'auto a = {Q}::mk(); a[{mk(k)}] = {cv}; ' + " ".join(f'tst::check("{n} element {j} after [{k}] = {w}", tst::ser(a.at({j})), {cstr(sv(w if j == k else init[j]))});' for j in range(ln)) + f' tst::check_true("field beside", a.k == 7);' + " }")
            if ty in ("usize", "u16"): cc.append(f'tst::check_true("{n}[{ln}] ends the process", tst::died([] {{ auto a = {Q}::mk(); (void)a[{mk(ln)}]; }}));')
        self.items.append(TI(n, "\n".join(o), mod, cc="\n".join(cc), kinds=kinds))

    def iter(self):
        """Iterators and collections in range-for."""
        r = self.r; self.n += 1; n = f"I{self.n}"; mod = r.choice(self.mods); Q = "::".join(["lib", *mod, n]); L = "::".join(["lib", *mod, ""])
        T = r.choice([Int(r.choice(list(INTS))), Bool(), Char(), Str()])
        vs = [T.val(r) for _ in range(r.choice([0, 1, 2, 5, 17]))]
        arr = f"vec![{', '.join(T.rsx(v) for v in vs)}] as Vec<{T.rs()}>"
        want = cstr("[" + ",".join(T.ser(v) for v in vs) + "]")
        loop = lambda rng, var="x", ser="tst::ser(x)": f'std::string s = "["; bool first = true; for (auto&& {var} : {rng}) {{ if (!first) s += ","; first = false; s += {ser}; }} s += "]";'
        if r.random() < .5:
            # An iterator which counts its calls.
            rs = f"#[derive(Default)] pub struct {n} {{ v: Vec<{T.rs()}>, i: usize, calls: usize }}\nimpl {n} {{ pub fn mk() -> {n} {{ {n} {{ v: {arr}, i: 0, calls: 0 }} }} pub fn calls(&self) -> usize {{ self.calls }} }}\nimpl Iterator for {n} {{ type Item = {T.rs()}; fn next(&mut self) -> Option<{T.rs()}> {{ self.calls += 1; if self.i < self.v.len() {{ self.i += 1; Some(self.v[self.i - 1].clone()) }} else {{ None }} }} }}"
            cc = "{ " + f"auto it = {Q}::mk(); " + loop("it") + f' tst::check("items of {n}", s, {want}); tst::check_true("calls of {n}::next", it.calls() == {len(vs) + 1});' + " }"
            if len(vs) > 1: cc += "\n{ " + f"auto it = {Q}::mk(); " + f'for (auto&& x : it) {{ tst::check("first item of {n}", tst::ser(x), {cstr(T.ser(vs[0]))}); break; }} tst::check_true("{n} advanced once", it.calls() == 1); ' + loop("it") + f' tst::check("other items of {n}", s, {cstr("[" + ",".join(T.ser(v) for v in vs[1:]) + "]")});' + " }"
            cc += "\n{ " + f'auto it = {Q}::mk(); std::size_t k = 0; using Tr = rs_std::impl<{Q}, rs::core::iter::Iterator>; while (auto x = Tr::next(it)) k++; tst::check_true("{n} by next", k == {len(vs)});' + " }"
            self.items.append(TI(n, rs, mod, cc=cc, kinds={"Iterator", "item " + T.rs()})); return
        clone = ".clone()"
        rs = f"""#[derive(Clone, Default)] pub struct {n} {{ v: Vec<{T.rs()}> }}
impl {n} {{ pub fn mk() -> {n} {{ {n} {{ v: {arr} }} }} pub fn len(&self) -> usize {{ self.v.len() }} }}
#[derive(Clone, Default)] pub struct V{n} {{ v: Vec<{T.rs()}>, i: usize }}
impl Iterator for V{n} {{ type Item = {T.rs()}; fn next(&mut self) -> Option<{T.rs()}> {{ self.i += 1; self.v.get(self.i - 1).cloned() }} }}
impl IntoIterator for {n} {{ type Item = {T.rs()}; type IntoIter = V{n}; fn into_iter(self) -> V{n} {{ V{n} {{ v: self.v, i: 0 }} }} }}
#[derive(Clone)] pub struct R{n}<'a> {{ v: &'a {n}, i: usize }}
impl<'a> Iterator for R{n}<'a> {{ type Item = &'a {T.rs()}; fn next(&mut self) -> Option<&'a {T.rs()}> {{ self.i += 1; self.v.v.get(self.i - 1) }} }}
impl<'a> IntoIterator for &'a {n} {{ type Item = &'a {T.rs()}; type IntoIter = R{n}<'a>; fn into_iter(self) -> R{n}<'a> {{ R{n} {{ v: self, i: 0 }} }} }}"""
        refs = isinstance(T, (Int, Bool, Char, Str))   # what has a C++ reference
        mut = refs and r.random() < .6
        if not refs: rs = "\n".join(l for l in rs.split("\n") if "'a" not in l)
        if mut: rs += f"\npub struct M{n}<'a> {{ v: std::slice::IterMut<'a, {T.rs()}> }}\nimpl<'a> Iterator for M{n}<'a> {{ type Item = &'a mut {T.rs()}; fn next(&mut self) -> Option<&'a mut {T.rs()}> {{ self.v.next() }} }}\nimpl<'a> IntoIterator for &'a mut {n} {{ type Item = &'a mut {T.rs()}; type IntoIter = M{n}<'a>; fn into_iter(self) -> M{n}<'a> {{ M{n} {{ v: self.v.iter_mut() }} }} }}"
        cc = []
        if refs: cc.append("{ " + f"const auto c = {Q}::mk(); " + loop("c", ser="tst::ser(*x)") + f' tst::check("items of const {n}", s, {want}); }}')
        if mut:
            nv = [T.val(r) for _ in vs]; st = " ".join(f"if (k == {i}) *x = {T.ccx(v, 'top')};" for i, v in enumerate(nv))
            cc.append("{ " + f"auto c = {Q}::mk(); {{ std::size_t k = 0; for (auto&& x : c) {{ {st} k++; }} (void)k; }} const auto& cr = c; " + loop("cr", ser="tst::ser(*x)") + f' tst::check("items of {n} after writing", s, {cstr("[" + ",".join(T.ser(v) for v in nv) + "]")}); }}')
        cc.append("{ " + f"auto c = {Q}::mk(); auto it = std::move(c).into_iter(); " + loop("it") + f' tst::check("items of moved {n}", s, {want}); tst::check_true("{n} is the default value after it was moved from", c.len() == 0); }}')
        self.items.append(TI(n, rs, mod, cc="\n".join(cc), kinds={"IntoIterator", "item " + T.rs()} | ({"IntoIterator for &mut"} if mut else set())))

    def newtype(self):
        r = self.r; self.n += 1; n = f"W{self.n}"; mod = r.choice(self.mods); Q = "::".join(["lib", *mod, n])
        c = r.choice([x for x in PRIMS if x.rs not in ("&str", "&[u16]", "Option<u8>", "(u8, i16)")]); fr = r.random() < .5
        vis = r.choice(["pub ", "pub ", "", "pub(crate) "])
        neg = vis != "pub " and fr and r.random() < .6    # a private field: `From` may do something else than wrap
        rs = f"pub struct {n}({vis}{c.rs});\nimpl {n} {{ pub fn val(&self) -> i64 {{ let r = self.0.clone(); {c.enc} }} }}" + (f"\nimpl From<{c.rs}> for {n} {{ fn from(x: {c.rs}) -> {n} {{ " + (f"let _ = x; Default::default()" if neg else f"{n}(x)") + " } }" if fr else "") + f"\nimpl Default for {n} {{ fn default() -> {n} {{ {n}(Default::default()) }} }}"
        ce, enc = c.gen(r)
        if vis == "pub " or fr:
            cc = "{ " + f'auto a = {Q}({ce}); tst::check_true("{n} of {c.rs}", a.val() == ' + (f"{Q}().val()" if neg else i64(enc)) + f'); static_assert(!std::is_convertible_v<{c.cc}, {Q}>);' + " }"
        else: cc = "{ " + f'{Q} a; (void)a; static_assert(!std::is_constructible_v<{Q}, {c.cc}>); tst::check_true("{n}", true);' + " }"
        self.items.append(TI(n, rs, mod, cc=cc, kinds={"newtype" if vis == "pub " else "newtype with a private field" + (" and From" if fr else ""), "newtype of " + c.kind}))

    def clash(self):
        """Impls for two types which C++ can't tell apart (one of them is bound), or which it can though both are pointers in most places (both are bound)."""
        r = self.r; self.n += 1; n, mod = f"T{self.n}", r.choice(self.mods); Q = "::".join(["lib", *mod, n])
        o = [f"#[derive(Clone, Copy)] pub struct {n} {{ pub x: i64 }}", f"impl {n} {{ pub fn mk(x: i64) -> {n} {{ {n} {{ x }} }} pub fn val(&self) -> i64 {{ self.x }} }}", f"impl Default for {n} {{ fn default() -> {n} {{ {n}::mk(-11) }} }}"]
        cc = [f"auto a = {Q}::mk(5); static const std::uint8_t b8 = 3; static std::uint8_t m8 = 3; static const std::uint8_t* const pb8 = &b8; (void)b8; (void)m8; (void)pb8;"]; kinds, used = set(), set()
        # Rust types, C++ type, C++ argument for each
        SAME = [("&'static u8", "*const u8", "const std::uint8_t*", "&b8"), ("&'static mut u8", "*mut u8", "std::uint8_t*", "&m8"), ("&'static [u8]", "*const [u8]", "rs_std::SliceRef<const std::uint8_t>", "rs_std::SliceRef<const std::uint8_t>(std::span<const std::uint8_t>(&b8, 1))"),
                ('extern "C" fn(u8) -> i16', 'unsafe extern "C" fn(u8) -> i16', "std::int16_t (*)(std::uint8_t)", "*+[](std::uint8_t x) -> std::int16_t { return x; }"), ("usize", "u64", "std::uint64_t", "std::uint64_t{3}"), ("isize", "i64", "std::int64_t", "std::int64_t{3}"), ("&'static &'static u8", "*const *const u8", "const std::uint8_t* const*", "&pb8")]
        for tr in r.sample(["From", "Into", "Compare", "Index"] + ["op"] * 4, r.randint(2, 5)):
            two = r.random() < .35 and tr in ("From", "op") or tr == "Into"
            A, B, C, e = r.choice(SAME[:2] if two else SAME)
            ps = [(A, 1), (B, 2)]; r.shuffle(ps)
            if two and tr != "Into": ps = [(A.replace("'static ", ""), 1), (B, 2)]; r.shuffle(ps); uses = [(e[1:], "== 1"), (e, "== 2")]
            else: uses = [(e, "!= 5")]
            impls = lambda f: o.extend(f(T, k) for T, k in ps)
            chk = lambda what, X, w: f'tst::check_true("{n} {what} {C}", ({X}) {w});'
            if tr == "op":
                t, m, op = r.choice(BIN)
                if op in used: continue
                used.add(op)
                impls(lambda T, k: f"impl core::ops::{t}<{T}> for {n} {{ type Output = i64; fn {m}(self, _: {T}) -> i64 {{ {k} }} }}")
                for x, w in uses: cc.append(chk(op, f"a {op} {x}", w))
                if r.random() < .5:
                    impls(lambda T, k: f"impl core::ops::{t}Assign<{T}> for {n} {{ fn {m}_assign(&mut self, _: {T}) {{ self.x = {k} }} }}")
                    for x, w in uses: cc.append(f"{{ auto c = a; c {op}= {x}; " + chk(op + "=", "c.val()", w) + " }")
            elif tr == "From":
                impls(lambda T, k: f"impl From<{T}> for {n} {{ fn from(_: {T}) -> {n} {{ {n}::mk({k}) }} }}")
                for x, w in uses: cc.append(chk("from", f"{Q}({x}).val()", w))
            elif tr == "Into":
                m = "" if "mut" in A else "const "
                impls(lambda T, k: f"impl From<{n}> for {T} {{ fn from(_: {n}) -> {T} {{ Box::leak(Box::new({k})) }} }}")
                cc.append(chk("into reference", f"static_cast<{m}std::uint8_t&>(a)", "== 1") + " " + chk("into pointer", f"*static_cast<{m}std::uint8_t*>(a)", "== 2"))
            elif tr == "Compare":
                impls(lambda T, k: f"impl PartialEq<{T}> for {n} {{ fn eq(&self, _: &{T}) -> bool {{ self.x == 5 }} }}")
                cc.append("{ " + f"const std::type_identity_t<{C}> q = {e}; " + chk("==", "a == q && !(a != q)", "== true") + " }")
                if r.random() < .6:
                    impls(lambda T, k: f"impl PartialOrd<{T}> for {n} {{ fn partial_cmp(&self, _: &{T}) -> Option<core::cmp::Ordering> {{ Some(core::cmp::Ordering::Less) }} }}")
                    cc.append("{ " + f"const std::type_identity_t<{C}> q = {e}; " + chk("<=>", "a < q && !(a >= q)", "== true") + " }")
            else:
                impls(lambda T, k: f"impl core::ops::Index<{T}> for {n} {{ type Output = i64; fn index(&self, _: {T}) -> &i64 {{ &[0, 1, 2][{k}] }} }}")
                cc.append(chk("at", f"a[{e}]", "!= 5"))
            kinds.add(f"{'distinct' if two else 'indistinct'} arguments of {tr}")
        self.items.append(TI(n, "\n".join(o), mod, cc="\n".join(cc), kinds=kinds))

    def full(self):
        t = self.type(); r = self.r
        self.types.append(t)
        if r.random() < .8: self.binops(t)
        if r.random() < .6: self.compare(t)
        if r.random() < .6: self.convert(t)
        if r.random() < .5: self.display(t)
        self.items.append(TI(t["n"], "\n".join(t["o"]), t["mod"], deps=sorted(t["deps"]), cc="\n".join(t["cc"]), kinds=t["kinds"] | {"Copy" if t["copy"] else "with drop glue", t["kind"]}))


def gen(seed):
    g = G(random.Random(seed))
    for _ in range(6): g.full()
    for _ in range(2): g.index(); g.iter()
    g.iter(); g.newtype(); g.newtype(); g.clash(); g.clash()
    return g.items


def render(items): return topic.render(items, extra_inc=["#include <compare>", "#include <sstream>", "#include <span>", "#include <array>", "#include <optional>", "struct Sink_ { std::string s; void Append(std::string_view v) { s += v; } };"])


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one generated type with impls of operator, comparison, conversion, Display, Index or iterator traits, and a driver which uses each from C++; non-trivial: all, distinct by Rust text"
    def classify(items, case, res):
        for i in items:
            ctx.count(i.cc_main.count("tst::check") + i.cc_main.count("static_assert"))
            for k in i.kinds: ctx.cls(k)
            ctx.note(i.rust); ctx.sample(i.rust, 8)
    n = ctx.n(28, 800)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], gen, render, classify)


if __name__ == "__main__":
    sys.exit(runner.main("C11", check, sweep.replay_case))
