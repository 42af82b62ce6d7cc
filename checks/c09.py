#!/usr/bin/env python3
"""C09: public constants have the same value and the matching type in C++, at compile time."""
import math, os, random, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, sweep, topic
from topic import TI

INTS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}
CC = {"i8": "std::int8_t", "i16": "std::int16_t", "i32": "std::int32_t", "i64": "std::int64_t", "isize": "std::intptr_t", "u8": "std::uint8_t", "u16": "std::uint16_t", "u32": "std::uint32_t", "u64": "std::uint64_t",
      "usize": "std::uintptr_t", "bool": "bool", "f32": "float", "f64": "double", "&'static str": "rs_std::StrRef"}
CHARS = ["\0", "0", "7", "8", "9", "a", "f", "F", "x", "n", '"', "\\", "\n", "\r", "\t", "\x01", "\x1b", "\x7f", "\x80", "?", "??/", "??=", "%s", "{", "}", "{}", "u", "u{41}", "\\u0041", "\\x41", "\\0", "'", " ", "é", "ż", "漢", "😀", "\u200b",
         "\u2028", "\ufeff", "\ue000", "\ufffd", "\U0010ffff", "\u0301", "#", "//", "/*", "*/", "R\"(", ")\"", "$", "@", "`", "E", "L", "__NEWLINE__", "__COMMENT__", "\n#error x\n", "\\\n", ";", "abc", "12"]


def rstr(s):
    o = ""
    for c in s: o += c if c.isascii() and c.isprintable() and c not in '"\\' else "\\u{%x}" % ord(c)
    return f'"{o}"'


class G:
    def __init__(self, r):
        self.r, self.n, self.items = r, 0, []
        self.mods = [()]
        for _ in range(r.choice([0, 1, 2, 3])): self.n += 1; self.mods.append(r.choice([m for m in self.mods if len(m) < 3]) + (f"m{self.n}",))

    def int(self, t):
        r, w = self.r, INTS[t]; s = t[0] == "i"
        lo, hi = (-2**(w - 1), 2**(w - 1) - 1) if s else (0, 2**w - 1)
        k = r.randint(0, 4)
        if k == 0: v = r.choice([lo, hi, lo + 1, hi - 1])
        elif k == 1: v = r.choice([0, 1, 2, 32766, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 127, 128, 255, 256]) * (r.choice([1, -1]) if s else 1)
        elif k == 2: v = (1 << r.randrange(w)) + r.choice([-1, 0, 1])
        else: v = r.randint(lo, hi)
        v = max(lo, min(hi, v))
        form = r.randint(0, 5)
        if form == 0: e = f"{v & (2**w - 1):#x}u{t[1:]} as {t}"
        elif form == 1 and v == lo and s: e = f"{t}::MIN"
        elif form == 1 and v == hi: e = f"{t}::MAX"
        elif form == 2: a = r.randint(lo, hi); e = f"({a} as {t}).wrapping_add({(v - a) if lo <= v - a <= hi else ((v - a - lo) % 2**w + lo)} as {t})"
        elif form == 3: e = f"{{ const fn id(x: {t}) -> {t} {{ x }} id({v}) }}"
        elif form == 4: e = f"!({~v if s else (~v) % 2**w} as {t})"
        else: e = str(v)
        cc = f"{v}u" if not s and v < 2**31 else f"{v}ull" if not s else "(-9223372036854775807ll - 1)" if v == -2**63 else f"{v}ll"
        return e, v, f"static_assert(Q == {cc});", f"int {t}"

    def flt(self, t):
        r = self.r; w = int(t[1:]); I, F = ("<I", "<f") if w == 32 else ("<Q", "<d")
        k = r.randint(0, 8 if w == 64 else 7); man = 23 if w == 32 else 52
        if k == 0: b = r.choice([0, 1 << (w - 1), 1, (1 << (w - 1)) | 1, (1 << man) - 1, 1 << man])
        elif k == 1: b = struct.unpack(I, struct.pack(F, float(r.choice([1, -1]) * r.choice([1, 2, 3, 10, 100, 1000, 16777216, 123456, 10**7, 10**6, 4096, 2**20]))))[0]
        elif k == 2: b = r.choice([((1 << (w - 1 - man)) - 1) << man, ((1 << (w - man)) - 1) << man, (((1 << (w - 1 - man)) - 1) << man) | r.randrange(1, 1 << man)])   # infinities and NaN
        elif k == 3: b = struct.unpack(I, struct.pack(F, r.choice([.1, .2, .3, 1 / 3, 2.5, -.5, 1e10, 1e-5, 1e15, 1e16, 1e17, 123456789.125, 9007199254740993., 1e21])))[0]
        elif k == 4: b = r.randrange(1 << man)    # subnormal
        elif k == 8: b = struct.unpack(I, struct.pack(F, self.tricky()))[0]
        else: b = r.getrandbits(w)
        v = struct.unpack(F, struct.pack(I, b))[0]
        fin = math.isfinite(v)
        # Written in Rust as bits or as a decimal which reads back.
        e = f"{t}::from_bits({b:#x})" if not fin or w == 32 or r.random() < .5 else f"{v!r}" + ("f64")
        if not fin: return e, v, None, f"{t} not finite"
        return e, v, f"static_assert(std::bit_cast<std::uint{w}_t>(Q) == {b:#x}u{'ll' if w == 64 else ''});", f"{t} " + ("zero" if v == 0 else "subnormal" if abs(v) < (2**-126 if w == 32 else 2**-1022) else "whole" if v == int(v) else "fraction")

    def tricky(self):
        """An f64 whose shortest decimal form is so close to the middle between two f64s that rounding
        it to a wider type first is likely to give the other one."""
        while True:
            x = self.r.random() * 10 ** self.r.randint(-3, 3)
            m, d = x.as_integer_ratio(); s = repr(x)
            if "e" in s or d < 4: continue
            sh = 53 - m.bit_length(); m <<= sh; d <<= sh          # m has 53 bits
            i, f = s.split("."); t = 10 ** len(f)
            diff = int(i + f) * d - m * t                         # one unit in the last place is t
            if abs(abs(2 * diff) - t) * 2048 < t: return x

    def str(self):
        r = self.r
        s = "".join(r.choice(CHARS) for _ in range(r.choice([0, 1, 2, 3, 4, 6, 8, 30])))
        b = s.encode()
        lit = '"' + "".join(f"\\{x:03o}" for x in b) + '"'
        return (rstr(s) if r.random() < .7 or not s else f"concat!({', '.join(rstr(s[i:i + 3]) for i in range(0, len(s), 3))})"), s, f"static_assert(std::string_view(Q) == std::string_view({lit}, {len(b)}));", "str" + (" with NUL" if "\0" in s else "")

    def value(self, t): return self.int(t) if t in INTS else self.flt(t) if t[0] == "f" else self.str() if t[0] == "&" else (lambda v: (r"!0u8 & 1 == " + ("1" if v else "0"), v, f"static_assert(Q == {'true' if v else 'false'});", "bool"))(self.r.random() < .5)

    def one(self):
        r = self.r; self.n += 1; n = f"K{self.n}"; mod = r.choice(self.mods); t = r.choice(["f32", "f64", "f32", "f64", "bool", *INTS] + ["&'static str"] * 5)
        e, v, cc, kind = self.value(t)
        alias = ""; ty = t
        if r.random() < .15 and t[0] != "&": alias = f"pub type A{n} = {t};\n"; ty = f"A{n}"
        where = r.choice(["mod"] * 4 + ["struct", "struct", "enum", "union", "trait", "private"])
        q = "::".join(["lib", *mod])
        getter = f"pub fn get_{n}() -> {t} {{ %s }}"
        if where == "mod": rs = f"{alias}pub const {n}: {ty} = {e};\n" + getter % n; Q = f"{q}::{n}"
        elif where == "private": rs = f"mod p{n} {{ pub const {n}: {t} = {e}; }}\npub use p{n}::{n};\n" + getter % n; Q = f"{q}::{n}"
        elif where == "trait":
            other = self.value(t)[0]
            rs = f"pub trait T{n} {{ const {n}: {t}; }}\npub struct S{n} {{ pub x: u8 }}\nimpl T{n} for S{n} {{ const {n}: {t} = {e}; }}\npub struct O{n} {{ pub x: u8 }}\nimpl T{n} for O{n} {{ const {n}: {t} = {other}; }}\n" + getter % f"<S{n} as T{n}>::{n}"; Q = f"{q}::T{n}::impl<{q}::S{n}>::{n}"
        else:
            head = {"struct": f"pub struct S{n} {{ pub x: u8 }}", "enum": f"pub enum S{n} {{ A, B(u8) }}", "union": f"#[repr(C)] pub union S{n} {{ pub a: u8, pub b: u16 }}"}[where]
            rs = f"{head}\n{alias}impl S{n} {{ pub const {n}: {ty} = {e}; }}\n" + getter % f"S{n}::{n}"; Q = f"{q}::S{n}::{n}"
        kinds = {kind, "in " + where}
        if cc is None:
            # No literal says what these are: left out, with a reason.
            return self.items.append(TI(n, rs, mod, kinds=kinds, expect=[("lib", rf"Error generating bindings for [\w ]*`[^`]*\b{n}`", 1, 2, f"{n} is not finite, and has no constant in C++")]))
        body = [f"static_assert(std::is_same_v<decltype({Q}), const {CC[t]}>);", cc.replace("Q", Q, 1), f"constexpr auto copy = {Q}; (void)copy;"]
        if t[0] == "f": body.append(f'tst::check("{n}", tst::ser({Q}), tst::ser({q}::get_{n}()).c_str());')
        elif t[0] == "&": body.append(f'tst::check("{n}", tst::ser({Q}), tst::ser({q}::get_{n}()).c_str()); tst::check_true("length of {n}", std::string_view({Q}).size() == {len(v.encode())});')
        else: body.append(f'tst::check_true("{n} is what Rust says", {Q} == {q}::get_{n}());')
        if t in INTS and 0 < v < 50: body.append(f"int arr[{Q}]; static_assert(sizeof(arr) == {v} * sizeof(int)); (void)arr;")
        self.items.append(TI(n, rs, mod, cc="{ " + " ".join(body) + " }", kinds=kinds))


def gen(seed):
    g = G(random.Random(seed))
    for _ in range(45): g.one()
    return g.items


def render(items): return topic.render(items, extra_inc=["#include <bit>", "#include <string_view>"])


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one constant (in a module, a type or a trait impl; written as a literal or computed) with a generated value; non-trivial: all, distinct by Rust text"
    def classify(items, case, res):
        for i in items:
            ctx.count(max(1, i.cc_main.count("static_assert")))
            for k in i.kinds: ctx.cls(k)
            ctx.note(i.rust); ctx.sample(i.rust, 10)
    n = ctx.n(24, 700)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], gen, render, classify)


if __name__ == "__main__":
    sys.exit(runner.main("C09", check, sweep.replay_case))
