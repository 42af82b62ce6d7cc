"""Items which get bindings (with a driver that uses them), items which cannot get any, and items which must not."""
import random, re
from topic import TI

UNSUP = [  # (Rust text, kind, how C++ would use it)
    ("pub fn N<T>(t: T) {}", "function", "f"), ("pub fn N(x: i128) -> u8 { 0 }", "function", "f"), ("pub fn N() -> u128 { 0 }", "function", "f"),
    ("pub fn N() -> impl Iterator<Item = u8> { std::iter::empty() }", "function", "f"), ("pub fn N(x: &dyn core::fmt::Debug) {}", "function", "f"),
    ("pub fn N(x: Box<u8>) {}", "function", "f"), ("pub fn N(x: std::collections::HashMap<u8, u8>, y: u8) {}", "function", "f"), ("pub fn N(y: u8, f: impl Fn(u8)) {}", "function", "f"),
    ("pub static N: u8 = 3;", "static", "f"), ("pub static mut N: u8 = 3;", "static", "f"), ("pub const N: char = 'x';", "constant", "f"), ("pub const N: Option<u8> = None;", "constant", "f"),
    ("pub const N: [u8; 2] = [1, 2];", "constant", "f"), ("pub const N: u128 = 1;", "constant", "f"), ("pub const N: () = ();", "constant", "f"), ("pub const N: &[u8] = &[1];", "constant", "f"),
    ("pub struct N<T>(pub T);", "struct", "t"), ("pub struct N;", "struct", "t"), ("pub struct N { pub u: () }", "struct", "t"), ("pub enum N {}", "enum", "t"),
    ("pub struct N<const K: usize> { pub a: [u8; K] }", "struct", "t"), ("pub enum N<T> { A(T), B }", "enum", "t"), ("pub union N<T: Copy> { pub t: T, pub u: u8 }", "union", "t"),
    ("pub fn N(x: &u8, y: core::num::NonZeroU8) {}", "function", "f"), ("pub fn N(x: std::rc::Rc<u8>) {}", "function", "f"), ("pub fn N(x: fn(u8) -> u8) {}", "function", "f"),
    ("pub fn N(x: &Option<u128>) {}", "function", "f"), ("pub fn N(x: Result<u8, Box<dyn std::error::Error>>) {}", "function", "f"), ("pub fn N(x: [std::rc::Rc<u8>; 2]) {}", "function", "f"),
    ("pub type N = Box<u8>;", "type alias", "t"), ("pub const fn N<const K: usize>() -> usize { K }", "function", "f"), ("pub fn N(x: Vec<Box<u8>>) {}", "function", "f"),
    ("pub fn N(x: core::cell::RefCell<u8>) {}", "function", "f"), ("pub fn N(x: std::pin::Pin<&mut u8>) {}", "function", "f"), ("pub fn N() -> [u128; 0] { [] }", "function", "f"),
    ("pub fn N(x: *const dyn Fn()) {}", "function", "f"), ("pub fn N(x: &impl Clone) {}", "function", "f"), ("pub fn N(x: std::ops::Range<u8>) {}", "function", "f"),
    ("pub const N: fn() = || {};", "constant", "f"),
]
# Members which cannot get bindings: (Rust text, kind)
UNSUP_ASSOC = [("pub fn N(&self) -> Box<u8> { Box::new(1) }", "associated function"), ("pub fn N<T>(&self, t: T) {}", "associated function"), ("pub fn N(self: std::rc::Rc<Self>) {}", "associated function"),
               ("pub const N: Option<u8> = None;", "associated constant"), ("pub fn N(x: u128) -> u8 { 1 }", "associated function"), ("pub fn N(self: Box<Self>) {}", "associated function"),
               ("pub const N: (u8, u8) = (1, 2);", "associated constant"), ("pub fn N(&mut self, x: &dyn Fn()) {}", "associated function"), ("pub const N: char = 'q';", "associated constant")]


def q(mod, n, ns="lib"): return "::".join([ns, *mod, n])


class Gen:
    def __init__(self, r, prefix=""):
        self.r, self.n, self.items, self.p = r, 0, [], prefix
        self.mods = [()]
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            self.n += 1
            par = r.choice([m for m in self.mods if len(m) < 3])
            self.mods.append(par + (f"{prefix}m{self.n}",))

    def name(self, k): self.n += 1; return f"{self.p}{k}{self.n}"
    def mod(self): return self.r.choice(self.mods)

    # ---- with bindings
    def sup_fn(self, mod=None):
        r = self.r; n = self.name("ok_fn"); mod = self.mod() if mod is None else mod
        a, b, k = r.randint(-1000, 1000), r.randint(0, 255), r.randint(2, 99)
        self.items.append(TI(n, f"pub fn {n}(a: i32, b: u8) -> i64 {{ a as i64 * {k} + b as i64 }}", mod, cc=f'tst::check("{n}", tst::ser({q(mod, n)}({a}, {b})), "{a * k + b}");', kinds={"fn"}))
        return n

    def sup_const(self, mod=None):
        r = self.r; n = self.name("OK_C"); mod = self.mod() if mod is None else mod
        v = r.randint(-2**31, 2**31 - 1)
        self.items.append(TI(n, f"pub const {n}: i32 = {v};", mod, cc=f'static_assert({q(mod, n)} == {v}ll);', kinds={"const"}))
        return n

    def sup_struct(self, bad=0, mod=None):
        """A struct with good methods and `bad` members which get no bindings."""
        r = self.r; n = self.name("OkS"); mod = self.mod() if mod is None else mod
        good = r.randint(1, 3)
        x, y = r.randint(0, 2**32 - 1), r.randint(-128, 127)
        ms = [(f"    pub fn make(x: u32, y: i8) -> {n} {{ {n} {{ x, y }} }}", None)]
        cc = [f"{q(mod, n)} s = {q(mod, n)}::make({x}u, {y});", f'tst::check("{n}.x", tst::ser(s.x), "{x}"); tst::check("{n}.y", tst::ser(s.y), "{y}");']
        for i in range(good):
            k = r.randint(1, 1000)
            ms.append((f"    pub fn g{i}(&self, z: u16) -> u64 {{ (self.x as u64).wrapping_mul({k}) ^ z as u64 }}", None))
            cc.append(f'tst::check("{n}::g{i}", tst::ser(s.g{i}(513)), "{((x * k) & (2**64 - 1)) ^ 513}");')
        probes, expect, sub = [], [], []
        for _ in range(bad):
            t, kind = r.choice(UNSUP_ASSOC); m = self.name("bad")
            ms.append(("    " + t.replace("N", m, 1), (m, kind))); sub.append(m)
        tail = ms[1:]; r.shuffle(tail); ms = ms[:1] + tail
        lines = [f"pub struct {n} {{ pub x: u32, pub y: i8 }}", f"impl {n} {{"] + [m for m, _ in ms] + ["}"]
        for i, (_, b) in enumerate(ms):
            if b:
                expect.append(("lib", rf"^// Error generating bindings for {b[1]} `{q(mod, n)}::{b[0]}` defined at (\./)?lib\.rs;l=@LINE({n}+{i + 2}): \S", 1, 1, f"`{n}::{b[0]}` has no comment that says why it has no bindings"))
                probes.append((f"(void)sizeof(&{q(mod, n)}::{b[0]});", False))
        it = TI(n, "\n".join(lines), mod, cc=" ".join(cc), probes=probes, expect=expect, kinds={"struct"} | ({"struct with unsupported members"} if bad else set()))
        it.bad = [q(mod, n) + "::" + m for m in sub]
        self.items.append(it)
        return n

    def sup_enum(self, bad=0, mod=None):
        r = self.r; n = self.name("OkE"); mod = self.mod() if mod is None else mod
        k = r.randint(0, 200)
        vs = ["A", "B(u8)"]; probes, expect = [], []
        bads = []
        for _ in range(bad):
            b = self.name("Bad"); bads.append(b); vs.insert(r.randint(0, len(vs)), f"{b} {{ x: u8 }}")
        lines = [f"pub enum {n} {{"] + [f"    {v}," for v in vs] + ["}", f"impl {n} {{ pub fn num(&self) -> u16 {{ match self {{ {n}::A => 300, {n}::B(x) => *x as u16, _ => 999 }} }} }}"]
        for i, v in enumerate(vs):
            b = v.split(" ")[0]
            if b in bads:
                expect.append(("lib", rf"^// Error generating bindings for variant `{q(mod, n)}::{b}` defined at (\./)?lib\.rs;l=@LINE({n}+{i + 1}): \S", 1, 1, f"variant `{n}::{b}` has no comment that says why it has no bindings"))
                probes.append((f"(void){q(mod, n)}::Make{b}(1);", False))
        it = TI(n, "\n".join(lines), mod, cc=f'tst::check("{n}::A", tst::ser({q(mod, n)}::MakeA().num()), "300"); tst::check("{n}::B", tst::ser({q(mod, n)}::MakeB({k}).num()), "{k}");', probes=probes, expect=expect, kinds={"enum"})
        it.bad = [q(mod, n) + "::" + b for b in bads]
        self.items.append(it)
        return n

    def sup_alias(self, mod=None):
        r = self.r; n = self.name("OkA"); mod = self.mod() if mod is None else mod
        t, c = r.choice([("u16", "std::uint16_t"), ("i64", "std::int64_t"), ("f32", "float"), ("*const u8", "const std::uint8_t*"), ("bool", "bool")])
        self.items.append(TI(n, f"pub type {n} = {t};", mod, cc=f"static_assert(std::is_same_v<{q(mod, n)}, {c}>);", kinds={"alias"}))
        return n

    def sup_trait(self, mod=None):
        r = self.r; n = self.name("OkT"); mod = self.mod() if mod is None else mod
        k = r.randint(0, 10**6)
        t = f"{n}S"
        self.items.append(TI(n, f"pub trait {n} {{ fn tr(&self) -> u32; }}\npub struct {t} {{ pub v: u32 }}\nimpl {t} {{ pub fn make(v: u32) -> {t} {{ {t} {{ v }} }} }}\nimpl {n} for {t} {{ fn tr(&self) -> u32 {{ self.v ^ 5 }} }}", mod,
                             cc=f'auto s = {q(mod, t)}::make({k}); tst::check("{n}::tr", tst::ser({q(mod, n)}::impl<{q(mod, t)}>::tr(s)), "{k ^ 5}");', kinds={"trait"}))
        return n

    def sup(self, bad=0, mod=None):
        k = self.r.random()
        if k < .3: return self.sup_fn(mod)
        if k < .4: return self.sup_const(mod)
        if k < .65: return self.sup_struct(self.r.randint(0, bad), mod)
        if k < .78: return self.sup_enum(self.r.randint(0, min(bad, 1)), mod)
        if k < .88: return self.sup_alias(mod)
        return self.sup_trait(mod)

    # ---- without bindings
    def unsup(self):
        r = self.r; mod = self.mod(); n = self.name("un")
        k = r.random()
        if k < .82:
            t, kind, use = r.choice(UNSUP)
            rust, deps = re.sub(r"\bN\b", n, t), ()
        elif k < .9:
            # Unsupported only because of another item.
            d = self.name("unz"); use, kind = "f", "function"
            t0, tx = r.choice([(f"pub struct {d};", f"crate::{'::'.join([*mod, d])}"), (f"pub struct {d}<T>(pub T);", f"crate::{'::'.join([*mod, d])}<u8>")])
            self.items.append(TI(d, t0, mod, kinds={"unsupported"}, probes=[(f"(void)sizeof({q(mod, d)}*);", False)],
                                 expect=[("lib", rf"^// Error generating bindings for struct `{q(mod, d)}` defined at (\./)?lib\.rs;l=@LINE({d}): \S", 1, 1, f"`{d}` has no comment that says why it has no bindings")]))
            self.items[-1].bad = [q(mod, d)]
            rust, deps = r.choice([f"pub fn {n}(x: &{tx}) {{}}", f"pub fn {n}(x: u8, y: {tx}) {{}}", f"pub fn {n}() -> {tx} {{ loop {{}} }}", f"pub fn {n}(x: *const {tx}) {{}}"]), (d,)
        else:
            mod = (); kind, use = "macro", None
            rust, deps = f"#[macro_export] macro_rules! {n} {{ () => {{}} }}", ()
        probes = [] if use is None else [(f"(void)sizeof(&{q(mod, n)});", False)] if use == "f" else [(f"(void)sizeof({q(mod, n)}*);", False)]
        off = "+0"
        it = TI(n, rust, mod, deps, probes=probes, kinds={"unsupported", "unsupported " + kind},
                expect=[("lib", rf"^// Error generating bindings for {kind} `{q(mod, n)}` defined at (\./)?lib\.rs;l=@LINE({n}): \S", 1, 1, f"`{n}` has no comment that says why it has no bindings")])
        it.bad = [q(mod, n)]
        self.items.append(it)
        return n
