#!/usr/bin/env python3
"""C01: whatever the public API of a crate is, the tool neither fails nor crashes, and both halves of its output compile."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, e2e, runner, sweep, topic
from topic import TI
from gen_core import order

INTS = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize"]
PRIM = INTS + ["f32", "f64", "bool", "char"]
# std types without parameters.
STD0 = ["String", "std::path::PathBuf", "std::ffi::OsString", "std::ffi::CString", "std::time::Duration", "std::time::Instant", "std::time::SystemTime", "std::cmp::Ordering", "std::sync::atomic::AtomicU8",
        "std::sync::atomic::AtomicUsize", "std::sync::atomic::AtomicBool", "std::sync::atomic::Ordering", "std::num::NonZeroU8", "std::num::NonZeroI64", "std::net::IpAddr", "std::net::Ipv4Addr", "std::net::SocketAddr",
        "std::any::TypeId", "std::alloc::Layout", "std::convert::Infallible", "std::fmt::Error", "std::io::Error", "std::io::ErrorKind", "std::num::ParseIntError", "std::str::Utf8Error", "std::task::Waker",
        "std::ffi::c_int", "std::ffi::c_char", "std::ffi::c_long", "std::ffi::c_void", "std::fs::File", "std::process::ExitStatus", "std::thread::ThreadId", "std::ops::RangeFull", "std::marker::PhantomPinned",
        "std::collections::hash_map::RandomState", "std::char::ParseCharError", "std::string::FromUtf8Error", "std::alloc::System", "std::net::Ipv6Addr", "std::str::Chars<'static>", "std::borrow::Cow<'static, str>",
        "std::fmt::Arguments<'static>", "std::path::Component<'static>", "std::num::FpCategory", "std::array::TryFromSliceError", "std::iter::Empty<u8>", "std::env::VarError", "std::sync::Once", "std::process::ExitCode"]
STD1 = ["Option", "Option", "Option", "Vec", "Vec", "Box", "std::rc::Rc", "std::sync::Arc", "std::cell::Cell", "std::cell::RefCell", "std::cell::UnsafeCell", "std::cell::OnceCell", "std::collections::VecDeque",
        "std::collections::BTreeSet", "std::collections::HashSet", "std::ops::Range", "std::ops::RangeInclusive", "std::ops::RangeFrom", "std::ops::Bound", "std::marker::PhantomData", "std::mem::MaybeUninit",
        "std::mem::ManuallyDrop", "std::num::Wrapping", "std::num::Saturating", "std::cmp::Reverse", "std::ptr::NonNull", "std::task::Poll", "std::sync::Mutex", "std::sync::RwLock", "std::sync::OnceLock", "std::vec::IntoIter",
        "std::option::IntoIter", "std::iter::Once", "std::iter::Rev", "std::iter::Skip", "std::rc::Weak", "std::sync::mpsc::Sender", "std::future::Ready", "std::panic::AssertUnwindSafe", "std::collections::BinaryHeap",
        "std::collections::LinkedList", "std::io::Cursor", "std::io::BufReader"]
STD2 = ["Result", "Result", "std::collections::HashMap", "std::collections::BTreeMap", "std::ops::ControlFlow", "std::iter::Zip", "std::iter::Chain", "std::iter::Map"]
UNSIZED = ["str", "[u8]", "std::path::Path", "std::ffi::OsStr", "std::ffi::CStr", "dyn std::fmt::Debug", "dyn std::any::Any + Send", "dyn Fn(u8) -> u8", "dyn FnMut()", "dyn std::error::Error + 'static", "dyn Iterator<Item = u8>", "dyn std::fmt::Display + Send + Sync"]
BOUNDS = ["Clone", "Copy", "Default", "std::fmt::Debug", "Send", "Sync", "Sized", "PartialEq", "Eq + std::hash::Hash", "Ord", "Into<u8>", "AsRef<str>", "From<u8>", "Fn(u8) -> u8", "FnOnce()", "Iterator<Item = u8>", "IntoIterator", "'static",
          "?Sized", "std::ops::Add<Output = u8>", "std::str::FromStr", "ToString", "std::error::Error", "std::future::Future<Output = ()>", "Unpin", "std::any::Any", "Into<String>", "AsRef<[u8]>", "AsRef<std::path::Path>", "Extend<u8>"]


class G:
    def __init__(self, r):
        self.r, self.n, self.items = r, 0, []
        self.mods = [()]
        for k in range(r.choice([0, 0, 1, 2, 3])): self.mods.append(r.choice([m for m in self.mods if len(m) < 3]) + (f"m{k}",))
        self.adts = []       # (path, lifetimes, types, consts, id) of types which exist
        self.traits = []     # (path, type params, id)
        self.done = set()
        # Types which are used before they exist: fields of earlier types refer to later ones and the other way round.
        self.plan = [(self.mod(), self.id("F")) for _ in range(r.choice([0, 1, 2, 4]))]
        self.todo = list(self.plan)

    def fresh(self, p):
        """Module and name of a new type, and whether it was announced (and so has no parameters)."""
        if self.todo and self.r.random() < .5: return (*self.todo.pop(self.r.randrange(len(self.todo))), True)
        return self.mod(), self.id(p), False

    def fwd(self, c, deps):
        r = self.r
        mod, n = r.choice(self.plan); f = self.path(mod, n)
        if deps is not None: deps.add(n)
        l = "'static "
        return r.choice([f"*const {f}", f"*mut {f}", f"Vec<{f}>", f"Box<{f}>", f"Option<Box<{f}>>", f"&{l}{f}", f"&{l}mut {f}", f"Option<&{l}{f}>", f"&{l}[{f}]", f"*mut [{f}]", f"fn({f}) -> {f}", f"extern \"C\" fn(&{f})", f"Option<extern \"C\" fn({f})>",
                         f"std::marker::PhantomData<{f}>", f"[*const {f}; 2]", f"(*const {f}, &{l}{f})", f"Result<Box<{f}>, u8>", f"Option<Vec<{f}>>", f"&{l}[&{l}{f}]", f"*const *const {f}", f"[{f}; 0]", f"[{f}; 2]", f"({f}, u8)", f"Option<{f}>", f"std::mem::MaybeUninit<{f}>", f, f, f])

    def id(self, p): self.n += 1; return f"{p}{self.n}"
    def mod(self): return self.r.choice(self.mods)
    def path(self, mod, n): return "::".join(["crate", *mod, n])

    # --- types ------------------------------------------------------------------------------------
    def life(self, c):
        """c: what the context has: lifetimes, type parameters, whether lifetimes may be left out."""
        r = self.r
        return r.choice([*(f"'{l} " for l in c["l"]), "'static ", *([""] * (2 if c["elide"] else 0))])

    def ty(self, c, d=2, deps=None, sized=True, in_ref=False):
        r = self.r
        k = r.choices(["prim", "std0", "std1", "std2", "ref", "slice", "str", "ptr", "tuple", "array", "adt", "param", "fn", "unit", "dynref", "refunsized", "ptrun", "self", "fwd"],
                      [9, 5, 6 if d else 0, 3 if d else 0, 5 if d else 0, 3 if d else 0, 3, 3 if d else 0, 4 if d else 0, 3 if d else 0, 8 if self.adts else 0, 4 if c["t"] else 0, 2 if d else 0, 1, 1, 2, 1, 1 if c.get("self") else 0, 4 if self.plan else 0])[0]
        T = lambda **kw: self.ty(c, d - 1, deps, **kw)
        if k == "prim": return r.choice(PRIM)
        if k == "std0": return r.choice(STD0)
        if k == "std1":
            g = r.choice(STD1)
            if g in ("Box", "std::rc::Rc", "std::sync::Arc") and r.random() < .3: return f"{g}<{r.choice([u.replace(chr(39) + 'static', chr(39) + 'static') for u in UNSIZED])}>"
            return f"{g}<{T()}>"
        if k == "std2": return f"{r.choice(STD2)}<{T()}, {T()}>"
        if k == "ref": return f"&{self.life(c)}{r.choice(['', '', 'mut '])}{T()}" if not c["t"] else f"&{self.life(c) if c['elide'] else chr(39) + 'static '}{r.choice(['', '', 'mut '])}{self.ty({**c, 't': []}, d - 1, deps)}"
        if k == "slice": return f"&{self.life(c)}{r.choice(['', '', 'mut '])}[{self.ty({**c, 't': []}, d - 1, deps)}]"
        if k == "str": return f"&{self.life(c)}{r.choice(['', '', 'mut '])}str"
        if k == "refunsized": return f"&{self.life(c)}{r.choice(['', 'mut '])}{self.par(r.choice(UNSIZED))}"
        if k == "dynref": return f"Box<{r.choice(UNSIZED)}>"
        if k == "ptr": return f"*{r.choice(['const', 'mut'])} {T()}"
        if k == "ptrun": return f"*{r.choice(['const', 'mut'])} {self.par(r.choice(UNSIZED))}"
        if k == "tuple": m = r.choice([1, 2, 2, 3, 4]); return "(" + ", ".join(T() for _ in range(m)) + ("," if m == 1 else "") + ")"
        if k == "array": return f"[{T()}; {r.choice(['0', '1', '2', '3', '17', *c['c']])}]"
        if k == "unit": return "()"
        if k == "self": return "Self"
        if k == "fwd": return self.fwd(c, deps)
        if k == "param": return r.choice(c["t"])
        if k == "fn":
            a = ", ".join(self.ty({**c, "l": [], "elide": False}, d - 1, deps) for _ in range(r.choice([0, 1, 2])))
            q = r.choice(["", "", "extern \"C\" ", "unsafe ", "unsafe extern \"C\" "])
            return f"{q}fn({a})" + (f" -> {self.ty({**c, 'elide': False}, d - 1, deps)}" if r.random() < .5 else "")
        p, ls, ts, cs, i = r.choice(self.adts)
        if deps is not None: deps.add(i)
        args = [self.life({**c, "elide": False}).strip() for _ in ls] + [self.ty({**c, "elide": False}, max(d - 1, 0), deps) for _ in ts] + [r.choice(["0", "3", *c["c"]]) for _ in cs]
        return p + (f"<{', '.join(args)}>" if args else "")

    def par(self, t): return f"({t})" if " + " in t else t

    def ctx(self, l=(), t=(), c=(), elide=False, /, **kw): return {"l": list(l), "t": list(t), "c": list(c), "elide": elide, **kw}

    def generics(self, p=.25):
        """Lifetimes, type parameters, const parameters."""
        r = self.r
        ls = ["a", "b"][: r.choice([1, 1, 2])] if r.random() < p else []
        ts = ["T", "U"][: r.choice([1, 1, 2])] if r.random() < p * .6 else []
        cs = ["N"] if r.random() < p * .3 else []
        return ls, ts, cs

    def gen_decl(self, ls, ts, cs, bounds=True):
        r = self.r
        out = [f"'{l}" for l in ls] + [t + (f": {r.choice([b for b in BOUNDS if b not in ('?Sized',)])}" if bounds and r.random() < .4 else "") for t in ts] + [f"const {c}: usize" for c in cs]
        return f"<{', '.join(out)}>" if out else ""

    def gen_args(self, ls, ts, cs): return f"<{', '.join([chr(39) + l for l in ls] + ts + cs)}>" if ls or ts or cs else ""

    def attrs(self):
        r = self.r
        return r.choice([""] * 8 + ["#[must_use]\n", "#[deprecated]\n", "/// Some docs.\n", "#[doc(hidden)]\n", "#[allow(dead_code)]\n", "#[inline]\n" if False else "", "#[non_exhaustive]\n" if False else "", "#[cfg(all())]\n", "/** block\n * docs */\n"])

    # A name of its own in C++.
    def ann(self):
        r = self.r
        return f'#[doc = "CRUBIT_ANNOTATE: cpp_name={self.id("Renamed")}"]\n' if r.random() < .05 else ""

    def derive(self, n):
        r = self.r; self.derived = set()
        if r.random() < .6: return ""
        o = [t for t in ("Clone", "Default", "PartialEq", "Debug", "Hash") if r.random() < .4]
        if r.random() < .3: o = sorted({*o, "Clone", "Copy"})
        if "PartialEq" in o and r.random() < .4: o.append(r.choice(["PartialOrd", "Eq"]))
        self.derived = set(o)
        return f"#[derive({', '.join(o)})]\n" if o else ""

    def kinds(self, rep): return {m for m in re.findall(r"\w+", rep) if m in ("C", "transparent", "packed", "align")} | ({"derive " + "+".join(sorted(self.derived))} if getattr(self, "derived", 0) and False else set())

    def vis(self): return self.r.choice(["pub "] * 8 + ["", "pub(crate) "])

    def item(self, id, rust, mod, deps=(), kinds=()):
        i = TI(id, rust, mod, deps=sorted(d for d in deps if d != id), kinds=kinds)
        self.items.append(i)
        return i

    # --- items ------------------------------------------------------------------------------------
    def fields(self, c, deps, n): return [self.ty(c, 2, deps) for _ in range(n)]

    def phantom(self, ls, ts): return ([f"std::marker::PhantomData<({', '.join([f'&{chr(39)}{l} ()' for l in ls] + ts)},)>"] if ls or ts else [])

    def struct(self):
        r = self.r; mod, n, f = self.fresh("S"); deps = set()
        ls, ts, cs = self.generics(0 if f else .25)
        c = self.ctx(ls, ts, cs)
        fs = self.fields(c, deps, r.choice([0, 1, 1, 2, 3, 5]))
        rep = r.choice([""] * 5 + ["#[repr(C)]\n", "#[repr(C)]\n", "#[repr(align(16))]\n", "#[repr(C, align(4))]\n", "#[repr(packed)]\n", "#[repr(C, packed(2))]\n", "#[repr(transparent)]\n"])
        if "transparent" in rep:
            fs = fs[:1]
            for _ in range(r.choice([0, 0, 1, 2])): fs.insert(r.randrange(len(fs) + 1), r.choice(["()", "std::marker::PhantomData<String>", "[u8; 0]", "std::marker::PhantomData<*const u8>", "((), ())", "[(); 5]"]))
        if "packed" in rep: fs = [f for f in fs if not re.search(r"\bcrate::", f)]
        fs += self.phantom(ls, ts)
        g = self.gen_decl(ls, ts, cs, False)
        k = r.choice(["named", "named", "tuple"])
        if k == "named": body = " { " + ", ".join(f"{self.vis()}f{i}: {t}" for i, t in enumerate(fs)) + " }"
        else: body = "(" + ", ".join(f"{self.vis()}{t}" for t in fs) + ");"
        if not fs and r.random() < .5: body = ";"
        names = r.sample(NAMES, len(fs))
        if r.random() < .15: body = re.sub(r"\bf(\d+): ", lambda m: names[int(m[1])] + ": ", body)
        self.item(n, f"{self.attrs()}{self.ann()}{self.derive(n)}{rep}{'#[non_exhaustive]' if r.random() < .05 else ''}pub struct {n}{g}{body}", mod, deps, {"struct", *self.kinds(rep)}).fallback = not g and f"pub struct {n} {{ pub a: u8 }}"
        self.adts.append((self.path(mod, n), ls, ts, cs, n)); self.impls(n, mod, ls, ts, cs, rep, "struct")

    def enum(self):
        r = self.r; mod, n, f = self.fresh("E"); deps = set()
        ls, ts, cs = self.generics(0 if f else .15)
        c = self.ctx(ls, ts, cs)
        vs = []; plain = r.random() < .4
        rep = r.choice(["", "", "", "#[repr(u8)]\n", "#[repr(i64)]\n", "#[repr(C)]\n", "#[repr(C, u16)]\n", "#[repr(isize)]\n"])
        m = r.choice([0, 1, 2, 2, 3, 5]) if not rep else r.choice([1, 2, 2, 3, 5])
        disc = 0
        for k in range(m):
            v = f"V{k}"; kind = "unit" if plain else r.choice(["unit", "tuple", "struct", "empty"])
            if kind == "unit":
                d = ""
                if (plain or (rep and rep != "#[repr(C)]\n")) and r.random() < .3: disc += r.randint(1, 9); d = f" = {disc}"
                vs.append(v + d)
            elif kind == "tuple": vs.append(f"{v}({', '.join(self.fields(c, deps, r.choice([1, 1, 2, 3])))})")
            elif kind == "empty": vs.append(v + r.choice(["()", "{}"]))
            else: vs.append(f"{v} {{ {', '.join(f'x{i}: {t}' for i, t in enumerate(self.fields(c, deps, r.choice([1, 2]))))} }}")
            disc += 1
        ph = self.phantom(ls, ts)
        if ph: vs.append(f"Ph({ph[0]})")
        self.item(n, f"{self.attrs()}{self.ann()}{self.derive(n)}{rep}pub enum {n}{self.gen_decl(ls, ts, cs, False)} {{ {', '.join(vs)} }}", mod, deps, {"enum", *self.kinds(rep)}).fallback = not self.gen_decl(ls, ts, cs, False) and f"pub struct {n} {{ pub a: u8 }}"
        self.adts.append((self.path(mod, n), ls, ts, cs, n)); self.impls(n, mod, ls, ts, cs, rep, "enum")

    def union(self):
        r = self.r; mod, n, f = self.fresh("U"); deps = set()
        c = self.ctx()
        fs = [r.choice([f"std::mem::ManuallyDrop<{self.ty(c, 2, deps)}>", f"[{r.choice(PRIM)}; 0]", f"std::mem::MaybeUninit<{self.ty(c, 1, deps)}>", r.choice(PRIM), f"[{r.choice(PRIM)}; 3]", f"*const {self.ty(c, 1, deps)}", "()", f"({r.choice(PRIM)}, {r.choice(PRIM)})"]) for _ in range(r.choice([1, 2, 3]))]
        rep = r.choice(["", "#[repr(C)]\n", "#[repr(C)]\n"])
        self.item(n, f"{self.attrs()}{self.ann()}{rep}pub union {n} {{ {', '.join(f'{self.vis()}f{i}: {t}' for i, t in enumerate(fs))} }}", mod, deps, {"union", *self.kinds(rep)}).fallback = f"pub struct {n} {{ pub a: u8 }}"
        self.adts.append((self.path(mod, n), [], [], [], n)); self.impls(n, mod, [], [], [], rep, "union")

    def sig(self, name, c, deps, recv="", quals=True, body="{ loop {} }", decl=None):
        r = self.r
        ca = {**c, "elide": True}
        ls, ts, cs = self.generics(.12)
        ls = [l + "0" for l in ls]; ts = ["P" + t for t in ts]; cs = ["PN" for _ in cs]
        c2 = {**ca, "l": c["l"] + ls, "t": c["t"] + ts, "c": c["c"] + cs}
        args = [recv] if recv else []
        for k in range(r.choice([0, 1, 1, 2, 3, 4])):
            if r.random() < .08: args.append(f"a{k}: impl {r.choice(BOUNDS[:-1])}" if True else ""); continue
            t = self.ty(c2, 2, deps)
            pat = r.choice([f"a{k}"] * 6 + [f"mut a{k}" if body else f"a{k}", "_"])
            args.append(f"{pat}: {t}")
        args = [a.replace("impl ?Sized", "impl Clone").replace("impl 'static", "impl Clone").replace("impl Sized", "impl Clone") for a in args]
        cr = {**c2, "elide": False}
        ret = r.choice(["", "T", "T", "T", "N", "I"])
        if ret == "T": ret = " -> " + self.ty(cr, 2, deps)
        elif ret == "N": ret = r.choice(["", " -> !"])
        elif ret == "I": ret = " -> impl " + r.choice(["Clone", "Iterator<Item = u8>", "std::future::Future<Output = u8>", "Fn(u8) -> u8"]) if body else ""
        q = ""
        if quals:
            q = r.choice([""] * 8 + ["unsafe ", "extern \"C\" ", "const ", "async ", "unsafe extern \"C\" "])
            if "impl " in ret: q = ""
            if q == "async " and " -> !" in ret: q = ""
        b = body
        if body and "impl " in ret:
            b = {"Clone": "{ 3u8 }", "Iter": "{ std::iter::empty() }", "std:": "{ std::future::ready(3u8) }", "Fn(u": "{ |x| x }"}[ret.split("impl ")[1][:4] if not ret.split("impl ")[1].startswith("Clone") else "Clone"]
        if q == "const ": b = "{ loop {} }"
        g = self.gen_decl(ls, ts, cs)
        return f"{q}fn {name}{g}({', '.join(args)}){ret} {b}"

    def fn(self):
        n = self.id("f"); mod = self.mod(); deps = set()
        s = self.sig(n, self.ctx(), deps)
        pre = self.attrs()
        if "extern \"C\"" in s and "<" not in s.split("(")[0] and "impl " not in s and self.r.random() < .5: pre += self.r.choice(["#[unsafe(no_mangle)]\n", f"#[unsafe(export_name = \"exp_{n}\")]\n"])
        self.item(n, f"{pre}pub {s}", mod, deps, {"fn"})

    # A type parameter of an impl must be constrained, so that impls are for the type with its own parameters, or instantiated.
    def impl_head(self, n, mod, ls, ts, cs, trait=""):
        me = self.path(mod, n) + self.gen_args(ls, ts, cs)
        return f"impl{self.gen_decl(ls, ts, cs, False)} {trait + ' for ' if trait else ''}{me}", me

    def impls(self, n, mod, ls, ts, cs, rep, kind):
        r = self.r
        c = self.ctx(ls, ts, cs, self=True)
        packed = "packed" in rep
        if r.random() < .5:
            deps = {n}; h, me = self.impl_head(n, mod, ls, ts, cs); ms = []
            for _ in range(r.choice([1, 2, 4])):
                m = self.id("m")
                recv = r.choice(["", "", "&self", "&self", "&mut self", "self", "mut self", "self: &Self", "self: Box<Self>", "self: std::rc::Rc<Self>", "self: std::pin::Pin<&mut Self>", "self: &std::sync::Arc<Self>", *(f"&'{l} self" for l in ls), "self: &&Self"])
                if r.random() < .12: ms.append(f"{self.attrs()}{self.vis()}const {m.upper()}: {self.const_val()};"); continue
                ms.append(self.attrs() + self.vis() + self.sig(m, c, deps, recv))
            i = self.id("impl"); self.item(i, h + " {\n" + "\n".join(ms) + "\n}", self.mod(), deps, {"inherent impl"})
        todo = r.sample(["Clone", "Default", "Drop", "PartialEq", "PartialOrd", "Debug", "Display", "From", "Into", "AsRef", "Deref", "Index", "Iterator", "IntoIterator", "RefIntoIterator", "Ops", "OpsAssign", "Neg", "Hash", "FromStr", "Error", "Future", "FromIterator", "Extend",
                         "Borrow", "Send", "Eq", "Try", "RefOps", "PartialEqOther", "Copy"], r.choice([0, 1, 2, 4]))
        if kind == "union": self.derived = set()
        todo = [t for t in todo if t not in self.derived and not ("Copy" in self.derived and t == "Drop")]
        has = set(todo) | self.derived
        for t in todo: self.std_impl(t, n, mod, ls, ts, cs, has, packed, kind)

    def const_val(self):
        r = self.r
        t, v = r.choice([("u8", "3"), ("i64", "-5"), ("f32", "1.5"), ("bool", "true"), ("char", "'x'"), ("&'static str", "\"abc\""), ("u128", "7"), ("Option<u8>", "None"), ("(u8, i8)", "(1, -1)"), ("[u8; 3]", "[1, 2, 3]"), ("&'static [u8]", "&[1, 2]"), ("usize", "9"),
                         ("fn()", "|| {}"), ("()", "()"), ("f64", "f64::NAN"), ("f64", "f64::INFINITY"), ("i128", "i128::MIN"), ("&'static u8", "&3"), ("*const u8", "std::ptr::null()"), ("isize", "isize::MIN"), ("std::time::Duration", "std::time::Duration::ZERO"), ("Option<&'static str>", "Some(\"a\")"),
                         ("Result<u8, ()>", "Ok(3)"), ("String", "String::new()"), ("Vec<u8>", "Vec::new()"), ("&'static &'static str", "&\"z\""), ("std::cmp::Ordering", "std::cmp::Ordering::Less"), ("[[u8; 2]; 2]", "[[1, 2], [3, 4]]"), ("&'static [&'static str]", "&[\"a\", \"b\"]"), ("[i64; 0]", "[]")])
        return f"{t} = {v}"

    def std_impl(self, t, n, mod, ls, ts, cs, has, packed, kind):
        r = self.r; deps = {n}
        c = self.ctx(ls, [], cs)
        L = "{ loop {} }"
        H = lambda tr: self.impl_head(n, mod, ls, ts, cs, tr)
        me = self.path(mod, n) + self.gen_args(ls, ts, cs)
        foreign = lambda: r.choice(["u8", "i64", "&'static str", "String", "(u8, i8)", "[u8; 3]", "Option<u8>", "Vec<u8>", "bool", "f32", "Box<u8>", "&'static [u8]", "char", "()"])
        if t in ("Error", "Display", "Debug") :
            if t == "Error":
                if not {"Display", "Debug"} <= has: return
                return self.std(H("std::error::Error")[0] + " {}", deps)
            return self.std(H(f"std::fmt::{t}")[0] + f" {{ fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {L} }}", deps)
        if t == "Clone": s = f"{{ fn clone(&self) -> Self {L} }}"; tr = "Clone"
        elif t == "Copy": return
        elif t == "Default": tr, s = "Default", f"{{ fn default() -> Self {L} }}"
        elif t == "Drop": tr, s = "Drop", "{ fn drop(&mut self) {} }"
        elif t == "PartialEq": tr, s = "PartialEq", f"{{ fn eq(&self, o: &Self) -> bool {L} }}"
        elif t == "Eq":
            if "PartialEq" not in has: return
            tr, s = "Eq", "{}"
        elif t == "PartialEqOther": f = foreign(); tr, s = f"PartialEq<{f}>", f"{{ fn eq(&self, o: &{f}) -> bool {L} }}"
        elif t == "PartialOrd":
            if "PartialEq" not in has: return
            tr, s = "PartialOrd", f"{{ fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {L} }}"
        elif t == "From": f = foreign(); tr, s = f"From<{f}>", f"{{ fn from(x: {f}) -> Self {L} }}"
        elif t == "Try": f = foreign(); tr, s = f"TryFrom<{f}>", f"{{ type Error = {foreign()}; fn try_from(x: {f}) -> Result<Self, Self::Error> {L} }}"
        elif t == "Into":
            if ts: return
            return self.std(f"impl{self.gen_decl(ls, ts, cs, False)} From<{me}> for {r.choice(['u8', 'String', 'bool', 'i64'])} {{ fn from(x: {me}) -> Self {L} }}", deps)
        elif t == "AsRef": f = r.choice(["str", "[u8]", "u8", "std::path::Path"]); tr, s = f"AsRef<{f}>", f"{{ fn as_ref(&self) -> &{f} {L} }}"
        elif t == "Borrow": f = r.choice(["str", "[u8]"]); tr, s = f"std::borrow::Borrow<{f}>", f"{{ fn borrow(&self) -> &{f} {L} }}"
        elif t == "Deref": f = r.choice(["str", "[u8]", "u8", "Vec<u8>"]); tr, s = "std::ops::Deref", f"{{ type Target = {f}; fn deref(&self) -> &{f} {L} }}"
        elif t == "Index": i, o = r.choice(["usize", "u8", "&str", "std::ops::Range<usize>", "(u8, u8)", "i32"]), r.choice(["u8", "str", "[u8]", "String"]); tr, s = f"std::ops::Index<{i}>", f"{{ type Output = {o}; fn index(&self, i: {i}) -> &{o} {L} }}"
        elif t == "Iterator":
            o = r.choice([foreign(), "u8", self.ty(self.ctx(ls), 1, deps)]); tr, s = "Iterator", f"{{ type Item = {o}; fn next(&mut self) -> Option<{o}> {L} {r.choice(['', 'fn size_hint(&self) -> (usize, Option<usize>) { loop {} }'])} }}"
        elif t == "IntoIterator":
            if "Iterator" in has: return
            tr, s = "IntoIterator", f"{{ type Item = u8; type IntoIter = std::vec::IntoIter<u8>; fn into_iter(self) -> std::vec::IntoIter<u8> {L} }}"
        elif t == "RefIntoIterator":
            if "Iterator" in has or ls or ts or cs: return
            return self.std(f"impl<'x> IntoIterator for &'x {me} {{ type Item = &'x u8; type IntoIter = std::slice::Iter<'x, u8>; fn into_iter(self) -> std::slice::Iter<'x, u8> {L} }}", deps)
        elif t in ("Ops", "RefOps"):
            o, f = r.choice([("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Shl", "shl"), ("BitAnd", "bitand"), ("Rem", "rem")]); a = r.choice(["Self", foreign(), "&'static Self" if not ls and not ts else "u8"]); out = r.choice(["Self", foreign(), "()"])
            if t == "RefOps":
                if ls or ts or cs: return
                a = a.replace("Self", me); out = out.replace("Self", me)
                return self.std(f"impl<'x> std::ops::{o}<{a}> for &'x {me} {{ type Output = {out}; fn {f}(self, o: {a}) -> {out} {L} }}", deps)
            tr, s = f"std::ops::{o}<{a}>", f"{{ type Output = {out}; fn {f}(self, o: {a}) -> {out} {L} }}"
        elif t == "OpsAssign": o, f = r.choice([("AddAssign", "add_assign"), ("ShrAssign", "shr_assign"), ("BitXorAssign", "bitxor_assign")]); a = r.choice(["Self", foreign()]); tr, s = f"std::ops::{o}<{a}>", f"{{ fn {f}(&mut self, o: {a}) {L} }}"
        elif t == "Neg": o, f = r.choice([("Neg", "neg"), ("Not", "not")]); out = r.choice(["Self", foreign()]); tr, s = f"std::ops::{o}", f"{{ type Output = {out}; fn {f}(self) -> {out} {L} }}"
        elif t == "Hash": tr, s = "std::hash::Hash", f"{{ fn hash<H: std::hash::Hasher>(&self, h: &mut H) {L} }}"
        elif t == "FromStr": tr, s = "std::str::FromStr", f"{{ type Err = {foreign()}; fn from_str(s: &str) -> Result<Self, Self::Err> {L} }}"
        elif t == "Future": tr, s = "std::future::Future", f"{{ type Output = {foreign()}; fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {L} }}"
        elif t == "FromIterator": tr, s = "FromIterator<u8>", f"{{ fn from_iter<I: IntoIterator<Item = u8>>(i: I) -> Self {L} }}"
        elif t == "Extend": tr, s = "Extend<u8>", f"{{ fn extend<I: IntoIterator<Item = u8>>(&mut self, i: I) {L} }}"
        elif t == "Send": return self.std(f"unsafe {H(r.choice(['Send', 'Sync']))[0]} {{}}" if True else "", deps)
        self.std(H(tr)[0] + " " + s, deps)

    def std(self, rust, deps):
        # Impls can stand in bodies too.
        if self.r.random() < .07: rust = self.r.choice(["const _: () = {{ {} }};", "fn " + self.id("hid") + "() {{ {} }}", "pub fn " + self.id("pubhid") + "() {{ {} }}", "pub static " + self.id("ST") + ": () = {{ {} }};"]).format(rust)
        self.item(self.id("impl"), rust, self.mod(), deps, {"std trait impl"})

    def trait(self):
        r = self.r; n = self.id("Tr"); mod = self.mod(); deps = set()
        tp = ["X"] if r.random() < .25 else []
        sup = r.choice([""] * 5 + [": Sized", ": Clone", ": Send + Sync", ": 'static", ": std::fmt::Debug"])
        if self.traits and r.random() < .2:
            p, q, i = r.choice(self.traits)
            if not q: sup = f": {p}"; deps.add(i)
        ms = []; impl = []
        c = self.ctx((), tp)
        def member(k):
            m = self.id("t")
            if k == "type": ms.append(f"type A{m}{r.choice(['', '', ': Clone', ': Default'])};"); impl.append(f"type A{m} = u8;"); return
            if k == "const": ms.append(f"const C{m}: u8{r.choice(['', ' = 4'])};"); impl.append(f"const C{m}: u8 = 5;"); return
            if k == "gat": ms.append(f"type G{m}<'g> where Self: 'g;"); impl.append(f"type G{m}<'g> = &'g u8 where Self: 'g;"); return
            recv = r.choice(["", "&self", "&self", "&mut self", "self", "self: Box<Self>"])
            cc = {**c, "self": False}
            s = self.sig(m, cc, deps, recv, body="{ loop {} }", quals=False)
            s = re.sub(r" -> impl .*", " { loop {} }", s) if " -> impl " in s else s
            wh = "" if recv not in ("self",) else ""
            w = s[: s.rindex("{ loop {} }")].rstrip()
            w = re.sub(r"\bmut a(\d)", r"a\1", w)
            if recv == "self" and "Sized" not in sup: w += " where Self: Sized"
            default = r.random() < .4
            ms.append(w + (" { loop {} }" if default else ";"))
            if not default or r.random() < .5: impl.append(w + " { loop {} }")
        for _ in range(r.choice([0, 1, 2, 3])): member(r.choice(["fn"] * 6 + ["type", "const", "gat"]))
        un = "unsafe " if r.random() < .06 else ""
        self.item(n, f"{self.attrs()}pub {un}trait {n}{'<X>' if tp else ''}{sup} {{\n" + "\n".join(ms) + "\n}", mod, deps, {"trait"})
        p = self.path(mod, n)
        if not sup or sup == ": Sized" or sup == ": 'static": self.traits.append((p, tp, n))
        if sup not in ("", ": Sized"): return
        for _ in range(r.choice([0, 1, 1, 2])):
            x = r.choice(["u8", "crate::Q", "Vec<u8>"]) if tp else ""
            x = x.replace("crate::Q", "bool")
            if self.adts and r.random() < .75:
                q, ls, ts, cs, i = r.choice(self.adts)
                head = f"impl{self.gen_decl(ls, ts, cs, False)} {p}{'<' + x + '>' if tp else ''} for {q}{self.gen_args(ls, ts, cs)}"; d = {n, i}; key = (n, x, i)
            else:
                t = r.choice(["u8", "String", "Vec<u8>", "&'static str", "[u8; 3]", "(u8, i8)", "Option<bool>", "()", "fn()", "str", "[u16]"])
                if t in ("str", "[u16]") and ("self" in "".join(impl + ms) and re.search(r"\(self\b|Self: Sized|Box<Self>", "".join(impl + ms)) or sup == ": Sized"): t = "u16"
                head = f"impl {p}{'<' + x + '>' if tp else ''} for {t}"; d = {n}; key = (n, x, t)
            if key in self.done: continue
            self.done.add(key)
            body = "\n".join(re.sub(r"\bX\b", x, y) if tp else y for y in impl)
            self.item(self.id("impl"), f"{un}{head} {{\n{body}\n}}", self.mod(), d | deps, {"trait impl"})

    def other(self):
        r = self.r; mod = self.mod(); deps = set(); n = self.id("o")
        k = r.choice(["const", "const", "static", "alias", "alias", "galias", "macro", "extern", "usestd", "useadt", "use mod", "static mut", "trait alias", "private", "inner"])
        if k == "const": s = f"pub const {n.upper()}: {self.const_val()};"
        elif k == "static": s = f"pub static {n.upper()}: u8 = 3;"
        elif k == "static mut": s = f"pub static mut {n.upper()}: [u8; 4] = [0; 4];"
        elif k == "alias": s = f"pub type Al{n} = {self.ty(self.ctx(), 2, deps)};"
        elif k == "galias": s = f"pub type Al{n}<Z> = {r.choice(['Vec<Z>', 'Option<Z>', 'Result<Z, u8>', '*const Z', '(Z, u8)', 'fn(Z) -> Z', 'Box<Z>'])};"
        elif k == "private": s = f"mod pv{n} {{ {r.choice(['pub struct', 'pub enum'])} P{n} {{}} impl P{n} {{ pub fn get(&self, x: {self.ty(self.ctx((), (), (), True), 2, deps)}) {{ loop {{}} }} }} pub fn h{n}() -> P{n} {{ loop {{}} }} }}\npub use pv{n}::{r.choice(['*', 'P' + n, 'P' + n + ' as Q' + n, '{P' + n + ', h' + n + '}', 'h' + n])};"
        elif k == "inner": s = f"pub fn {n}() {{ pub struct In{n}; impl In{n} {{ pub fn x() {{}} }} pub fn in{n}(x: In{n}) {{}} #[unsafe(no_mangle)] pub extern \"C\" fn cin{n}() {{}} }}"
        elif k == "macro": s = f"#[macro_export]\nmacro_rules! mac_{n} {{ () => {{ 3 }} }}"
        elif k == "extern": s = f"unsafe extern \"C\" {{ pub fn ext_{n}(a: i32) -> i32; pub static EXT_{n}: u8; }}"
        elif k == "usestd": s = f"pub use std::{r.choice(['vec::Vec', 'collections::HashMap', 'string::String', 'fmt::Debug', 'cmp::Ordering', 'option::Option', 'mem::swap', 'u8::MAX', 'primitive::u8', 'io', 'time::Duration', 'sync::Arc', 'fmt', 'iter::Iterator', 'convert::TryFrom', 'net::IpAddr', 'marker::PhantomData'])} as Re{n};"
        elif self.adts:
            p, ls, ts, cs, i = r.choice(self.adts); deps.add(i)
            s = f"pub use {p} as Re{n};"
        else: s = f"pub const {n.upper()}: u8 = 0;"
        self.item(n, self.attrs() * (k != "macro") + s, mod if k != "macro" else (), deps, {k})


    def web(self):
        """Types whose fields form no cycle and whose methods, impls and constants mention each other in any direction."""
        r = self.r; mod = self.mod(); id = self.id("Web"); k = r.randint(2, 5); ns = [f"{id}_{chr(97 + i)}" for i in range(k)]
        def ty(d=1):
            t = r.choice(ns); f = r.random()
            if f < .4: return t
            return r.choice([f"&{t}", f"&{t}", f"&mut {t}", f"Option<{t}>", f"({t}, u8)", f"(u8, {r.choice(ns)}, {t})", f"[{t}; 2]", f"*const {t}", f"*mut {t}", f"&[{t}]", f"Result<{t}, {r.choice(ns)}>", f"Option<&{t}>", f"Vec<{t}>", f"extern \"C\" fn({t}) -> u8", f"extern \"C\" fn(&{t}) -> {r.choice(ns)}", f"Box<{t}>", "u8", "u8", "&str"])
        own = lambda: r.choice([t for t in ns] + [f"Option<{r.choice(ns)}>", f"({r.choice(ns)}, u8)", f"[{r.choice(ns)}; 3]"])
        ret = lambda: r.choice(["", "", f" -> {r.choice(ns)}", f" -> {r.choice(ns)}", f" -> {own()}", f" -> *const {r.choice(ns)}", f" -> &'static {r.choice(ns)}", f" -> Result<{own()}, {own()}>"])
        out = []
        for i, n in enumerate(ns):
            fs = []
            for j in range(r.randint(0, 3)):
                later = ns[i + 1:]
                fs.append(r.choice(["u8", "i64", *([r.choice(later), f"Option<{r.choice(later)}>", f"[{r.choice(later)}; 2]", f"({r.choice(later)}, u16)"] if later else []), f"*const {r.choice(ns)}", f"Option<Box<{r.choice(ns)}>>", f"Vec<{r.choice(ns)}>", f"Option<&'static {r.choice(ns)}>"]))
            d = r.choice(["", "#[derive(Default)] ", "#[derive(Clone)] "])
            kind = r.choice(["struct", "struct", "struct", "tuple", "enum"])
            if kind == "enum": out.append(f"pub enum {n} {{ A, {', '.join(f'B{j}({f})' for j, f in enumerate(fs)) or 'C'} }}")
            elif kind == "tuple": out.append(f"pub struct {n}({', '.join(r.choice(['pub ', '']) + f for f in fs)});")
            else: out.append(f"{r.choice(['', '', '#[repr(C)] '])}pub struct {n} {{ {', '.join(f'pub f{j}: {f}' for j, f in enumerate(fs))} }}")
            for _ in range(r.randint(0, 2)):
                ms = "".join(f" pub fn {r.choice(['m', 'get', 'call'])}{self.id('w')[1:]}({', '.join([*r.choice([[], ['self'], ['&self'], ['&mut self']]), *(f'a{j}: {ty()}' for j in range(r.choice([0, 1, 2, 2, 3, 4, 6])))])}){ret()} {{ loop {{}} }}" for _ in range(r.randint(1, 3)))
                out.append(f"impl {n} {{{ms} }}")
            o = r.choice(ns)
            if o != n and r.random() < .3: out.append(f"impl From<{o}> for {n} {{ fn from(_: {o}) -> {n} {{ loop {{}} }} }}")
            if r.random() < .3: out.append(f"impl std::ops::{r.choice(['Add', 'Sub', 'Mul'])}<{o}> for {n} {{ type Output = {r.choice(ns)}; fn @(self, _: {o}) -> Self::Output {{ loop {{}} }} }}")
            if r.random() < .2: out.append(f"impl PartialEq<{o}> for {n} {{ fn eq(&self, _: &{o}) -> bool {{ loop {{}} }} }}")
            if r.random() < .25: out.append(f"impl Iterator for {n} {{ type Item = {r.choice([o, 'u8', f'Option<{o}>'])}; fn next(&mut self) -> Option<Self::Item> {{ loop {{}} }} }}")
            elif r.random() < .25: out.append(f"impl IntoIterator for {n} {{ type Item = {o}; type IntoIter = std::vec::IntoIter<{o}>; fn into_iter(self) -> Self::IntoIter {{ loop {{}} }} }}")
        import re as _re
        out = [x.replace("@", {"Add": "add", "Sub": "sub", "Mul": "mul"}[_re.search(r"ops::(\w+)", x)[1]]) if "std::ops::" in x else x for x in out]
        for j in range(r.randint(0, 3)): out.append(f"pub fn {id.lower()}_f{j}({', '.join(f'a{i}: {ty()}' for i in range(r.choice([0, 1, 2, 3, 5])))}){ret()} {{ loop {{}} }}")
        if r.random() < .5:
            tr = f"Tr{id}"; a = r.choice(["", "", f"<{r.choice(ns)}>"]); ps = f"&self, a: {r.choice(ns)}, b: &{r.choice(ns)}"; rt = f" -> {r.choice(ns)}"
            out.append(f"pub trait {tr}{'<T>' if a else ''} {{ fn go({ps}){rt}; }}")
            for n in r.sample(ns, r.randint(1, len(ns))): out.append(f"impl {tr}{a} for {n} {{ fn go({ps}){rt} {{ loop {{}} }} }}")
        r.shuffle(out)
        self.item(id, "\n".join(out), mod, (), {"types which mention each other"})


# C++ keywords and names which the generated code uses.
NAMES = ["class", "int", "operator", "template", "delete", "this", "size_t", "rs_std", "crubit", "std", "tag", "value", "storage", "Tag", "payload", "new", "namespace", "__opaque", "__field0", "lib", "core", "string", "move", "begin", "and", "xor", "NULL_", "assert_", "errno_", "uint8_t", "x", "self_", "other", "bool_"]


def wild(seed, known=(), pre=""):
    r = random.Random(f"{seed}:c01")
    g = G(r); g.pre = pre; g.n = 1000 if known else 0
    g.adts += known
    for _ in range(r.choice([6, 12, 20])):
        r.choices([g.struct, g.enum, g.union, g.fn, g.trait, g.other], [5, 4, 1, 7, 3, 3])[0]()
    for _ in range(r.choice([0, 1, 2])): g.web()
    while g.todo: r.choice([g.struct, g.enum])()
    g.own = g.adts[len(known):]
    return g


HEAD = "#![allow(warnings)]\n"


def accepted(d, items, crate, edition, deps=()):
    """The items which rustc accepts (those it refuses are replaced or taken out, with what depends on them)."""
    for _ in range(10):
        items = order(items)
        body, at = topic.modules(items)
        e2e.write(f"{d}/{crate}.rs", HEAD + body)
        ext = [x for m in deps for x in ("--extern", f"{m}={d}/lib{m}.rmeta")]
        rc, out, err = e2e.sh([build.rustc(), "--crate-type=rlib", f"--edition={edition}", "-Cpanic=abort", "--emit=metadata", f"--crate-name={crate}", f"{crate}.rs", "--out-dir", d, "--cap-lints=allow", "--error-format=short", "-L", d, *ext], d)
        if rc == 0: return items
        off = HEAD.count("\n"); starts = sorted((l + off, i) for i, l in at.items())
        bad = set()
        for m in re.finditer(r"^[^:\n]*:(\d+):\d+: error", err, re.M):
            l = int(m[1]); own = [i for s, i in starts if s <= l]
            if own: bad.add(own[-1])
        REJ.append(err[:300])
        if not bad: return []
        for i in items:
            if i.id in bad and "#[derive(" in i.rust: i.rust = re.sub(r"#\[derive\(.*?\)\]\n", "", i.rust); bad.discard(i.id)
            elif i.id in bad and getattr(i, "fallback", None): i.rust, i.deps, i.fallback = i.fallback, [], None; bad.discard(i.id)
        while True:
            more = {i.id for i in items if i.id not in bad and bad & set(i.deps)}
            if not more: break
            bad |= more
        items = [i for i in items if i.id not in bad]
    return []


FEATURES = ["all", "supported", "types", "experimental", "layout_compat_tuple", "always_specialize_generics_in_cpp_api_from_rust", "leading_colons_for_cpp_type", "ctor_plain_values", "async_fn_send_modulo_regions"]


def gen(seed):
    """One or two wild crates. Items of the dependency have `crate` 1."""
    r = random.Random(f"{seed}:c01:crates")
    edition = r.choice(["2021", "2021", "2024"])
    with e2e.Workdir() as d:
        dep, known = [], []
        if r.random() < .3:
            g = wild(f"{seed}:dep")
            dep = accepted(d, g.items, "dep", edition)
            ids = {i.id for i in dep}
            known = [("dep::" + p[len("crate::"):], ls, ts, cs, "dep" + i) for p, ls, ts, cs, i in g.own if i in ids]
        g = wild(seed, known)
        items = accepted(d, g.items, "lib", edition, ["dep"] if dep else [])
    for i in dep: i.crate, i.id, i.deps = 1, "dep" + i.id, ["dep" + x for x in i.deps]
    fl = []
    if r.random() < .5: fl.append("--default-features=" + ",".join(r.sample(FEATURES, r.choice([1, 2, 3]))))
    if r.random() < .1: fl.append("--crate-disabled-feature=self=" + r.choice(FEATURES))
    # The crates of the standard library which have bindings.
    std = r.choice([(), ("core",), ("core", "alloc")]) if r.random() < .15 else ("core", "alloc", "std")
    for i in items + dep: i.edition, i.two, i.flags, i.std = edition, bool(dep), fl, std
    return dep + items


REJ = []
def render(items):
    own = [i for i in items if not i.crate]; dep = [i for i in items if i.crate]
    ed = items[0].edition if items else "2021"
    case = topic.render(own, head=HEAD, prelude=False, edition=ed)
    incs = '#include "lib.h"\n'
    if items: case["crates"][0]["flags"] = items[0].flags
    if items and items[0].two:
        x = topic.render(dep, head=HEAD, prelude=False, name="dep", edition=ed, flags=items[0].flags)
        case["crates"].insert(0, x["crates"][0]); case["crates"][1]["deps"] = ["dep"]
        incs = '#include "dep.h"\n#include "lib.h"\n#include "dep.h"\n'
    for c in case["crates"]: c["std"] = items[0].std if items else ()
    case["main"] = incs + '#include "lib.h"\n#include <cstdio>\nint main() { puts("DONE"); return 0; }\n'
    case["tus"] = ['#include "lib.h"\n']
    return case


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one item of a random public API (types, functions, impls, traits, constants, re-exports; one crate or two), generated without regard to what Crubit supports and reduced to what rustc accepts; non-trivial: distinct by Rust text"
    def classify(items, case, res):
        for i in items:
            ctx.count(1); ctx.note(i.rust)
            for k in i.kinds: ctx.cls(k)
            ctx.sample({"rust": i.rust}, 8)
        ctx.cls("two crates" if items and items[0].two else "one crate")
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(ctx.n(120, 2500))], gen, render, classify)


if __name__ == "__main__":
    sys.exit(runner.main("C01", check, sweep.replay_case))
