#!/usr/bin/env python3
"""C19: rs_std::impl has a specialization for an impl of a trait, and only for an impl, and its members do what the impl's do."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, runner, sweep, topic
import c11
from c11 import PRIMS, Rhs, i64, w64, cstr
from model import Int, CC_INT, INTS
from topic import TI

# Arguments of traits: how C++ spells them, or None for those without a C++ type.
TARG = {**{t: CC_INT[t] for t in INTS if t not in ("isize", "usize")}, "f32": "float", "f64": "double", "bool": "bool", "char": "rs_std::char_", "&str": "rs_std::StrRef", "&[u16]": "rs_std::SliceRef<const std::uint16_t>",
        "Option<u8>": "rs_std::Option<std::uint8_t>", "(u8, i16)": "rs_std::Tuple<std::uint8_t, std::int16_t>", "String": "rs::alloc::string::String"}
# Arguments of traits whose methods don't take them.
MARK = {**TARG, "usize": None, "isize": None, "(usize,)": None, "Box<u8>": None, "i128": None, "[u8]": None, "dyn Fn(u8)": None, "core::cell::Cell<u8>": None,
        "&'static u8": "const std::uint8_t*", "*const u8": "const std::uint8_t*", "&'static mut u8": "std::uint8_t*", "*mut u8": "std::uint8_t*", "&'static [u8]": "rs_std::SliceRef<const std::uint8_t>", "*const [u8]": "rs_std::SliceRef<const std::uint8_t>",
        "&'static mut [u8]": "rs_std::SliceRef<std::uint8_t>", "*mut [u8]": "rs_std::SliceRef<std::uint8_t>", 'extern "C" fn(u8) -> i16': "std::int16_t (*)(std::uint8_t)", 'unsafe extern "C" fn(u8) -> i16': "std::int16_t (*)(std::uint8_t)",
        "*const core::ffi::c_void": "const void*", "*mut core::ffi::c_void": "void*", "Vec<u8>": "rs_std::Vec<std::uint8_t>", "Option<i64>": "rs_std::Option<std::int64_t>", "Result<u8, i16>": "rs_std::Result<std::uint8_t, std::int16_t>",
        "(u8,)": "rs_std::Tuple<std::uint8_t>", "core::cmp::Ordering": "rs::core::cmp::Ordering", "core::time::Duration": "rs::core::time::Duration", "&'static &'static u8": "const std::uint8_t* const*", "*const *const u8": "const std::uint8_t* const*",
        "*mut *const u8": "const std::uint8_t**", "*const *mut u8": "std::uint8_t* const*", "&'static str": "rs_std::StrRef"}
del MARK["&str"], MARK["&[u16]"]
KEY = {"delete": "delete_", "new": "new_", "class": "class_", "this": "this_", "operator": "operator_"}
# Members which have no bindings, or of which nothing is claimed: (in the trait, in the impl)
NOISE = [("fn g@<X>(&self, x: X) where Self: Sized {}", ""), ("fn g@<X>(&self, x: X) where Self: Sized;", "fn g@<X>(&self, x: X) where Self: Sized {}"), ("fn b@(self: Box<Self>) -> i64;", "fn b@(self: Box<Self>) -> i64 { 4 }"),
         ("fn p@(self: core::pin::Pin<&mut Self>) -> i64;", "fn p@(self: core::pin::Pin<&mut Self>) -> i64 { 4 }"), ("fn i@(&self) -> impl Iterator<Item = u8>;", "fn i@(&self) -> impl Iterator<Item = u8> { [1u8].into_iter() }"),
         ("fn d@(&self) -> i64 { 3 }", ""), ("fn u@(&self, x: i128) -> [u8; 3];", "fn u@(&self, x: i128) -> [u8; 3] { [1, 2, 3] }"), ("fn v@(&self, x: &dyn core::any::Any);", "fn v@(&self, x: &dyn core::any::Any) {}"),
         ("type Ga@<'a> where Self: 'a;", "type Ga@<'a> = &'a u8;"), ("type Bx@;", "type Bx@ = Box<dyn Fn(u8)>;"), ("const Cf@: f32 = 3.5;", ""), ("const Ct@: (u8, i16);", "const Ct@: (u8, i16) = (1, 2);"), ("async fn a@(&self) -> i64;", "async fn a@(&self) -> i64 { 3 }"),
         ("fn r#impl(&self) -> i64;", "fn r#impl(&self) -> i64 { 3 }"), ("fn kIsImplemented(&self) -> i64;", "fn kIsImplemented(&self) -> i64 { 3 }"), ("type same@; fn same@(&self) -> i64;", "type same@ = u8; fn same@(&self) -> i64 { 2 }"),
         ("unsafe fn un@(&self, x: *const u8) -> i64;", "unsafe fn un@(&self, x: *const u8) -> i64 { 3 }"), ("fn l@<'a>(&'a self, o: &'a i64) -> &'a i64;", "fn l@<'a>(&'a self, o: &'a i64) -> &'a i64 { o }"), ("fn w@(&self, _: u8, (a, b): (u8, u8)) -> u8 where Self: Sized { a }".replace("(a, b): (u8, u8)", "c: u8").replace("{ a }", "{ c }"), "")]
STD = [("core::fmt::Debug", "impl core::fmt::Debug for @ { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(\"x\") } }"), ("core::hash::Hash", "impl core::hash::Hash for @ { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.val().hash(h) } }"),
       ("core::fmt::Display", "impl core::fmt::Display for @ { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(\"x\") } }"), ("core::cmp::Eq", "impl PartialEq for @ { fn eq(&self, o: &@) -> bool { self.val() == o.val() } }\nimpl Eq for @ {}"),
       ("core::str::FromStr", "impl core::str::FromStr for @ { type Err = u8; fn from_str(s: &str) -> Result<@, u8> { Ok(@::mk(s.len() as i64)) } }"), ("core::convert::AsRef<T>", None), ("core::any::Any", ""), ("core::error::Error", None), ("core::iter::Iterator", "impl Iterator for @ { type Item = u8; fn next(&mut self) -> Option<u8> { None } }")]


class G(c11.G):
    def __init__(self, r):
        super().__init__(r); self.traits, self.imps = [], []

    def newtype_(self):
        t = self.type(); self.types.append(t); r = self.r
        t["pin"] = r.random() < .3
        t["std"] = []
        for q, text in r.sample(STD[:5], r.randint(0, 2)):
            t["std"].append(q); t["o"].append(text.replace("@", t["n"]))
        Q = t["Q"]
        for q, text in STD[:5]:
            t["cc"].append(f"static_assert({'' if q in t['std'] else '!'}rs_std::where_v<{Q}, rs::{q}>);")
        t["cc"].append(f"static_assert(rs_std::where_v<{Q}, rs::core::marker::Unpin>);")
        self.items.append(TI(t["n"], "\n".join(t["o"]), t["mod"], deps=(), cc="\n".join(t["cc"]), kinds={t["kind"], *("impl of " + q for q in t["std"])}))
        if t["pin"]:
            self.n += 1; n = f"P{self.n}"; q = "::".join(["lib", *t["mod"], n]); un = r.random() < .3
            pinned = r.random() < .7; f = "core::marker::PhantomPinned" if pinned else r.choice(["u8", "core::marker::PhantomData<core::marker::PhantomPinned>", "&'static core::marker::PhantomPinned", "*const core::marker::PhantomPinned"])
            pinned = pinned or f.startswith("core::marker::PhantomData")
            kind, text = r.choice([("struct", f"pub struct {n} {{ x: i64, p: {f} }}"), ("tuple struct", f"pub struct {n}(i64, {f});"), ("union", f"pub union {n} {{ x: i64, p: core::mem::ManuallyDrop<{f}> }}"), ("union", f"#[repr(C)] pub union {n} {{ x: i64, p: core::mem::ManuallyDrop<{f}> }}"),
                                   ("enum", f"#[derive(Clone, Copy)] pub enum {n} {{ A, B(i64) }}" if un else f"pub enum {n} {{ A, B(i64) }}") if not pinned else ("enum", f"pub struct I{n} {{ p: {f} }}\n#[repr(C)] pub enum {n} {{ A, B(I{n}) }}"), ("array", f"pub struct {n} {{ y: i64, x: [(u8, {f}); 1] }}"), ("empty array", f"pub struct {n} {{ y: i64, x: [{f}; 0] }}")])
            no = pinned and not un
            self.items.append(TI(n, text + (f"\nimpl Unpin for {n} {{}}" if un else ""), t["mod"], cc=f"static_assert({'!' if no else ''}rs_std::where_v<{q}, rs::core::marker::Unpin>);", kinds={f"not Unpin: {kind}" if no else "Unpin by impl" if un else f"Unpin: {kind}"}))

    def rhs(self):
        """A value type which may be an argument of a trait."""
        r = self.r
        if self.types and r.random() < .25: return self.value_rhs(r.choice(self.types))
        return r.choice([p for p in PRIMS if p.rs in TARG])

    def value_rhs(self, t):
        def gen(r): v = r.randint(-2**63, 2**63 - 1); return f"{t['Q']}::mk({i64(v)})", v
        return Rhs("crate::" + t["q"], t["q"], "r.val()", gen, t["Q"], "other type")

    def targ(self, c): return TARG.get(c.rs, c.cc)

    def trait(self):
        r = self.r; self.n += 1; n = r.choice([f"Tr{self.n}", f"Tr{self.n}", f"r#{['struct', 'union', 'try', 'match'][self.n % 4]}", "T", "T0"]) if r.random() < .15 else f"Tr{self.n}"
        if any(x["n"] == n for x in self.traits): n = f"Tr{self.n}"
        mod = r.choice(self.mods); q = "::".join([*mod, n])
        cn = {"r#struct": "struct_", "r#union": "union_", "r#try": "try_", "r#match": "match"}.get(n, n)
        tr = dict(n=n, id=f"Trait{self.n}", q=q, Q="::".join(["lib", *mod, cn]), mod=mod, k=r.choice([0, 0, 0, 1, 1, 2]), m=[], noise=[], assoc=[], consts=[], impls=[], life=r.random() < .12, deps=set(), supers=[])
        names = set()
        for j in range(r.randint(1, 4)):
            name = r.choice([f"m{j}", f"m{j}", f"get_{j}", "delete", "new", "class", "operator", "value"])
            if name in names: name = f"m{j}"
            names.add(name)
            args = []
            for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                x = r.random()
                if x < .35 and tr["k"]: args.append(("param", r.randrange(tr["k"])))
                elif x < .5: args.append(("self",))
                elif x < .6 and tr["assoc"]: args.append(("assoc", r.randrange(len(tr["assoc"]))))
                else: c = r.choice(PRIMS) if r.random() < .7 or not self.types else self.other_rhs(r.choice(self.types)); args.append(("ty", c)); self.mark(tr, c)
            x = r.random()
            if x < .25: ret = ("Self",)
            elif self.types:
                t = r.choice(self.types); tr["deps"].add(t["n"]); ret = ("out", *self.out(t, "EEEE"), )
            else: ret = ("i64",)
            tr["m"].append(dict(name=name, recv=r.choice(["&self", "&self", "&mut self", "self", ""]), args=args, ret=ret, provided=r.random() < .15))
        for j in range(r.choice([0, 0, 1, 2])): tr["assoc"].append(f"A{j}")
        for j in range(r.choice([0, 0, 0, 1, 2])): tr["consts"].append((f"C{j}", r.choice(["i64", "u8", "bool", "i16", "u64"])))
        tr["noise"] = [tuple(y.replace("@", str(j)) for y in x) for j, x in enumerate(r.sample(NOISE, r.choice([0, 0, 1, 2, 4])))]
        if not tr["k"] and r.random() < .3:
            s = [x for x in self.traits if not x["k"] and not x["life"]]
            if s: x = r.choice(s); tr["supers"].append(x); tr["deps"].add(x["id"])
        P = [f"P{j}" for j in range(tr["k"])]
        o = [f"    {x[0]}" for x in tr["noise"]] + [f"    type {a};" for a in tr["assoc"]] + [f"    const {c}: {ty};" for c, ty in tr["consts"]]
        for m in tr["m"]: o.append("    " + self.sig(m, P, [f"Self::{a}" for a in tr["assoc"]], lambda q: "crate::" + q) + (" { panic!() }" if m["provided"] else ";") if not (m["provided"] and any(a[0] in ("param", "assoc") for a in m["args"])) else "    " + self.sig(m, P, [f"Self::{a}" for a in tr["assoc"]], None) + (" where Self: Sized { panic!() }"))
        r.shuffle(o)
        gen = (["'tl"] if tr["life"] else []) + P
        sup = " + ".join("crate::" + s["q"] for s in tr["supers"])
        b = [x for x in ([sup] if sup else []) + (["Sized"] if True else []) if x]
        rust = f"pub {r.choice(['', '', '', 'unsafe ']) if False else ''}trait {n}{'<' + ', '.join(gen) + '>' if gen else ''}: {' + '.join(b)} {{\n" + "\n".join(o) + "\n}"
        tr["alias"] = []
        if not tr["k"] and r.random() < .4:
            self.n += 1; am = (f"al{self.n}",); an = r.choice([f"Al{self.n}", n])
            tr["alias"].append(("lib::" + am[0] + "::" + (cn if an == n else an)))
            self.items.append(TI(f"Al{self.n}", f"pub use crate::{q}" + (f" as {an}" if an != n else "") + ";", am, deps=[tr["id"]], cc=f"static_assert(std::is_same_v<{tr['alias'][-1]}, {tr['Q']}>);", kinds={"alias of a trait"}))
        self.traits.append(tr)
        self.items.append(TI(tr["id"], rust, mod, deps=sorted(tr["deps"]), kinds={f"trait with {tr['k']} parameters"} | ({"trait with a lifetime"} if tr["life"] else set())))

    def mark(self, tr, c):
        for u in self.types:
            if u["q"] == c.cls: tr["deps"].add(u["n"])

    def sig(self, m, P, A, _, selfty="Self"):
        a = [m["recv"]] if m["recv"] else []
        for j, x in enumerate(m["args"]): a.append(f"a{j}: " + {"param": lambda: P[x[1]], "self": lambda: f"&{selfty}", "assoc": lambda: A[x[1]], "ty": lambda: x[1].rs}[x[0]]())
        ret = {"Self": lambda: selfty, "i64": lambda: "i64", "out": lambda: m["ret"][1]}[m["ret"][0]]()
        return f"fn {m['name']}({', '.join(a)}) -> {ret}"

    def combo(self, tr): return tuple(self.rhs() for _ in range(tr["k"]))

    def impl(self, t, tr, combo):
        r = self.r
        if any(i[0] is t and [c.rs for c in i[1]] == [c.rs for c in combo] for i in tr["impls"]): return
        for s in tr["supers"]: self.impl(t, s, ())
        self.n += 1; id = f"Imp{self.n}"; deps = {t["n"], tr["id"]}
        for s in tr["supers"]: deps |= {i[2] for i in s["impls"] if i[0] is t}
        for c in combo:
            for u in self.types:
                if u["q"] == c.cls: deps.add(u["n"])
        ref = any("&" in c.rs for c in combo); lf = lambda s: s.replace("&", "&'x ")
        P = [lf(c.rs) for c in combo]; T = "crate::" + t["q"]; Q = t["Q"]
        o, cc, kinds = [], [], {f"impl of a trait with {tr['k']} parameters"}
        TQ = tr["Q"] + ("<" + ", ".join(self.targ(c) for c in combo) + ">" if combo else "")
        forms = [f"rs_std::impl<{Q}, {TQ}>", f"{TQ}::impl<{Q}>"] + [f"{a}::impl<{Q}>" for a in tr["alias"]] * 2
        for a in tr["alias"]: deps |= {i.id for i in self.items if i.cc_main and a + "," in i.cc_main}
        cc.append(f"static_assert(rs_std::where_v<{Q}, {TQ}>); static_assert({r.choice(forms)}::kIsImplemented);")
        assoc = []
        for a in tr["assoc"]:
            c = r.choice([p for p in PRIMS if p.rs in TARG and p.rs not in ("&str", "&[u16]", "Option<u8>", "(u8, i16)")]) if r.random() < .6 else self.value_rhs(r.choice(self.types))
            assoc.append(c); self.deps_of(c, deps); o.append(f"type {a} = {c.rs};")
            cc.append(f"static_assert(std::is_same_v<typename {r.choice(forms)}::{a}, {c.cc}>);"); kinds.add("associated type")
        for c, ty in tr["consts"]:
            if ty == "bool": v = r.random() < .5; rv = cv = "true" if v else "false"
            else: I = Int(ty); v = I.val(r); rv = f"{v}"; cv = I.lit(v)
            o.append(f"const {c}: {ty} = {rv};"); cc.append(f"static_assert({r.choice(forms)}::{c} == {cv});"); kinds.add("associated constant")
        for m in tr["m"]:
            if m["provided"] and r.random() < .5: continue
            k, b = r.choice([3, 5, -7, 11]), r.randint(-99, 99)
            cs = [{"param": lambda: combo[x[1]], "self": lambda: None, "assoc": lambda: assoc[x[1]], "ty": lambda: x[1]}[x[0]]() for x in m["args"]]
            base = "self.val()" if m["recv"] else "0i64"
            E = f"{base}.wrapping_mul({k}).wrapping_add({b})" + "".join(f".wrapping_add({{ let r = a{j}; {c.enc if c else 'r.val()'} }})" for j, c in enumerate(cs))
            ret = m["ret"]
            e = {"Self": lambda: f"{T}::mk(v)", "i64": lambda: "v", "out": lambda: ret[2].replace("EEEE", "v")}[ret[0]]()
            st = f" *self = {T}::mk(v.wrapping_add(1));" if m["recv"] == "&mut self" else ""
            o.append(self.sig(m, P, [c.rs for c in assoc], None, r.choice(["Self", T])) + (" where Self: Sized" if False else "") + f" {{ let v: i64 = {E};{st} {e} }}")
            kinds |= {m["recv"] or "static", "returns " + (ret[1] if ret[0] == "out" and ret[1][:5] != "crate" else "a type"), *("argument " + (c.kind if c else "&Self") for c in cs)} | ({"overridden provided method"} if m["provided"] else set())
            f = r.choice(forms)
            for _ in range(2):
                v = self.v(); lines = []; V = w64((v if m["recv"] else 0) * k + b); xs = []
                if m["recv"]: xs.append({"&self": "a", "&mut self": "a", "self": "a" if t["copy"] else "std::move(a)"}[m["recv"]])
                for j, c in enumerate(cs):
                    if c is None: w = self.v(); lines.append(f"const auto s{j} = {Q}::mk({i64(w)});"); xs.append(f"s{j}"); V = w64(V + w)
                    else: ce, enc = c.gen(r); xs.append(ce); V = w64(V + enc)
                X = f"{f}::{KEY.get(m['name'], m['name'])}({', '.join(xs)})"; what = f"{tr['n']}::{m['name']} for {t['n']}"
                if m["recv"]: lines.append(f"{'const ' if m['recv'] == '&self' else ''}auto a = {Q}::mk({i64(v)});")
                if ret[0] == "Self": lines.append(f'tst::check_true("{what}", ({X}).val() == {i64(V)});')
                elif ret[0] == "i64": lines.append(f'tst::check("{what}", tst::ser({X}), "{V}");')
                else: lines.append(ret[3](what, X, V))
                if m["recv"] == "&self": lines.append(f'tst::check_true("{what} leaves self", a.val() == {i64(v)});')
                if m["recv"] == "&mut self": lines.append(f'tst::check_true("{what} changes self", a.val() == {i64(w64(V + 1))});')
                if m["recv"] == "self" and not t["copy"]: lines.append(f'tst::check_true("{what} leaves the default value", a.val() == -11);')
                cc.append("{ " + " ".join(lines) + " }")
        o += [x[1] for x in tr["noise"] if x[1]]
        r.shuffle(o)
        gl = (["'x"] if ref else []) + (["'tl"] if tr["life"] else [])
        ta = (["'tl"] if tr["life"] else []) + P
        text = f"impl{'<' + ', '.join(gl) + '>' if gl else ''} crate::{tr['q']}{'<' + ', '.join(ta) + '>' if ta else ''} for {T} {{\n    " + "\n    ".join(o) + "\n}"
        how = r.choice(["", "", "", "const", "fn", "macro", "mod"])
        if how == "const": text = f"const _: () = {{ {text} }};"
        elif how == "fn": text = f"fn hidden_{id}() {{ {text} }}"
        elif how == "macro": text = f"macro_rules! mac_{id} {{ () => {{ {text} }} }}\nmac_{id}!();"
        elif how == "mod": text = f"mod private_{id} {{ {text} }}"
        kinds.add("impl in a " + {"": "module", "const": "constant", "fn": "function", "macro": "macro", "mod": "private module"}[how])
        tr["impls"].append((t, combo, id, TQ))
        self.items.append(TI(id, text, r.choice(self.mods), deps=sorted(deps), cc="\n".join(cc), kinds=kinds))

    def deps_of(self, c, deps):
        for u in self.types:
            if u["q"] == c.cls: deps.add(u["n"])

    def others(self, tr):
        """What has no impl has no specialization."""
        r = self.r
        combos = {tuple(c.rs for c in i[1]): (i[1], i[3]) for i in tr["impls"]}
        if not tr["k"]: combos[()] = ((), tr["Q"])
        for c in [self.combo(tr)] if tr["k"] else []: combos.setdefault(tuple(x.rs for x in c), (c, tr["Q"] + "<" + ", ".join(self.targ(x) for x in c) + ">"))
        cc, deps = [], {tr["id"]}
        gen = []
        for key, (combo, TQ) in combos.items():
            # An impl which has no specialization of its own, for another type or for a reference.
            for t in self.types:
                if any(i[0] is t and tuple(c.rs for c in i[1]) == key for i in tr["impls"]): continue
                deps.add(t["n"])
                for c in combo: self.deps_of(c, deps)
                cc.append(f"static_assert(!rs_std::where_v<{t['Q']}, {TQ}>);")
        self.n += 1
        rust = ""
        if not tr["k"] and not tr["supers"] and not tr["m"][1:] and False: pass
        if cc: self.items.append(TI(f"No{self.n}", rust, (), deps=sorted(deps), cc="\n".join(cc), kinds={"types without the impl"}))

    def marker(self):
        """A trait with arguments which its methods don't use; some have the same C++ type, some have none."""
        r = self.r; self.n += 1; n = f"Mk{self.n}"; mod = r.choice(self.mods); q = "::".join([*mod, n]); Q = "lib::" + q
        t = r.choice(self.types); others = [u for u in self.types if u is not t]
        keys = r.sample(sorted(MARK), r.randint(3, 14))
        for k in list(keys):   # those with the same C++ type
            same = [x for x in MARK if MARK[x] == MARK[k] and MARK[k] and x not in keys]
            if same and r.random() < .7: keys.append(r.choice(same))
        r.shuffle(keys)
        two = r.random() < .3
        o = [f"pub trait {n}<X: ?Sized{', Y' if two else ''}> {{ fn tag(&self) -> i64; fn id() -> u8; }}"]
        tags = {}
        for j, k in enumerate(keys):
            tags.setdefault(MARK[k], []).append((1000 + j, j))
            o.append(f"impl {n}<{k}{', u8' if two else ''}> for crate::{t['q']} {{ fn tag(&self) -> i64 {{ self.val().wrapping_add({1000 + j}) }} fn id() -> u8 {{ {j} }} }}")
        cc = []
        for c in sorted({c for c in MARK.values() if c}):
            TQ = f"{Q}<{c}{', std::uint8_t' if two else ''}>"
            if c not in tags:
                cc.append(f"static_assert(!rs_std::where_v<{t['Q']}, {TQ}>);"); continue
            cc.append(f"static_assert(rs_std::where_v<{t['Q']}, {TQ}>);")
            v = self.v(); X = f"{TQ}::impl<{t['Q']}>"
            cc.append("{ " + f"const auto a = {t['Q']}::mk({i64(v)}); auto x = {X}::tag(a); auto y = {X}::id(); tst::check_true(\"{n}<{c}>\", " + " || ".join(f"(x == {i64(w64(v + tag))} && y == {j})" for tag, j in tags[c]) + "); }")
            if two: cc.append(f"static_assert(!rs_std::where_v<{t['Q']}, {Q}<{c}, std::int8_t>>);")
        if others: cc.append(f"static_assert(!rs_std::where_v<{others[0]['Q']}, {Q}<std::uint8_t{', std::uint8_t' if two else ''}>>);")
        self.items.append(TI(n, "\n".join(o), mod, deps=sorted({t["n"], *(u["n"] for u in others[:1])}), cc="\n".join(cc), kinds={"arguments of a trait", *("argument without C++ type" for k in keys if not MARK[k]), *("arguments with the same C++ type" for v in tags.values() if len(v) > 1)}))

    def elsewhere(self):
        """Impls for references, boxes, other types' instances and by blanket: none makes a type implement the trait."""
        r = self.r; self.n += 1; n = f"El{self.n}"; mod = r.choice(self.mods); q = "::".join([*mod, n]); Q = "lib::" + q
        ts = r.sample(self.types, 2); a, b = ts; A = "crate::" + a["q"]; o = [f"pub trait {n} {{ fn tag(&self) -> i64 {{ 3 }} fn req(&self) -> i64; }}"]
        for s in r.sample([f"&{A}", f"Box<{A}>", f"[{A}; 2]", f"Option<{A}>", f"({A}, u8)", f"Vec<{A}>", f"*const {A}", f"[{A}]", "i32", "str", f"fn({A})", f"dyn Fn({A})", f"Gen{n}<{A}>", f"Gen{n}<u8>"], r.randint(1, 6)): o.append(f"impl {n} for {s} {{ fn req(&self) -> i64 {{ 4 }} }}")
        o.append(f"pub struct Gen{n}<T>(pub T);")
        cc = [f"static_assert(!rs_std::where_v<{a['Q']}, {Q}>);", f"static_assert(!rs_std::where_v<{b['Q']}, {Q}>);"]
        if r.random() < .5:
            o.append(f"impl {n} for crate::{b['q']} {{ fn req(&self) -> i64 {{ self.val() }} }}"); cc[1] = f"static_assert(rs_std::where_v<{b['Q']}, {Q}>);"
            v = self.v(); cc.append("{ " + f'const auto a = {b["Q"]}::mk({i64(v)}); tst::check_true("{n}::req", {Q}::impl<{b["Q"]}>::req(a) == {i64(v)}); }}')
        self.items.append(TI(n, "\n".join(o), mod, deps=sorted({a["n"], b["n"]}), cc="\n".join(cc), kinds={"impls for other types"}))


def gen(seed):
    g = G(random.Random(seed)); r = g.r
    for _ in range(4): g.newtype_()
    for _ in range(4): g.trait()
    for tr in g.traits:
        combos = [g.combo(tr) for _ in range(r.randint(1, 3) if tr["k"] else 1)]
        for t in g.types:
            for c in combos:
                if r.random() < .5: g.impl(t, tr, c)
    for tr in g.traits: g.others(tr)
    g.marker(); g.marker(); g.elsewhere()
    return g.items


def render(items): return topic.render(items, extra_inc=["#include <compare>", "#include <span>", "#include <array>", "#include <optional>", '#include "crubit/core.h"'])


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one generated impl of a trait (or a type without one, or a trait with impls for many arguments), and a driver which asks C++ for the impl and calls its members; non-trivial: all, distinct by Rust text"
    def classify(items, case, res):
        for i in items:
            ctx.count(i.cc_main.count("tst::check") + i.cc_main.count("static_assert"))
            for k in i.kinds: ctx.cls(k)
            if i.cc_main: ctx.note(i.rust + i.cc_main)
            if i.id[:3] == "Imp": ctx.sample(i.rust, 8)
    n = ctx.n(28, 800)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], gen, render, classify)


if __name__ == "__main__":
    sys.exit(runner.main("C19", check, sweep.replay_case))
