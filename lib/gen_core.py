"""Generator of crates with data types and functions over them, and of a C++ driver that checks
values, layout, identity and ownership across the boundary."""
import random, re
from model import *
import model

NS = "lib"


class StructTy(Named):
    def __init__(self, name, ns=NS): self.name = name; self.ns = ns; self.path = name
    extra = ()   # fields C++ has no type for: (position, type, expression, pub)
    def drops(self): return self.tok or any(f["ty"].drops() for f in self.fields)
    def slots(self):
        """Rust fields in declaration order: ("f", i) or ("x", j)."""
        o = [("f", i) for i in range(len(self.fields))]
        for j, x in enumerate(self.extra): o.insert(x[0], ("x", j))
        return o
    def acc(self, i): return str(self.slots().index(("f", i))) if self.tuple else self.fields[i]["name"]
    def _init(self, fs):
        o = []
        for k, i in self.slots():
            o.append(fs[i] if k == "f" else (self.extra[i][2] if self.tuple else f"x{i}: {self.extra[i][2]}"))
        return o
    def depth(self): return 1 + max([f["ty"].depth() for f in self.fields], default=0)
    def deps(self): return {self.name}
    def val(self, r): return tuple(f["ty"].val(r) for f in self.fields)
    def _lit(self, v):
        fs = [f["ty"].rsx(x) for f, x in zip(self.fields, v)]
        if self.tuple:
            return f"crate::{self.path}({', '.join(self._init(fs) + (['crate::hid::Tok::new()'] if self.tok else []))})"
        return f"crate::{self.path} {{ " + ", ".join(self._init([f"{f['name']}: {x}" for f, x in zip(self.fields, fs)]) + (["tok: crate::hid::Tok::new()"] if self.tok else [])) + " }"
    rsx = lambda self, v: self._lit(v)
    def ser(self, v): return self.name + "{" + ",".join(f["ty"].ser(x) for f, x in zip(self.fields, v)) + "}"
    def ccx(self, v, ctx):
        q = self.cc(ctx)
        if self.how == "make":
            return f"{q}::make({', '.join(f['ty'].ccx(x, 'top') for f, x in zip(self.fields, v))})"
        if self.how == "ctor":
            return f"{q}({', '.join(f['ty'].ccx(x, 'spec') for f, x in zip(self.fields, v))})"
        if self.how == "fields":
            return f"([&]{{ {q} s_; " + " ".join(f"s_.{self.ccf(i)} = {f['ty'].ccx(x, 'spec')};" for i, (f, x) in enumerate(zip(self.fields, v))) + " return s_; }())"
        return need_helper(self, v)
    def ccf(self, i): return f"__field{self.acc(i)}" if self.tuple else self.fields[i]["name"]

    # Rust definition.
    def render(self):
        o = []
        if self.repr: o.append(f"#[repr({self.repr})]")
        der = [d for d, on in (("Clone", self.clone and not self.packed_noncopy), ("Copy", self.copy)) if on]
        if der: o.append(f"#[derive({', '.join(der)})]")
        fs = []
        for k, i in self.slots():
            n, t, p = (self.fields[i]["name"], self.fields[i]["ty"].rs(), self.fields[i]["pub"]) if k == "f" else (f"x{i}", self.extra[i][1], self.extra[i][3])
            fs.append(("pub " if p else "") + ("" if self.tuple else n + ": ") + t)
        if self.tok: fs.append("crate::hid::Tok" if self.tuple else "tok: crate::hid::Tok")
        o.append(f"pub struct {self.name}" + (f"({', '.join(fs)});" if self.tuple else " { " + ", ".join(fs) + " }"))
        if self.default:
            o.append(f"impl Default for {self.name} {{ fn default() -> Self {{ {self._lit(self.dflt)} }} }}")
        acc = [f"{{ let x = self.{self.acc(i)}; x.ser() }}" if self.packed else f"self.{self.acc(i)}.ser()" for i, f in enumerate(self.fields)]
        o.append(f"impl crate::hid::Ser for {self.name} {{ fn ser(&self) -> String {{ use crate::hid::Ser as _; {'if !self.' + (str(len(self.slots())) if self.tuple else 'tok') + '.ok() { crate::hid::bad(\"dead value seen\") }' if self.tok else ''} let v: Vec<String> = vec![{', '.join(acc)}]; format!(\"{self.name}{{{{{{}}}}}}\", v.join(\",\")) }} }}")
        m = []
        args = ", ".join(f"f{i}: {f['ty'].rs()}" for i, f in enumerate(self.fields))
        init = self._init([f"f{i}" if self.tuple else f"{f['name']}: f{i}" for i, f in enumerate(self.fields)])
        if self.tok: init.append("crate::hid::Tok::new()" if self.tuple else "tok: crate::hid::Tok::new()")
        m.append(f"pub fn make({args}) -> Self {{ " + (f"{self.name}({', '.join(init)})" if self.tuple else f"{self.name} {{ {', '.join(init)} }}") + " }")
        m.append(f"pub fn ser_all(&self) -> String {{ use crate::hid::Ser as _; self.ser() }}")
        for i, f in enumerate(self.fields):
            if not f["pub"]: m.append(f"pub fn ser_f{i}(&self) -> String {{ use crate::hid::Ser as _; {acc[i]} }}")
        o.append(f"impl {self.name} {{ {' '.join(m)} }}")
        offs = ", ".join(f"core::mem::offset_of!({self.name}, {self.acc(i)})" for i, f in enumerate(self.fields))
        o.append(f"pub fn lay_{self.name}(i: usize) -> usize {{ [core::mem::size_of::<{self.name}>(), core::mem::align_of::<{self.name}>(), {offs}][i] }}")
        return "\n".join(o)

    def cc_decl(self):
        q = f"{self.ns}::{self.path}"
        parts = [f"({{ auto t_ = v.{self.ccf(i)}; ser(t_); }})" if self.packed and f["pub"] else f"ser(v.{self.ccf(i)})" if f["pub"] else f"raw(v.ser_f{i}())" for i, f in enumerate(self.fields)]
        body = " + \",\" + ".join(parts) or '""'
        return f"template <> struct tst::Ser<{q}> {{ static std::string raw(const rs::alloc::string::String& s) {{ return std::string(std::string_view(s.as_str())); }} static std::string s(const {q}& v) {{ std::string o = std::string(\"{self.name}{{\") + {body} + \"}}\"; std::string r = raw(v.ser_all()); if (o != r) {{ g_bad++; printf(\"MISMATCH c++ and rust disagree about {self.name}: c++ %s rust %s\\n\", o.c_str(), r.c_str()); }} return o; }} }};"

    def cc_main(self):
        q = f"{self.ns}::{self.path}"
        o = [f'tst::check_true("sizeof({self.name})", sizeof({q}) == {self.ns}::lay_{self.name}(0));',
             f'tst::check_true("alignof({self.name})", alignof({q}) == {self.ns}::lay_{self.name}(1));']
        for i, f in enumerate(self.fields):
            if f["pub"]:
                o.append(f'tst::check_true("offsetof({self.name},{i})", offsetof({q}, {self.ccf(i)}) == {self.ns}::lay_{self.name}({i + 2}));')
        if self.default:
            o.append(f'{{ {q} d; tst::check("{self.name} default", tst::ser(d), {cstr(self.ser(self.dflt))}); }}')
        o.append(f"static_assert(std::is_trivially_copyable_v<{q}> || {str(not self.copy).lower()});")
        return "\n".join(o)


def align_of(t):
    if isinstance(t, (Opt, VecT)): return align_of(t.t) if isinstance(t, Opt) else 8
    if isinstance(t, Arr): return align_of(t.t)
    if isinstance(t, Res): return max(align_of(t.t), align_of(t.e))
    if isinstance(t, Tup): return max([align_of(x) for x in t.ts], default=1)
    if isinstance(t, StructTy):
        m = [int(x) for x in re.findall(r"align\((\d+)\)", t.repr)]
        return max(m + ([] if t.packed else [align_of(f["ty"]) for f in t.fields] + [16 if "128" in x[1] else 8 for x in t.extra]), default=1)
    if isinstance(t, EnumTy): return max([align_of(x) for _, ts, _ in t.variants for x in ts], default=1)
    return 8


# What a transparent type may have beside its field.
TRANSPARENT_EXTRA = [("core::marker::PhantomData<String>", "core::marker::PhantomData"), ("()", "()"), ("[u8; 0]", "[]"), ("core::marker::PhantomData<*const u8>", "core::marker::PhantomData"), ("[(); 4]", "[(); 4]"), ("((), ())", "((), ())")]


def cstr(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


class EnumTy(Named):
    def __init__(self, name, ns=NS): self.name = name; self.ns = ns; self.path = name
    def drops(self): return any(t.drops() for _, ts, _ in self.variants for t in ts)
    def depth(self): return 1 + max([t.depth() for _, ts, _ in self.variants for t in ts], default=0)
    def deps(self): return {self.name}
    def val(self, r):
        k = r.randrange(len(self.variants))
        return (k, tuple(t.val(r) for t in self.variants[k][1]))
    def rsx(self, v):
        n, ts, _ = self.variants[v[0]]
        return f"crate::{self.path}::{n}" + (f"({', '.join(t.rsx(x) for t, x in zip(ts, v[1]))})" if ts else "")
    def ser(self, v):
        n, ts, _ = self.variants[v[0]]
        return f"{self.name}::{n}(" + ",".join(t.ser(x) for t, x in zip(ts, v[1])) + ")"
    def ccx(self, v, ctx):
        n, ts, _ = self.variants[v[0]]
        # A payload type which isn't Default isn't movable in C++ either, so such variants can't be made there.
        if any(not t.copy and (isinstance(t, Res) or not t.default) for t in ts): return need_helper(self, v)
        return f"{self.cc(ctx)}::Make{n}({', '.join(t.ccx(x, 'top') for t, x in zip(ts, v[1]))})"
    def render(self):
        o = []
        if self.repr: o.append(f"#[repr({self.repr})]")
        der = [d for d, on in (("Clone", self.clone), ("Copy", self.copy)) if on]
        if der: o.append(f"#[derive({', '.join(der)})]")
        vs = [n + (f"({', '.join(t.rs() for t in ts)})" if ts else "") + (f" = {d}" if d is not None else "") for n, ts, d in self.variants]
        o.append(f"pub enum {self.name} {{ {', '.join(vs)} }}")
        if self.default: o.append(f"impl Default for {self.name} {{ fn default() -> Self {{ {self.rsx(self.dflt)} }} }}")
        arms = []
        for n, ts, _ in self.variants:
            b = [f"x{i}" for i in range(len(ts))]
            pat = f"{self.name}::{n}" + (f"({', '.join(b)})" if ts else "")
            arms.append(f"{pat} => {{ let v: Vec<String> = vec![{', '.join(x + '.ser()' for x in b)}]; format!(\"{self.name}::{n}({{}})\", v.join(\",\")) }}")
        o.append(f"impl crate::hid::Ser for {self.name} {{ fn ser(&self) -> String {{ use crate::hid::Ser as _; match self {{ {', '.join(arms)} }} }} }}")
        o.append(f"impl {self.name} {{ pub fn ser_all(&self) -> String {{ use crate::hid::Ser as _; self.ser() }} }}")
        o.append(f"pub fn lay_{self.name}(i: usize) -> usize {{ [core::mem::size_of::<{self.name}>(), core::mem::align_of::<{self.name}>()][i] }}")
        return "\n".join(o)
    def cc_decl(self):
        q = f"{self.ns}::{self.path}"
        return f"template <> struct tst::Ser<{q}> {{ static std::string s(const {q}& v) {{ auto t = v.ser_all(); return std::string(std::string_view(t.as_str())); }} }};"
    def cc_main(self):
        q = f"{self.ns}::{self.path}"
        o = [f'tst::check_true("sizeof({self.name})", sizeof({q}) == {self.ns}::lay_{self.name}(0));',
             f'tst::check_true("alignof({self.name})", alignof({q}) == {self.ns}::lay_{self.name}(1));']
        if self.default:
            o.append(f'{{ {q} d; tst::check("{self.name} default", tst::ser(d), {cstr(self.ser(self.dflt))}); }}')
        return "\n".join(o)


# Types without a C++ counterpart (all Clone; the first thirteen Copy), with a value.
EXTRA = [("u128", "7u128"), ("[u8; 0]", "[]"), ("i128", "-3i128"), ("core::marker::PhantomData<u64>", "core::marker::PhantomData"), ("()", "()"),
         ("[u128; 0]", "[]"), ("&'static dyn core::fmt::Debug", "&1u8"), ("fn(u8) -> u8", "|x| x"), ("core::num::NonZeroU16", "core::num::NonZeroU16::new(9).unwrap()"),
         ("*const [u16]", "(&[1u16, 2][..]) as *const [u16]"), ("*mut [u8]", "core::ptr::slice_from_raw_parts_mut(8 as *mut u8, 3)"), ("[(); 3]", "[(); 3]"), ("*const str", "\"a\" as *const str"),
         ("Box<u32>", "Box::new(5u32)"), ("std::collections::HashMap<u8, u8>", "std::collections::HashMap::new()"), ("std::rc::Rc<u8>", "std::rc::Rc::new(3u8)"),
         ("std::sync::Arc<str>", "std::sync::Arc::from(\"a\")"), ("Option<Box<i8>>", "Some(Box::new(1i8))"), ("std::borrow::Cow<'static, str>", "std::borrow::Cow::Borrowed(\"c\")")]


class Item:
    def __init__(self, id, deps, rust="", cc_decl="", cc_main="", kinds=(), desc=""):
        self.id, self.deps, self.rust, self.cc_decl, self.cc_main, self.kinds, self.desc = id, set(deps), rust, cc_decl, cc_main, set(kinds), desc


class Gen:
    def __init__(self, r, ns=NS, cfg=None):
        self.r, self.ns = r, ns
        self.items, self.types, self.n, self.fnum = [], [], 0, 0
        self.helpers = {}
        self.cfg = cfg or {}

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    # ---- types -------------------------------------------------------------
    def prim(self):
        r = self.r
        k = r.random()
        if k < .7: return Int(r.choice(list(INTS)))
        if k < .78: return Bool()
        if k < .9: return Float(r.choice(["f32", "f64"]))
        return Char()

    def ty(self, depth, ctx, need=()):
        """A random type usable in `ctx` (top: parameter/return by value; nest: inside a bridged
        optional/tuple; spec: inside a layout-compatible container or a field)."""
        r = self.r
        for _ in range(60):
            t = self._ty(depth, ctx)
            if all(getattr(t, n) for n in need): return t
        return self.prim()

    def _ty(self, depth, ctx):
        r = self.r
        if depth <= 0:
            k = r.random()
            if k < .55 or not self.types: return self.prim() if r.random() < .9 else Str()
            return r.choice(self.types)
        k = r.random()
        if k < .2: return self.prim()
        if k < .3: return Str()
        if k < .5 and self.types: return r.choice(self.types)
        if k < .62: return Opt(self.ty(depth - 1, "spec" if ctx == "spec" else "optin"))
        if k < .72 : return Res(self.ty(depth - 1, "spec") if r.random() < .9 else Unit(), self.ty(depth - 1, "spec"))
        if k < .84 and ctx != "optin": return Tup([self.ty(depth - 1, "spec" if ctx == "spec" else "tupin") for _ in range(r.choice([1, 2, 2, 3]))]) if ctx != "tupin" or True else self.prim()
        if k < .92: return VecT(self.ty(depth - 1, "spec"), self.ns)
        return Arr(self.ty(depth - 1, "spec", ("clone",)), r.choice([1, 2, 3, 5]))

    def ok_ty(self, t, ctx):
        """Is `t` in the documented supported set for by-value use in `ctx`?"""
        if isinstance(t, Tup) and ctx != "spec":
            # Tuples containing bridged (composable) types are documented as unsupported.
            return all(not isinstance(x, Opt) and self.ok_ty(x, "tup") for x in t.ts)
        if isinstance(t, Opt) and ctx != "spec":
            return not isinstance(t.t, (Tup, Arr)) and self.ok_ty(t.t, "opt")
        if isinstance(t, (Opt, Res)):
            if any(align_of(x) > 8 for x in ([t.t] if isinstance(t, Opt) else [t.t, t.e])): return False
        if isinstance(t, Opt): return not isinstance(t.t, (Arr, Tup)) and self.ok_ty(t.t, "spec")
        if isinstance(t, Res): return self.ok_ty(t.t, "spec") and self.ok_ty(t.e, "spec")
        if isinstance(t, Tup): return all(self.ok_ty(x, "spec") for x in t.ts)
        # b/260128806: nested arrays of types with drop glue and without Default are unsupported.
        if isinstance(t, Arr) and isinstance(t.t, Arr) and t.t.drops() and not t.t.default: return False
        if isinstance(t, (VecT, Arr)): return self.ok_ty(t.t, "spec")
        return True

    def val_ty(self, depth, ctx="top", need=()):
        for _ in range(60):
            t = self.ty(depth, ctx, need)
            if self.ok_ty(t, ctx): return t
        return self.prim()

    # ---- structs / enums ----------------------------------------------------
    def struct(self):
        r = self.r
        s = StructTy(self.fresh("S"), self.ns)
        s.tuple = r.random() < .35
        s.packed = s.packed_noncopy = False
        s.copy = r.random() < .4
        s.repr = r.choice(["", "", "", "C", "C", "align(16)", "C, packed", "C, packed(2)", "packed", "packed(4)"]) if s.copy else r.choice(["", "", "", "C", "align(8)", "C, align(32)"])
        s.packed = "packed" in s.repr
        nf = r.choice(self.cfg.get("nf", [1, 2, 3, 3, 4, 6]))
        if r.random() < .15: s.repr, s.packed, nf = "transparent", False, 1
        s.fields = []
        for i in range(nf):
            t = self.val_ty(r.choice([0, 0, 1, 2]), "spec", ("copy",) if s.copy else ("clone",))
            while s.packed and align_of(t) > 8: t = self.prim()
            s.fields.append({"name": f"f{i}", "ty": t, "pub": r.random() < .75})
        if r.random() < self.cfg.get("extra", .2):
            s.extra = [(r.randint(0, nf), *r.choice(self.cfg.get("extras") or (EXTRA[:13] if s.copy else EXTRA)), r.random() < .5) for _ in range(r.choice([1, 1, 2]))]
            if s.tuple: s.extra = [x[:3] + (False,) if r.random() < .5 else x for x in s.extra]
        if s.repr == "transparent": s.extra = [(r.randint(0, 1), *r.choice([x for x in TRANSPARENT_EXTRA if not self.cfg.get("extras") or "*" not in x[0]]), r.random() < .5) for _ in range(r.choice([0, 0, 1, 2]))]
        s.tok = not s.copy and s.repr != "transparent" and r.random() < .7
        s.clone = True if s.copy else r.random() < .7
        if not s.clone: pass
        s.default = True if not s.copy and (s.repr != "transparent" or s.drops()) else r.random() < .5
        s.dflt = s.val(r)
        allpub = all(f["pub"] for f in s.fields) and not s.extra
        hows = ["make", "make", "make", "helper"] if all(self.ok_ty(f["ty"], "top") for f in s.fields) else ["helper"]
        if allpub and s.default: hows += ["fields", "fields"]
        if allpub and s.tuple and not s.tok and all(f["ty"].copy for f in s.fields): hows += ["ctor", "ctor"]
        s.how = r.choice(hows)
        return s

    def add_struct(self):
        s = self.struct()
        deps = set().union(*[f["ty"].deps() for f in s.fields]) if s.fields else set()
        it = Item(s.name, deps, s.render(), s.cc_decl(), s.cc_main(), {"struct", "repr:" + (s.repr or "Rust")}, "struct")
        self.items.append(it)
        if s.clone: self.types.append(s)
        else: self.types_noclone().append(s)
        return s

    def types_noclone(self):
        if not hasattr(self, "_tnc"): self._tnc = []
        return self._tnc

    def add_enum(self):
        r = self.r
        e = EnumTy(self.fresh("E"), self.ns)
        e.copy = r.random() < .5
        e.clone = True
        fieldless = r.random() < .4
        nv = r.choice([1, 2, 3, 4, 7]) if fieldless else r.choice([2, 3, 4])
        e.repr = r.choice(["", "C", "u8", "i8", "u16", "i32", "u64", "i64"]) if fieldless else r.choice(["", "", "C", "u8", "i16", "C, u8"])
        if e.repr == "C, u8": e.repr = "u8" if True else e.repr
        if nv == 1 and not e.repr: e.repr = "u8"  # zero-sized types are unsupported
        e.variants, used, last = [], set(), -1
        for i in range(nv):
            ts = [] if fieldless or r.random() < .3 else [self.val_ty(r.choice([0, 0, 1]), "spec", ("copy",) if e.copy else ("clone",)) for _ in range(r.choice([1, 1, 2, 3]))]
            ts = [t if self.ok_ty(t, "top") and align_of(t) <= 8 else self.prim() for t in ts]
            d = None
            if fieldless and r.random() < .4:
                ty = e.repr if e.repr in INTS else ("i32" if e.repr == "C" else "isize")
                lo, hi = Int(ty).rng()
                d = Int(ty).val(r)
                if d in used or d >= hi - 10: d = None
            nxt = d if d is not None else last + 1
            if nxt in used:
                nxt = max(used) + 1; d = nxt
            used.add(nxt); last = nxt
            if d is not None and r.random() < .0: d = None
            e.variants.append([f"V{i}", ts, d])
        if e.repr in INTS and (max(used) > Int(e.repr).rng()[1]):
            for v in e.variants: v[2] = None
        e.default = True
        e.dflt = e.val(r)
        if not e.copy and any(not t.copy for _, ts, _ in e.variants for t in ts) is False:
            pass
        deps = set().union(set(), *[t.deps() for _, ts, _ in e.variants for t in ts])
        self.items.append(Item(e.name, deps, e.render(), e.cc_decl(), e.cc_main(), {"enum", "repr:" + (e.repr or "Rust")}, "enum"))
        self.types.append(e)
        return e

    # ---- values in C++ -------------------------------------------------------
    def ccx(self, t, v, ctx, deps):
        """C++ expression for v: what C++ cannot build comes from a Rust helper function."""
        return model.with_helper(lambda t, v: self.helper(t, v, deps), lambda: t.ccx(v, ctx))

    def helper(self, t, v, deps):
        n = self.fresh("mk")
        self.items.append(Item(n, t.deps(), f"pub fn {n}() -> {t.rs()} {{ {t.rsx(v)} }}", kinds={"helper"}, desc="helper"))
        deps.add(n)
        return f"{self.ns}::{n}()"

    # ---- functions -----------------------------------------------------------
    def add_fn(self, method_of=None):
        r = self.r
        name = self.fresh("fn_")
        fid = self.fnum; self.fnum += 1
        deps, kinds = set(), set()
        params = []
        npar = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
        lifetime = False
        for i in range(npar):
            k = r.random()
            pn = f"p{i}"
            if k < .5:
                t = self.val_ty(r.choice([0, 1, 1, 2, 3])); params.append((pn, "val", t))
            elif k < .62:
                t = self.val_ty(r.choice([0, 1, 2]), "spec"); params.append((pn, "ref", t))
            elif k < .72:
                t = self.val_ty(r.choice([0, 1, 2]), "spec"); params.append((pn, "mut", t))
            elif k < .79:
                params.append((pn, "str", None))
            elif k < .86:
                t = self.val_ty(r.choice([0, 1]), "spec", ("clone",)); params.append((pn, "slice", t))
            elif k < .9:
                t = self.val_ty(0, "spec", ("clone",)); params.append((pn, "slicemut", t))
            elif k < .95:
                t = self.val_ty(0, "spec"); params.append((pn, r.choice(["cptr", "mptr"]), t))
            else:
                a, b = [self.prim() for _ in range(r.choice([0, 1, 2, 3]))], self.prim()
                params.append((pn, "fnptr", (a, b)))
        for _, k, t in params:
            kinds.add("param:" + k)
            if isinstance(t, Ty): deps |= t.deps(); kinds.add("ty:" + type(t).__name__)
        rk = r.random()
        ret = None
        if rk < .12: ret = ("unit", None)
        else:
            rt = self.val_ty(r.choice([0, 1, 1, 2, 3])); ret = ("val", rt); deps |= rt.deps(); kinds.add("ret:" + type(rt).__name__)
        ncalls = r.choice([1, 2, 2, 3])
        rs_params, arms, cc_calls = [], [], []
        rty = {"val": lambda t: t.rs(), "ref": lambda t: "&" + t.rs(), "mut": lambda t: "&mut " + t.rs(), "str": lambda t: "&str",
               "slice": lambda t: f"&[{t.rs()}]", "slicemut": lambda t: f"&mut [{t.rs()}]", "cptr": lambda t: f"*const {t.rs()}",
               "mptr": lambda t: f"*mut {t.rs()}", "fnptr": lambda ab: f"extern \"C\" fn({', '.join(x.rs() for x in ab[0])}) -> {ab[1].rs()}"}
        rs_params = [f"{pn}: {rty[k](t)}" for pn, k, t in params]
        main, decl = [], []
        for c in range(ncalls):
            rb, pre, args, post = [], [], [], []
            for pn, k, t in params:
                w = f"{name} call {c} arg {pn}"
                if k == "val":
                    v = t.val(r)
                    rb.append(f"crate::hid::chk(\"{w}\", {pn}.ser(), {cstr(t.ser(v))});")
                    if t.copy or r.random() < .7: rb.append(f"drop({pn});")
                    ex = self.ccx(t, v, "top", deps)
                    if r.random() < .4:
                        pre.append(f"{t.cc('top')} {pn}_{c} = {ex};"); args.append(f"std::move({pn}_{c})")
                    else: args.append(ex)
                elif k in ("ref", "mut"):
                    v = t.val(r)
                    pre.append(f"{t.cc('spec')} {pn}_{c} = {self.ccx(t, v, 'spec', deps)};")
                    args.append(f"{pn}_{c}")
                    rb.append(f"crate::hid::chk(\"{w}\", {pn}.ser(), {cstr(t.ser(v))});")
                    if k == "mut":
                        v2 = t.val(r)
                        rb.append(f"*{pn} = {t.rsx(v2)};")
                        v = v2
                    post.append(f'tst::check("{w} after", tst::ser({pn}_{c}), {cstr(t.ser(v))});')
                elif k == "str":
                    v = gen_text(r)
                    rb.append(f"crate::hid::chk(\"{w}\", {pn}.ser(), {cstr(hexs(v.encode()))});")
                    args.append(cc_strref(v))
                elif k in ("slice", "slicemut"):
                    n = r.choice([0, 1, 2, 3])
                    vs = [t.val(r) for _ in range(n)]
                    const = "const " if k == "slice" else ""
                    sl = f"rs_std::SliceRef<{const}{t.cc('spec')}>"
                    if n:
                        pre.append(f"std::array<{t.cc('spec')}, {n}> {pn}_{c} = {{{{{', '.join(self.ccx(t, v, 'spec', deps) for v in vs)}}}}};")
                        args.append(f"{sl}({pn}_{c})")
                    else: args.append(f"{sl}()")
                    s = lambda vs: "[" + ",".join(t.ser(v) for v in vs) + "]"
                    rb.append(f"crate::hid::chk(\"{w}\", {pn}.ser(), {cstr(s(vs))});")
                    if k == "slicemut" and n:
                        j = r.randrange(n); vs[j] = t.val(r)
                        rb.append(f"{pn}[{j}] = {t.rsx(vs[j])};")
                    if n: post.append(f'tst::check("{w} after", tst::ser({pn}_{c}), {cstr(s(vs))});')
                elif k in ("cptr", "mptr"):
                    if r.random() < .3:
                        rb.append(f"crate::hid::chk(\"{w}\", {pn}.ser(), \"null\");"); args.append("nullptr")
                    else:
                        v = t.val(r)
                        pre.append(f"{t.cc('spec')} {pn}_{c} = {self.ccx(t, v, 'spec', deps)};"); args.append(f"&{pn}_{c}")
                        rb.append(f"crate::hid::chk(\"{w}\", {pn}.ser(), {cstr('p:' + t.ser(v))});")
                        if k == "mptr":
                            v = t.val(r); rb.append(f"unsafe {{ *{pn} = {t.rsx(v)}; }}")
                        post.append(f'tst::check("{w} after", tst::ser({pn}_{c}), {cstr(t.ser(v))});')
                elif k == "fnptr":
                    a, b = t
                    av, bv = [x.val(r) for x in a], b.val(r)
                    rb.append(f"crate::hid::chk(\"{w} result\", {pn}({', '.join(x.rsx(y) for x, y in zip(a, av))}).ser(), {cstr(b.ser(bv))});")
                    chks = " ".join(f'tst::check("{w} callback {i}", tst::ser(a{i}), {cstr(x.ser(y))});' for i, (x, y) in enumerate(zip(a, av)))
                    decl.append(f"static {b.cc('top')} cb_{name}_{pn}_{c}({', '.join(x.cc('top') + f' a{i}' for i, x in enumerate(a))}) {{ {chks} return {b.ccx(bv, 'top')}; }}")
                    args.append(f"cb_{name}_{pn}_{c}")
            call = f"{self.ns}::{name}({', '.join(args)})"
            if ret[0] == "unit":
                rb.append("()"); stmt = call + ";"
            else:
                v = ret[1].val(r)
                rb.append(ret[1].rsx(v))
                stmt = f'tst::check("{name} call {c} return", tst::ser({call}), {cstr(ret[1].ser(v))});'
                if r.random() < .5:
                    stmt = f'{{ auto r_ = {call}; static_assert(std::is_same_v<decltype(r_), {ret[1].cc("top")}>); tst::check("{name} call {c} return", tst::ser(r_), {cstr(ret[1].ser(v))}); }}'
            main.append("{ " + " ".join(pre) + " " + stmt + " " + " ".join(post) + f' tst::check_true("{name} call {c} reached Rust {c + 1} times", {self.ns}::cnt_{name}() == {c + 1}); }}')
            arms.append(f"{c} => {{ {' '.join(rb)} }}")
        rt = "" if ret[0] == "unit" else f" -> {ret[1].rs()}"
        rust = f"pub fn {name}({', '.join(rs_params)}){rt} {{ use crate::hid::Ser as _; match crate::hid::next({fid}) {{ {', '.join(arms)}, _ => panic!(\"too many calls of {name}\") }} }}\npub fn cnt_{name}() -> usize {{ crate::hid::count({fid}) }}"
        self.items.append(Item(name, deps, rust, "\n".join(decl), "\n".join(main), kinds, "fn"))


def order(items):
    """Dependency order for the C++ driver's declarations."""
    by, seen, out = {i.id: i for i in items}, set(), []
    def go(i):
        if i.id in seen: return
        seen.add(i.id)
        for d in sorted(i.deps):
            if d in by: go(by[d])
        out.append(i)
    for i in items: go(i)
    return out


RS_HEAD = "#![allow(warnings)]\n"


def render(items, ns=NS, name="lib", shuffle=None, live=True):
    items = order(items)
    rust_items = list(items)
    if shuffle is not None: shuffle.shuffle(rust_items)
    src = RS_HEAD + PRELUDE_RS.replace("pub fn next(", "pub fn count(f: usize) -> usize { CNT[f].load(SeqCst) }\n    pub fn next(") + "\n".join(i.rust for i in rust_items)
    main = "\n".join(['#include "crubit/core.h"', '#include "crubit/alloc.h"', f'#include "{name}.h"', '#include "support/rs_std/char.h"', '#include "support/rs_std/str_ref.h"',
                      '#include "support/rs_std/slice_ref.h"', '#include "support/rs_std/option.h"', '#include "support/rs_std/result.h"',
                      '#include "support/rs_std/tuple.h"', '#include "support/rs_std/unit.h"', '#include "support/rs_std/vec.h"',
                      "#include <cstdio>", "#include <type_traits>", PRELUDE_CC] + [i.cc_decl for i in items if i.cc_decl])
    fns, calls = [], []
    for k, i in enumerate(items):
        if i.cc_main:
            fns.append(f"static void t_{k}() {{\n{i.cc_main}\n}}")
            calls.append(f"t_{k}();" + (f' tst::check_true("values alive after `{i.id}`", {ns}::tst_live() == 0);' if live else ""))
    main += "\n" + "\n".join(fns) + "\nint main() {\n  setvbuf(stdout, nullptr, _IOLBF, 0);\n  " + "\n  ".join(calls) + f'\n  {ns}::tst_flush(); puts("DONE");\n  return 0;\n}}\n'
    return {"crates": [{"name": name, "src": src, "deps": []}], "main": main}


def gen_values(seed, n_types=6, n_fns=14):
    r = random.Random(seed)
    g = Gen(r)
    for _ in range(n_types):
        (g.add_struct if r.random() < .65 else g.add_enum)()
    for _ in range(n_fns): g.add_fn()
    return g
