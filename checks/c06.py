#!/usr/bin/env python3
"""C06: C++ sees exactly what is public in Rust, at every public path, and nothing else."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, sweep, topic
from topic import TI

PUB = "pub"


class It(TI):
    """kind: fn struct enum const trait alias use glob mod; vis: Rust visibility; name; target: path of `use`."""
    def __init__(self, id, kind, name, vis, mod, rust, deps=(), target=None, g=None, drive=None, refuse=(), count=True, scope=None):
        super().__init__(id, rust, mod, deps, kinds={kind})
        self.kind, self.nm, self.v, self.target, self.g, self.drive, self.refuse, self.cnt = kind, name, vis, target, g, drive, list(refuse), count
        self.scope = scope  # module path the visibility is limited to; None: public


def scope_of(vis, mod):
    return {"pub ": None, "pub(crate) ": (), "pub(super) ": mod[:-1], "": mod, "pub(self) ": mod, "pub(in crate) ": ()}[vis]


def narrower(a, b):
    """The narrower of two visibilities (None = public, otherwise a module path)."""
    if a is None: return b
    if b is None: return a
    return a if len(a) >= len(b) else b


def visible(v, frm): return v is None or frm[:len(v)] == v


def resolve(items, mods):
    """Names in every module: {mod: {name: (entity id or module path, visibility)}}; modules are entities ('mod', path)."""
    names = {m: {} for m in mods}
    mixed = set()  # (module, name) which globs bring in with different visibilities
    for m, v in mods.items():
        if m: names[m[:-1]][m[-1]] = (("mod", m), scope_of(v, m[:-1]))
    for i in items:
        if i.kind not in ("use", "glob") and i.nm: names[i.mod][i.nm] = (i.id, i.scope)
    explicit = {m: set(names[m]) for m in mods}
    def look(path):
        cur = ("mod", ())
        for k, s in enumerate(path):
            if cur[0] != "mod": return None
            e = names[cur[1]].get(s)
            if e is None: return None
            cur = e[0] if isinstance(e[0], tuple) else (e[0],)
        return cur
    for _ in range(12):
        before = {m: dict(names[m]) for m in mods}
        for i in items:
            if i.kind == "use":
                t = look(i.target)
                if t is None: continue
                ent = t if t[0] == "mod" else t[0]
                names[i.mod][i.nm] = (ent, i.scope); explicit[i.mod].add(i.nm)
            elif i.kind == "glob":
                t = look(i.target)
                if t is None or t[0] != "mod": continue
                for n, (ent, v) in list(names[t[1]].items()):
                    if not visible(v, i.mod) or n in explicit[i.mod]: continue
                    nv = narrower(i.scope, v)
                    old = names[i.mod].get(n)
                    if old is not None and old[1] != nv: mixed.add((i.mod, n))
                    if old is None or (old[0] == ent and old[1] is not None and (nv is None or len(nv) < len(old[1]))): names[i.mod][n] = (ent, nv)
        if before == names: break
    resolve.mixed, resolve.look = mixed, look
    return names


def public(items, mods):
    """{entity: set of public paths}, and the modules with more than one public path."""
    names = resolve(items, mods); mixed = set(resolve.mixed)
    paths, modpaths, vague = {}, {}, set()
    def walk(m, path, seen):
        if len(path) > 6: return
        modpaths.setdefault(m, set()).add(path)
        for n, (ent, v) in names[m].items():
            if v is not None: continue
            if (m, n) in mixed: vague.add(path + (n,))
            if isinstance(ent, tuple):
                if ent[1] not in seen: walk(ent[1], path + (n,), seen | {ent[1]})
                else: modpaths.setdefault(ent[1], set()).add(path + (n,))
            else: paths.setdefault(ent, set()).add((path + (n,), m))
    walk((), (), {()})
    # A module gets C++ names under one of its public paths; which, is not specified.
    multi = {m for m, p in modpaths.items() if len(p) > 1}
    # A path counts if every module on it has a single public path.
    ok = {}
    for e, ps in paths.items():
        for p, m in ps:
            through = {mm for mm, mp in modpaths.items() for q in mp if p[:len(q)] == q}
            ok.setdefault(e, set())
            # rustc decides which of several globs wins; nothing is expected of such a path.
            if not (through & multi) and not any(p[:k] in vague for k in range(len(p) + 1)): ok[e].add(p)
    return paths, ok, multi, names, mixed


VIS = ["pub ", "pub ", "pub ", "pub ", "pub(crate) ", "pub(super) ", "", "pub(self) ", "pub(in crate) "]
MVIS = ["pub ", "pub ", "pub ", "pub(crate) ", "pub(crate) ", "", "pub(super) "]


class G:
    def __init__(self, r):
        self.r, self.n, self.items = r, 0, []
        self.mods = {(): "pub "}
        for _ in range(r.randint(3, 8)):
            par = r.choice([m for m in self.mods if len(m) < 3])
            v = r.choice(MVIS)
            self.mods[par + (self.name("m"),)] = "pub(crate) " if v == "pub(super) " and not par else v

    def name(self, k): self.n += 1; return f"{k}{self.n}"
    def mod(self): return self.r.choice(list(self.mods))

    def vis(self, mod):
        v = self.r.choice(VIS)
        return "pub(crate) " if v == "pub(super) " and not mod else v

    def add(self, kind, name, vis, mod, rust, **kw):
        it = It(name, kind, name, vis, mod, rust, g=self, scope=scope_of(vis, mod), **kw)
        self.items.append(it)
        return it

    # ---- items
    def fn(self):
        r = self.r; m = self.mod(); n = self.name("fnn"); v = self.vis(m); k = r.randint(-10**6, 10**6)
        style = r.random()
        body = f"{v}fn {n}(a: i32) -> i64 {{ a as i64 ^ {k} }}"
        if style < .15:
            mk = self.name("mk"); body = f"macro_rules! {mk} {{ ($v:vis $n:ident) => {{ $v fn $n(a: i32) -> i64 {{ a as i64 ^ {k} }} }} }}\n{mk}!({v}{n});"
        elif style < .25: body = r.choice(["#[cfg(not(any()))]\n", "#[cfg(all())] ", "#[inline]\n", "#[doc(hidden)]\n"]) + body
        a = r.randint(-10**6, 10**6)
        self.add("fn", n, v, m, body, drive=lambda p: f'tst::check("{p}", tst::ser({p}({a})), "{a ^ k}");', refuse=["(void)sizeof(&P);"])

    def const(self):
        r = self.r; m = self.mod(); n = self.name("KON"); v = self.vis(m); k = r.randint(-2**31, 2**31 - 1)
        self.add("const", n, v, m, f"{v}const {n}: i32 = {k};", drive=lambda p: f"static_assert({p} == {k}ll);", refuse=["(void)P;"])

    def alias(self):
        r = self.r; m = self.mod(); n = self.name("Als"); v = self.vis(m)
        t, c = r.choice([("u16", "std::uint16_t"), ("i64", "std::int64_t"), ("*const u8", "const std::uint8_t*")])
        self.add("alias", n, v, m, f"{v}type {n} = {t};", drive=lambda p: f"static_assert(std::is_same_v<{p}, {c}>);", refuse=["(void)sizeof(P*);"])

    def trait(self):
        r = self.r; m = self.mod(); n = self.name("Trt"); v = self.vis(m); k = r.randint(0, 10**6)
        # The implementing type is at the root, the impl somewhere else.
        s = self.name("TS")
        it = It(s, "struct", s, "pub ", (), f"pub struct {s} {{ pub v: u32 }}\nimpl {s} {{ pub fn make(v: u32) -> {s} {{ {s} {{ v }} }} }}", g=self, scope=None, drive=lambda p: "", refuse=[], count=False)
        self.items.append(it)
        imp = f"impl {n} for crate::{s} {{ fn tr(&self) -> u32 {{ self.v ^ 5 }} }}"
        imp = r.choice([imp, f"const _: () = {{ {imp} }};", f"fn {self.name('hid')}() {{ {imp} }}", f"mod {self.name('hid')} {{ use super::*; {imp} }}"])
        self.add("trait", n, v, m, f"{v}trait {n} {{ fn tr(&self) -> u32; }}\n{imp}", deps=(s,),
                 drive=lambda p: f'{{ auto s = lib::{s}::make({k}); tst::check("{p}::impl", tst::ser({p}::impl<lib::{s}>::tr(s)), "{k ^ 5}"); }}', refuse=["(void)sizeof(P*);"])

    def struct(self):
        """Fields and methods of every visibility, impl blocks in odd places."""
        r = self.r; m = self.mod(); n = self.name("Strc"); v = self.vis(m)
        mv = lambda: "pub(crate) " if not m and (x := r.choice(VIS)) == "pub(super) " else (x if not m else r.choice(VIS))
        fields = [(self.name("fld"), mv(), r.choice(["u8", "u32", "i64", "u16"])) for _ in range(r.randint(1, 4))]
        vals = [r.randint(0, 100) for _ in fields]
        meths = [(self.name("mth"), mv(), r.randint(0, 10**6), r.random() < .6) for _ in range(r.randint(1, 4))]
        consts = [(self.name("ASC"), mv(), r.randint(0, 10**6)) for _ in range(r.randint(0, 2))]
        decl = f"{v}struct {n} {{ " + ", ".join(f"{fv}{fn}: {ft}" for fn, fv, ft in fields) + " }"
        ctor = f"pub fn make() -> {n} {{ {n} {{ " + ", ".join(f"{f[0]}: {x}" for f, x in zip(fields, vals)) + " } }"
        mem = [(f"{mv_}fn {mn}(&self) -> u32 {{ {k} }}" if sf else f"{mv_}fn {mn}() -> u32 {{ {k} }}") for mn, mv_, k, sf in meths] + [f"{cv}const {cn}: u32 = {k};" for cn, cv, k in consts]
        blocks = [[ctor], []]
        for t in mem: r.choice(blocks).append(t)
        imps = [f"impl {n} {{ " + " ".join(b) + " }" for b in blocks if b]
        full = "::".join(["crate", *m, n])
        out = [decl]
        for b in imps:
            x = r.random()
            if "pub(super)" in b or x < .5: out.append(b)
            elif x < .65: out.append(f"mod {self.name('hid')} {{ use super::*; {b} }}")
            elif x < .8: out.append(f"const _: () = {{ {b} }};")
            else: out.append(f"fn {self.name('hid')}() {{ {b} }}")
        r.shuffle(out)
        def drive(p):
            c = [f"auto s = {p}::make();"]
            for (fn, fv, ft), x in zip(fields, vals):
                if fv == "pub ": c.append(f'tst::check("{p}.{fn}", tst::ser(s.{fn}), "{x}");')
            for mn, mv_, k, sf in meths:
                if mv_ == "pub ": c.append(f'tst::check("{p}::{mn}", tst::ser({"s." if sf else p + "::"}{mn}()), "{k}");')
            for cn, cv, k in consts:
                if cv == "pub ": c.append(f"static_assert({p}::{cn} == {k});")
            return "{ " + " ".join(c) + " }"
        it = self.add("struct", n, v, m, "\n".join(out), drive=drive, refuse=["(void)sizeof(P*);"])
        it.hidden = [f"(void)static_cast<P*>(nullptr)->{fn};" for fn, fv, ft in fields if fv != "pub "] + [f"(void)sizeof(&P::{mn});" for mn, mv_, k, sf in meths if mv_ != "pub "] + [f"(void)P::{cn};" for cn, cv, k in consts if cv != "pub "]
        it.shown = [f"(void)static_cast<P*>(nullptr)->{fn};" for fn, fv, ft in fields if fv == "pub "]
        it.hidden_names = [x[0] for x in meths + consts if x[1] != "pub "]

    def enum(self):
        r = self.r; m = self.mod(); n = self.name("Enm"); v = self.vis(m); k = r.randint(0, 255)
        self.add("enum", n, v, m, f"{v}enum {n} {{ A, B(u8) }}\nimpl {n} {{ pub fn num(&self) -> u16 {{ match self {{ {n}::A => 300, {n}::B(x) => *x as u16 }} }} }}",
                 drive=lambda p: f'tst::check("{p}::A", tst::ser({p}::MakeA().num()), "300"); tst::check("{p}::B", tst::ser({p}::MakeB({k}).num()), "{k}");', refuse=["(void)sizeof(P*);"])

    def never(self):
        """Public-looking items which nothing outside can name."""
        r = self.r; m = self.mod(); o, n = self.name("hid"), self.name("nvr")
        t = r.choice([f"pub fn {n}() -> u8 {{ 1 }}", f"pub struct {n} {{ pub x: u8 }}", f"pub enum {n} {{ A, B }}", f"pub const {n}: u8 = 1;", f"pub type {n} = u8;", f"pub trait {n} {{ fn q(&self); }}"])
        rust = r.choice([f"fn {o}() {{ {t} }}", f"const _: () = {{ {t} }};", f"mod {o} {{ {t} }}", f"#[cfg(any())]\n{t}", f"#[cfg(not(all()))] pub mod {o} {{ {t} }}", f"macro_rules! {o} {{ () => {{ {t} }} }}",
                         f"mod {o} {{ pub mod {o}b {{ {t} }} pub use {o}b::*; }}", f"mod {o} {{ pub mod {o}b {{ {t} }} pub(crate) use {o}b::{n} as {n}c; }}"])
        it = self.add("never", None, "", m, rust); it.id = n; it.nm = None; it.never = n

    # ---- uses
    def use(self):
        r = self.r; m = self.mod(); names = resolve(self.items, self.mods); mixed = resolve.mixed
        v = r.choice(["pub ", "pub ", "pub ", "pub(crate) ", ""])
        sc = scope_of(v, m)
        # Paths of names which the module can see, through any module it can see.
        def paths(mod, path, seen):
            for n, (ent, vis) in names[mod].items():
                if not visible(vis, m) or (mod, n) in mixed: continue
                yield path + (n,), ent, vis
                if isinstance(ent, tuple) and ent[1] not in seen and len(path) < 4: yield from paths(ent[1], path + (n,), seen | {ent[1]})
        allp = list(paths((), (), {()}))
        if r.random() < .3:
            c = [(p, e) for p, e, _ in allp if isinstance(e, tuple) and e[1] != m]
            if not c: return
            p, e = r.choice(c)
            n = self.name("glob")
            it = It(n, "glob", None, v, m, f"{v}use crate::{'::'.join(p)}::*;", g=self, target=p, scope=sc)
        else:
            # Only what is at least as visible as the `use`; modules now and then.
            c = [(p, e) for p, e, vis in allp if (vis is None or (sc is not None and narrower(vis, sc) == sc)) and (not isinstance(e, tuple) or r.random() < .2)]
            if not c: return
            p, e = r.choice(c)
            n = self.name("use")
            nm = self.name("ren") if p[-1] in names[m] or r.random() < .4 else p[-1]
            it = It(n, "use", nm, v, m, f"{v}use crate::{'::'.join(p)}" + (f" as {nm}" if nm != p[-1] else "") + ";", g=self, target=p, scope=sc)
        it.id = n
        # What it needs, for shrinking: everything with which the path resolves.
        need = set(p)
        it.deps = tuple(i.id for i in self.items if (i.nm and i.nm in need) or i.kind in ("glob", "use") and (i.kind == "glob" or i.nm in need))
        self.items.append(it)


def gen(seed):
    g = G(random.Random(seed))
    for _ in range(g.r.randint(18, 28)): g.r.choice([g.fn, g.fn, g.const, g.alias, g.trait, g.struct, g.struct, g.enum, g.never, g.never])()
    for _ in range(g.r.randint(6, 14)): g.use()
    # A later glob may have made the target of an earlier `use` one of several.
    while True:
        resolve(g.items, g.mods); mixed = resolve.mixed
        bad = [i for i in g.items if i.kind in ("use", "glob") and (any(s == n for s in i.target for _, n in mixed) or resolve.look(i.target) is None)]
        if not bad: return g.items
        gone = {i.id for i in bad}
        g.items = [i for i in g.items if i.id not in gone]
        for i in g.items: i.deps = tuple(d for d in i.deps if d not in gone)


def render(items):
    mods = {(): "pub "}
    for i in items:
        for k in range(1, len(i.mod) + 1): mods[i.mod[:k]] = i.g.mods[i.mod[:k]]
        t = i.target or ()
        # Modules named by a path.
        for m in i.g.mods:
            if any(m[-1] == s for s in t if m):
                for k in range(1, len(m) + 1): mods[m[:k]] = i.g.mods[m[:k]]
    paths, ok, multi, names, mixed = public(items, mods)
    full = lambda p: "::".join(("lib",) + p)
    for i in items:
        i.cc, i.cc_main, i.probes, i.expect = "", "", [], []
        i.outcome = None
        if i.kind == "never":
            i.expect = [("lib", rf"\b{i.never}\b", 0, 0, f"`{i.never}` is not reachable from outside the crate, but it is in the header")]
            i.outcome = "hidden"; continue
        if i.kind in ("use", "glob"): continue
        good = sorted(ok.get(i.id, ())) if i.kind != "const" or len(paths.get(i.id, ())) == 1 else []
        i.outcome = "public" if good else "hidden" if not paths.get(i.id) else "unspecified"
        lines = [i.drive(full(p)) for p in good]
        if i.kind in ("struct", "enum", "alias") and len(good) > 1: lines += [f"static_assert(std::is_same_v<{full(good[0])}, {full(p)}>);" for p in good[1:]]
        i.cc_main = "\n".join(l for l in lines if l)
        for p in good[:2]:
            i.probes += [(h.replace("P", full(p)), False) for h in getattr(i, "hidden", ())] + [(h.replace("P", full(p)), True) for h in getattr(i, "shown", ())]
        for h in getattr(i, "hidden_names", ()): i.expect.append(("lib", rf"\b{h}\b", 0, 0, f"`{h}` is not public, but it is in the header"))
        if not paths.get(i.id) and i.cnt:
            i.expect.append(("lib", rf"\b{i.nm}\b", 0, 0, f"`{i.nm}` has no public path, but it is in the header"))
        # Places where a name exists in Rust without being public.
        pubp = {p for p, _ in paths.get(i.id, ())}
        for m, ns in names.items():
            for n, (ent, v) in ns.items():
                if ent == i.id and v is not None and not any((m[:k], s) in mixed for k, s in enumerate(m + (n,))) and m + (n,) not in pubp and i.refuse and not any(p[:len(m)] == m and m in multi for p in pubp): i.probes.append((i.refuse[0].replace("P", full(m + (n,))), False))
    vis = lambda p: mods[p] if p in mods else "pub "
    # Modules which only `use` paths mention have to exist.
    extra = [TI(f"zz_{'_'.join(m)}", "", m) for m in mods if m and not any(i.mod[:len(m)] == m for i in items)]
    return topic.render(items + extra, vis=vis)


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one item of a generated crate (modules, items, members and `use` declarations of every visibility; renames, globs and chains of re-exports); non-trivial: an item that is re-exported, renamed, hidden or has hidden members, distinct by its text and outcome"
    def classify(items, case, res):
        for i in items:
            if i.outcome is None:
                ctx.cls(i.kind); continue
            ctx.count(1 + len(i.probes) + len(i.expect))
            ctx.cls(f"{i.kind}: {i.outcome}")
            if i.outcome != "public" or i.probes or i.cc_main.count("tst::check") + i.cc_main.count("static_assert") > 1:
                ctx.note(f"{i.outcome}: {i.rust}"); ctx.sample(f"{i.outcome}: {i.rust}", 8)
    n = ctx.n(28, 800)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], gen, render, classify)


if __name__ == "__main__":
    sys.exit(runner.main("C06", check, sweep.replay_case))
