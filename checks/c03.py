#!/usr/bin/env python3
"""C03: C++ and Rust agree on the layout and contents of every bound type."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, sweep
from gen_core import EXTRA, Gen, Item, cstr, render
import model


def add_union(g):
    """A repr(C) or repr(Rust) union: each field is written on one side and read on the other."""
    r = g.r
    n = g.fresh("U")
    rep = r.choice(["", "C", "C", "C, align(16)", "C, packed(2)"])
    fields = []
    for i in range(r.choice([1, 2, 3, 4])):
        t = g.val_ty(r.choice([0, 0, 1]), "spec", ("copy",))
        from gen_core import align_of
        while "packed" in rep and align_of(t) > 8: t = g.prim()
        fields.append((f"f{i}", t, r.random() < .8))
    extra = [("pub " if r.random() < .5 else "") + f"x{i}: {x}" for i, x in enumerate(r.sample([x for x, _ in EXTRA[:12]] + ["[i128; 3]", "[core::num::NonZeroU8; 21]", "(u8, u128)"], r.choice([0, 0, 1, 1, 2])))]
    deps = set().union(*[t.deps() for _, t, _ in fields])
    o = [f"#[repr({rep})]" if rep else "", "#[derive(Clone, Copy)]",
         f"pub union {n} {{ " + ", ".join([("pub " if p else "") + f"{f}: {t.rs()}" for f, t, p in fields] + extra) + " }"]
    v0 = fields[0][1].val(r)
    o.append(f"impl Default for {n} {{ fn default() -> Self {{ {n} {{ f0: {fields[0][1].rsx(v0)} }} }} }}")
    meth, main, offs = [], [], []
    q = f"{g.ns}::{n}"
    for f, t, p in fields:
        if not p: continue
        v, w = t.val(r), t.val(r)
        meth.append(f"pub fn chk_{f}(&self) {{ use crate::hid::Ser as _; crate::hid::chk(\"{n}.{f} written in c++\", unsafe {{ let x = self.{f}; x.ser() }}, {cstr(t.ser(v))}); }}")
        meth.append(f"pub fn mk_{f}() -> Self {{ {n} {{ {f}: {t.rsx(w)} }} }}")
        acc = f if rep.startswith("C") else f + ".value"
        main.append(f"{{ {q} u; u.{acc} = {g.ccx(t, v, 'spec', deps)}; u.chk_{f}(); {q} w = {q}::mk_{f}(); auto t_ = w.{acc}; tst::check(\"{n}.{f} written in rust\", tst::ser(t_), {cstr(t.ser(w))}); }}")
        main.append(f'tst::check_true("offsetof({n},{f})", offsetof({q}, {acc}) == {g.ns}::lay_{n}({len(offs) + 2}));')
        offs.append(f"core::mem::offset_of!({n}, {f})")
    o.append(f"impl {n} {{ {' '.join(meth)} }}")
    o.append(f"pub fn lay_{n}(i: usize) -> usize {{ [core::mem::size_of::<{n}>(), core::mem::align_of::<{n}>(), {', '.join(offs)}][i] }}")
    main += [f'tst::check_true("sizeof({n})", sizeof({q}) == {g.ns}::lay_{n}(0));', f'tst::check_true("alignof({n})", alignof({q}) == {g.ns}::lay_{n}(1));']
    g.items.append(Item(n, deps, "\n".join(o), "", "\n".join(main), {"union", "repr:" + (rep or "Rust")}, "union"))


def add_roundtrip(g, t):
    """Built in Rust, read in C++ (field by field), copied through an array, read in Rust."""
    r = g.r
    n = g.fresh("rt_")
    v, w = t.val(r), t.val(r)
    deps = t.deps() | {t.name}
    rust = [f"pub fn {n}_a() -> {t.rs()} {{ {t.rsx(v)} }}",
            f"pub fn {n}_b(x: &{t.rs()}) {{ use crate::hid::Ser as _; crate::hid::chk(\"{n}_b\", x.ser(), {cstr(t.ser(v))}); }}",
            f"pub fn {n}_s(x: &[{t.rs()}]) {{ use crate::hid::Ser as _; crate::hid::chk(\"{n}_s\", x.ser(), {cstr('[' + t.ser(v) + ',' + t.ser(w) + ']')}); }}",
            f"pub fn {n}_w(x: &mut {t.rs()}) {{ *x = {t.rsx(w)}; }}"]
    q = t.cc("spec")
    main = [f"{{ {q} x = {g.ns}::{n}_a(); tst::check(\"{n}_a\", tst::ser(x), {cstr(t.ser(v))}); {g.ns}::{n}_b(x); {q} y = {g.ns}::{n}_a(); {g.ns}::{n}_w(y); "
            f"tst::check(\"{n}_w\", tst::ser(y), {cstr(t.ser(w))}); {q} arr[2] = {{std::move(x), std::move(y)}}; {g.ns}::{n}_s(rs_std::SliceRef<const {q}>(arr)); }}"]
    g.items.append(Item(n, deps, "\n".join(rust), "", "\n".join(main), {"roundtrip"}, "roundtrip of " + t.name))


def gen(seed):
    r = random.Random(seed)
    g = Gen(r, cfg={"extra": .5, "nf": [1, 2, 3, 4, 5, 6, 8, 12]})
    for _ in range(13):
        k = r.random()
        if k < .65: t = g.add_struct()
        elif k < .85: t = g.add_enum()
        else:
            add_union(g)
            continue
        if r.random() < .8: add_roundtrip(g, t)
    return g.items


def check(ctx):
    base = build.e2e_base()
    ctx.rule = ("a case is one generated struct, enum or union (size, alignment, offset of every public field, default value, field contents) or a "
                "round trip of one; non-trivial: a type with at least two fields or variants, distinct by its definition")
    def classify(items, case, res):
        for i in items:
            if not i.cc_main: continue
            ctx.count(1 + i.cc_main.count("offsetof("))
            for k in i.kinds: ctx.cls(k)
            d = "\n".join(l for l in i.rust.splitlines() if l.startswith(("#[", "pub struct", "pub enum", "pub union")))
            if i.desc in ("struct", "enum", "union") and d.count(",") >= 1:
                ctx.note(re.sub(r"\b[SEU]\d+\b", "T", d))
                ctx.sample(d, 8)
    n = ctx.n(48, 900)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], gen, render, classify)


if __name__ == "__main__":
    sys.exit(runner.main("C03", check, sweep.replay_case))
