#!/usr/bin/env python3
"""C04: ownership histories: every Rust value made is dropped exactly once, whatever C++ does with it."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, sweep
from gen_core import Gen, Item, StructTy, EnumTy, cstr, render
from model import *
from containers import container_history, container_type


def toks(t, v):
    """Tracked tokens inside the value v."""
    if isinstance(t, StructTy): return int(t.tok) + sum(toks(f["ty"], x) for f, x in zip(t.fields, v))
    if isinstance(t, EnumTy): return sum(toks(x, y) for x, y in zip(t.variants[v[0]][1], v[1]))
    if isinstance(t, Opt): return 0 if v is None else toks(t.t, v[0])
    if isinstance(t, Res): return toks(t.t if v[0] == "ok" else t.e, v[1])
    if isinstance(t, Tup): return sum(toks(x, y) for x, y in zip(t.ts, v))
    if isinstance(t, (Arr, VecT)): return sum(toks(t.t, x) for x in v)
    return 0


MOVED = "moved"


def history(g, t, steps, by_value):
    r, ns = g.r, g.ns
    n = g.fresh("own_")
    deps = t.deps()
    if isinstance(t, Named): deps |= {t.name}
    clone = t.clone
    vals = [t.val(r) for _ in range(5)]
    T = t.rs()
    R = [f"pub fn {n}_mk(i: usize) -> {T} {{ match i {{ " + ", ".join(f"{i} => {t.rsx(v)}" for i, v in enumerate(vals)) + ", _ => panic!() } }" if by_value else
         f"pub struct {n}_Box {{ v: {T} }}",
         f"pub fn {n}_peek(x: &{T}) -> String {{ use crate::hid::Ser as _; x.ser() }}",
         f"pub fn {n}_set(x: &mut {T}, i: usize) {{ *x = match i {{ " + ", ".join(f"{i} => {t.rsx(v)}" for i, v in enumerate(vals)) + ", _ => panic!() } }",
         f"pub fn {n}_swap(a: &mut {T}, b: &mut {T}) {{ core::mem::swap(a, b) }}",
         f"pub fn {n}_repl(a: &mut {T}, i: usize) -> String {{ use crate::hid::Ser as _; let v = match i {{ " + ", ".join(f"{i} => {t.rsx(v)}" for i, v in enumerate(vals)) + ", _ => panic!() }; core::mem::replace(a, v).ser() }"]
    if clone: R.append(f"pub fn {n}_cpy(a: &mut {T}, b: &{T}) {{ a.clone_from(b) }}")
    simple = isinstance(t, (StructTy, EnumTy, Str, VecT))
    if by_value:
        R += [f"pub fn {n}_take(x: {T}) -> String {{ use crate::hid::Ser as _; x.ser() }}",
              f"pub fn {n}_pass(x: {T}) -> {T} {{ x }}",
              f"pub fn {n}_two(a: {T}, b: {T}, which: bool) -> {T} {{ if which {{ a }} else {{ b }} }}"]
        if simple:
            R += [f"pub fn {n}_some(x: {T}, y: bool) -> Option<{T}> {{ if y {{ Some(x) }} else {{ None }} }}",
                  f"pub fn {n}_unopt(x: Option<{T}>) -> String {{ use crate::hid::Ser as _; x.ser() }}",
                  f"pub fn {n}_ok(x: {T}, y: bool) -> Result<{T}, u16> {{ if y {{ Ok(x) }} else {{ Err(77) }} }}",
                  f"pub fn {n}_tup(x: ({T}, u8, {T})) -> ({T}, {T}) {{ (x.2, x.0) }}",
                  f"pub fn {n}_vec(a: {T}, b: {T}) -> Vec<{T}> {{ vec![a, b] }}",
                  f"pub fn {n}_vlast(mut a: Vec<{T}>) -> {T} {{ a.pop().unwrap() }}"]
            if clone: R.append(f"pub fn {n}_arr(x: [{T}; 2]) -> [{T}; 2] {{ let [a, b] = x; [b, a] }}")
    q = t.cc("spec")
    S = 4
    slot = [None] * S   # None | MOVED | value
    main, ops = [], []
    def emit(op, code, touched=(), clones=0):
        ops.append(op)
        post = " ".join(f'tst::check("{n} step {len(ops)} ({op}) slot {k}", sl({n}_peek(*s[{k}])), {cstr(t.ser(slot[k]))});' for k in sorted(set(touched)) if slot[k] not in (None, MOVED) or slot[k] == () )
        cl = f'tst::check_true("{n} step {len(ops)} ({op}): clones made are not {clones}", {ns}::tst_clones() - c0 == {clones});' if clones is not None else ""
        live = sum(toks(t, v) for v in slot if v is not None and v is not MOVED)
        exact = not any(v is MOVED for v in slot)
        lv = f'tst::check_true("{n} step {len(ops)} ({op}): live values are not {"" if exact else ">= "}{live}", {ns}::tst_live() {"==" if exact else ">="} {live});'
        main.append(f"{{ [[maybe_unused]] auto c0 = {ns}::tst_clones(); {code} {cl} }} {lv} {post}")
    is_val = lambda k: slot[k] is not None and slot[k] is not MOVED
    def mk(i):
        return f"{ns}::{n}_mk({i})" if by_value else None
    made = 0
    movable = not isinstance(t, Res)
    for step in range(steps):
        k, j = r.randrange(S), r.randrange(S)
        full = [x for x in range(S) if is_val(x)]
        have = [x for x in range(S) if slot[x] is not None]
        choices = ["make", "make"]
        if full: choices += ["movector", "movector", "moveassign", "moveassign", "destroy", "set", "repl", "swaprs", "swapcc", "selfmove"]
        if full and clone: choices += ["copyctor", "copyctor", "copyassign", "copyassign", "selfcopy", "vecpush", "clonefrom"]
        if full and by_value: choices += ["take", "pass", "two"]
        if full and by_value and clone: choices += ["takecopy"]
        if full and by_value and simple: choices += ["some", "unopt", "ok", "tup", "vec", "vlast"] + (["arr"] if clone else [])
        op = r.choice(choices)
        src = r.choice(full) if full else None
        mc = 0 if t.default or t.copy else None   # clones made by a move
        if op == "make":
            i = r.randrange(5)
            if by_value:
                if slot[k] is None or r.random() < .5: code = f"s[{k}].reset(); s[{k}].emplace({mk(i)});"
                else: code = f"*s[{k}] = {mk(i)};"
                slot[k] = vals[i]
            else:
                code = f"if (!s[{k}]) s[{k}].emplace(); {ns}::{n}_set(*s[{k}], {i});"; slot[k] = vals[i]
            emit(f"make {i} in {k}", code, [k], mc)
        elif op == "movector":
            if k == src: k = (k + 1) % S
            code = f"s[{k}].reset(); s[{k}].emplace(std::move(*s[{src}]));"
            v = slot[src]; slot[src] = MOVED; slot[k] = v
            emit(f"move-construct {k} from {src}", code, [k], mc)
        elif op == "moveassign":
            tg = [x for x in have if x != src]
            if not tg: continue
            k = r.choice(tg)
            v = slot[src]; slot[src] = MOVED; slot[k] = v
            emit(f"move-assign {k} from {src}", f"*s[{k}] = std::move(*s[{src}]);", [k], mc)
        elif op == "selfmove":
            if not t.default: continue
            slot[src] = MOVED
            emit(f"self-move {src}", f"auto& a = *s[{src}]; auto& b = *s[{src}]; a = std::move(b);", [src], None)
        elif op == "copyctor":
            if k == src: k = (k + 1) % S
            slot[k] = slot[src]
            emit(f"copy-construct {k} from {src}", f"s[{k}].reset(); s[{k}].emplace(*s[{src}]);", [k, src], toks(t, slot[src]))
        elif op == "copyassign":
            tg = [x for x in have if x != src]
            if not tg: continue
            k = r.choice(tg)
            slot[k] = slot[src]
            emit(f"copy-assign {k} from {src}", f"*s[{k}] = *s[{src}];", [k, src], toks(t, slot[src]))
        elif op == "clonefrom":
            tg = [x for x in have if x != src]
            if not tg: continue
            k = r.choice(tg)
            slot[k] = slot[src]
            emit(f"clone_from {k} from {src}", f"{ns}::{n}_cpy(*s[{k}], *s[{src}]);", [k, src], toks(t, slot[src]))
        elif op == "selfcopy":
            emit(f"self-copy {src}", f"auto& a = *s[{src}]; const auto& b = *s[{src}]; a = b;", [src], None)
        elif op == "destroy":
            k = r.choice(have); slot[k] = None
            emit(f"destroy {k}", f"s[{k}].reset();", [], 0)
        elif op == "set":
            k = r.choice(have); i = r.randrange(5); slot[k] = vals[i]
            emit(f"set {k} to {i}", f"{ns}::{n}_set(*s[{k}], {i});", [k], 0)
        elif op == "repl":
            i = r.randrange(5); old = slot[src]; slot[src] = vals[i]
            emit(f"replace {src}", f'tst::check("{n} replaced", sl({ns}::{n}_repl(*s[{src}], {i})), {cstr(t.ser(old))});', [src], 0)
        elif op in ("swaprs", "swapcc"):
            o = [x for x in full if x != src]
            if not o: continue
            k = r.choice(o)
            slot[k], slot[src] = slot[src], slot[k]
            emit(f"swap {k} {src}", f"{ns}::{n}_swap(*s[{k}], *s[{src}]);" if op == "swaprs" else f"std::swap(*s[{k}], *s[{src}]);", [k, src], 0 if op == "swaprs" else mc)
        elif op == "vecpush":
            v = slot[src]
            emit(f"std::vector of {src}", f'{{ std::vector<{q}> x; for (int i = 0; i < 3; i++) x.push_back(*s[{src}]); x.erase(x.begin()); x.insert(x.begin(), *s[{src}]); for (auto& y : x) tst::check("{n} in vector", sl({ns}::{n}_peek(y)), {cstr(t.ser(v))}); }}', [src], None)
        elif op == "take":
            v = slot[src]; slot[src] = MOVED
            emit(f"pass {src} by value (moved)", f'tst::check("{n} taken", sl({ns}::{n}_take(std::move(*s[{src}]))), {cstr(t.ser(v))});', [], mc)
        elif op == "takecopy":
            v = slot[src]
            emit(f"pass {src} by value (copied)", f'tst::check("{n} taken", sl({ns}::{n}_take(*s[{src}])), {cstr(t.ser(v))});', [src], toks(t, v))
        elif op == "pass":
            v = slot[src]
            emit(f"pass {src} through", f"*s[{src}] = {ns}::{n}_pass(std::move(*s[{src}]));", [src], mc)
        elif op == "two":
            o = [x for x in full if x != src]
            if not o: continue
            k = r.choice(o); w = r.random() < .5
            va, vb = slot[src], slot[k]
            slot[src] = va if w else vb; slot[k] = MOVED
            emit(f"choose of {src} {k}", f"*s[{src}] = {ns}::{n}_two(std::move(*s[{src}]), std::move(*s[{k}]), {'true' if w else 'false'});", [src], mc)
        elif op == "some":
            w = r.random() < .6; v = slot[src]
            if w: code = f"auto o = {ns}::{n}_some(std::move(*s[{src}]), true); tst::check_true(\"{n} some\", o.has_value()); *s[{src}] = *std::move(o);"
            else: code = f"auto o = {ns}::{n}_some(std::move(*s[{src}]), false); tst::check_true(\"{n} none\", !o.has_value());"; slot[src] = MOVED
            emit(f"optional of {src} {w}", code, [src], mc)
        elif op == "unopt":
            v = slot[src]; slot[src] = MOVED
            emit(f"optional argument from {src}", f'tst::check("{n} optional argument", sl({ns}::{n}_unopt(std::optional<{t.cc("nest")}>(std::move(*s[{src}])))), {cstr("S(" + t.ser(v) + ")")}); tst::check("{n} nullopt argument", sl({ns}::{n}_unopt(std::nullopt)), "N");', [], mc)
        elif op == "ok":
            w = r.random() < .6
            if w: code = f"auto o = {ns}::{n}_ok(std::move(*s[{src}]), true); tst::check_true(\"{n} ok\", o.has_value()); *s[{src}] = std::move(o.value());"
            else: code = f"auto o = {ns}::{n}_ok(std::move(*s[{src}]), false); tst::check_true(\"{n} err\", !o.has_value() && o.error() == 77);"; slot[src] = MOVED
            emit(f"result of {src} {w}", code, [src], None)
        elif op == "tup":
            o = [x for x in full if x != src]
            if not o: continue
            k = r.choice(o)
            slot[src], slot[k] = slot[k], slot[src]
            c = t.cc("nest")
            emit(f"tuple of {src} {k}", f"std::tuple<{c}, {c}> o = {ns}::{n}_tup(std::tuple<{c}, std::uint8_t, {c}>(std::move(*s[{src}]), 5, std::move(*s[{k}]))); *s[{src}] = std::move(std::get<0>(o)); *s[{k}] = std::move(std::get<1>(o));", [src, k], None)
        elif op in ("vec", "vlast"):
            o = [x for x in full if x != src]
            if not o: continue
            k = r.choice(o)
            va, vb = slot[src], slot[k]
            code = f'auto v_ = {ns}::{n}_vec(std::move(*s[{src}]), std::move(*s[{k}])); tst::check("{n} vec", tst::ser(v_.size()), "2"); tst::check("{n} vec[0]", sl({ns}::{n}_peek(v_[0])), {cstr(t.ser(va))});'
            slot[src] = slot[k] = MOVED
            if op == "vlast":
                code += f" *s[{k}] = {ns}::{n}_vlast(std::move(v_));"; slot[k] = vb
            emit(f"{op} of {src} {k}", code, [k], mc)
        elif op == "arr":
            o = [x for x in full if x != src]
            if not o: continue
            k = r.choice(o)
            slot[src], slot[k] = slot[k], slot[src]
            emit(f"array of {src} {k}", f"std::array<{q}, 2> a{{{{std::move(*s[{src}]), std::move(*s[{k}])}}}}; auto o = {ns}::{n}_arr(std::move(a)); *s[{src}] = std::move(o[0]); *s[{k}] = std::move(o[1]);", [src, k], None)
    body = f"std::optional<{q}> s[{S}]; auto sl = [](const rs::alloc::string::String& x) {{ return std::string(std::string_view(x.as_str())); }};\n" + "\n".join(main).replace(f"sl({n}_", f"sl({ns}::{n}_")
    it = Item(n, deps, "\n".join(R), "", body, {"history:" + type(t).__name__}, "history")
    it.ops = ops
    g.items.append(it)


def gen(seed):
    r = random.Random(seed)
    g = Gen(r, cfg={"extra": .1, "nf": [1, 1, 2, 3]})
    for _ in range(5): (g.add_struct if r.random() < .7 else g.add_enum)()
    own = [t for t in g.types + g.types_noclone() if t.drops()]
    for _ in range(4):
        k = r.random()
        base = r.choice(own) if own else Str()
        if k < .5: t = base
        elif k < .6: t = Str()
        elif k < .75: t = VecT(base if base.clone else Str(), g.ns)
        elif k < .85: t = Opt(base)
        elif k < .93: t = Tup([base, Int("u8")]) if base.clone else base
        else: t = g.val_ty(2, "spec", ("clone", "default"))
        if not g.ok_ty(t, "spec"): t = base
        by_value = g.ok_ty(t, "top") and not isinstance(t, (Opt, Tup, Arr))
        if not t.default or isinstance(t, (Int, Bool, Float, Char)): continue
        history(g, t, 26, by_value)
    for _ in range(2): container_history(g, container_type(g, own), 20)
    return g.items


def check(ctx):
    base = build.e2e_base()
    ctx.rule = ("a case is one history of operations (make, copy, move, assign, swap, pass, return, wrap in optional/result/tuple/vector/array, "
                "destroy) over four slots of an owning type, with values, live and clone counts compared with a model after every step; "
                "non-trivial: a history with a copy and a move, distinct by its operations and type")
    def classify(items, case, res):
        for i in items:
            if i.desc != "history": continue
            ctx.count(len(i.ops))
            for k in i.kinds: ctx.cls(k)
            if i.kinds and any(k.startswith("history:") for k in i.kinds) and "pub c: " in i.rust:
                ctx.note(repr(i.ops) + i.rust)
            for o in i.ops: ctx.cls("op:" + re.sub(r"[ \d]+(from|to|in|of)?[ \d]*", " ", o).strip())
            if any("copy" in o for o in i.ops) and any("move" in o for o in i.ops):
                ctx.note(repr(i.ops) + i.rust)
                ctx.sample({"type": i.rust.split("->")[1].split("{")[0].strip() if "_mk" in i.rust else i.id, "ops": i.ops}, 4)
    n = ctx.n(48, 900)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], gen, render, classify)


if __name__ == "__main__":
    sys.exit(runner.main("C04", check, sweep.replay_case))
