"""Operation histories over rs_std::Option, Result, Vec and Tuple values owned by C++, with a model."""
from gen_core import Item, cstr, StructTy, EnumTy
from model import *

MOVED = "moved"


def toks(t, v):
    """Tracked tokens inside the value v."""
    if isinstance(t, StructTy): return int(t.tok) + sum(toks(f["ty"], x) for f, x in zip(t.fields, v))
    if isinstance(t, EnumTy): return sum(toks(x, y) for x, y in zip(t.variants[v[0]][1], v[1]))
    if isinstance(t, Opt): return 0 if v is None else toks(t.t, v[0])
    if isinstance(t, Res): return toks(t.t if v[0] == "ok" else t.e, v[1])
    if isinstance(t, Tup): return sum(toks(x, y) for x, y in zip(t.ts, v))
    if isinstance(t, (Arr, VecT)): return sum(toks(t.t, x) for x in v)
    return 0


def movable(t): return t.copy or (t.default if not isinstance(t, (Opt, VecT, Str)) else True)


def container_history(g, c, steps):
    """c: Opt, Res, VecT or Tup of supported types. Adds an Item; returns it."""
    r, ns = g.r, g.ns
    n = g.fresh("con_")
    H = f"H{n}"
    deps = c.deps()
    Q, T = c.cc("spec"), c.rs()
    pool = [c.val(r) for _ in range(6)]
    dflt = c.val(r)
    arms = ", ".join(f"{i} => {c.rsx(v)}" for i, v in enumerate(pool))
    R = [f"pub struct {H} {{ pub lo: u8, pub c: {T}, pub hi: u16 }}",
         f"impl Default for {H} {{ fn default() -> Self {{ {H} {{ lo: 0xa5, c: {c.rsx(dflt)}, hi: 0x5aa5 }} }} }}",
         f"pub fn {n}_peek(x: &{H}) -> String {{ use crate::hid::Ser as _; if x.lo != 0xa5 || x.hi != 0x5aa5 {{ return \"neighbour fields overwritten\".into(); }} x.c.ser() }}",
         f"pub fn {n}_see(x: &{T}) -> String {{ use crate::hid::Ser as _; x.ser() }}",
         f"pub fn {n}_set(x: &mut {H}, i: usize) {{ x.c = match i {{ {arms}, _ => panic!() }} }}",
         f"pub fn {n}_take(x: &mut {H}, i: usize) -> String {{ use crate::hid::Ser as _; core::mem::replace(&mut x.c, match i {{ {arms}, _ => panic!() }}).ser() }}"]
    S = 3
    slot = [None] * S
    main, ops = [], []
    subs = [c.t] if isinstance(c, (Opt, VecT)) else [c.t, c.e] if isinstance(c, Res) else c.ts
    X = lambda k: f"s[{k}]->c"

    def emit(op, code, touched=(), clones=0):
        ops.append(op)
        w = f"{n} step {len(ops)} ({op})"
        o = [f"{{ [[maybe_unused]] auto c0 = {ns}::tst_clones(); {code} "]
        if clones is not None: o.append(f'tst::check_true("{w}: clones made are not {clones}", {ns}::tst_clones() - c0 == {clones});')
        o.append("}")
        for k in sorted(set(touched)):
            if slot[k] is None or slot[k] is MOVED: continue
            v = slot[k][0]
            o.append(f'tst::check("{w} slot {k} seen by rust", sl({ns}::{n}_peek(*s[{k}])), {cstr(c.ser(v))}); tst::check("{w} slot {k} seen by c++", tst::ser({X(k)}), {cstr(c.ser(v))});')
            if isinstance(c, Opt): o.append(f'tst::check_true("{w} has_value", {X(k)}.has_value() == {str(v is not None).lower()});')
            if isinstance(c, Res): o.append(f'tst::check_true("{w} has_value", {X(k)}.has_value() == {str(v[0] == "ok").lower()} && bool({X(k)}) == {str(v[0] == "ok").lower()});')
        live = sum(toks(c, v[0]) for v in slot if v is not None and v is not MOVED)
        exact = not any(v is MOVED for v in slot)
        o.append(f'tst::check_true("{w}: live values are not {"" if exact else ">= "}{live}", {ns}::tst_live() {"==" if exact else ">="} {live});')
        main.append(" ".join(o))

    val = lambda t, v: g.ccx(t, v, "spec", deps)
    simple = lambda t: not isinstance(t, (Unit,))
    cmov = movable(c) if isinstance(c, Tup) else all(movable(t) for t in subs) and (not isinstance(c, Res) or c.copy)
    for _ in range(steps):
        k = r.randrange(S)
        full = [x for x in range(S) if slot[x] is not None and slot[x] is not MOVED]
        have = [x for x in range(S) if slot[x] is not None]
        ch = ["make", "set"]
        if have: ch += ["rset", "rtake", "destroy"]
        if full: ch += ["mutate", "access"] * 2
        if full and c.clone: ch += ["copyctor", "copyassign", "selfcopy"]
        if full and cmov: ch += ["movector", "moveassign"]
        if have and isinstance(c, Opt): ch += ["=T", "=T", "=nullopt", "=std", "=std", "=stdnull", "ctorT", "ctorstd", "ctornull", "inplace"] + (["tostd"] if full and movable(c.t) and simple(c.t) else [])
        if have and isinstance(c, Res): ch += ["=T", "=T", "=E", "=E", "ctorT", "ctorE", "inplace", "unexpect"]
        if full and isinstance(c, Opt) and simple(c.t): ch += ["=self*"]
        if full and isinstance(c, Res): ch += ["=self*"]
        if have and isinstance(c, Tup) and movable(c): ch += ["=stdtuple"] * 3 + (["tostdtuple"] * 2 if full else [])
        op = r.choice(ch)
        src = r.choice(full) if full else None
        hv = r.choice(have) if have else None
        if op == "make":
            slot[k] = (dflt,); emit(f"default holder in {k}", f"s[{k}].reset(); s[{k}].emplace();", [k], None)
        elif op == "set":
            i = r.randrange(6)
            slot[k] = (pool[i],); emit(f"set {k} by rust to {i}", f"if (!s[{k}]) s[{k}].emplace(); {ns}::{n}_set(*s[{k}], {i});", [k], None)
        elif op == "rset":
            i = r.randrange(6); slot[hv] = (pool[i],); emit(f"rust sets {hv} to {i}", f"{ns}::{n}_set(*s[{hv}], {i});", [hv])
        elif op == "rtake":
            if src is None: continue
            i = r.randrange(6); old = slot[src][0]; slot[src] = (pool[i],)
            emit(f"rust takes {src}", f'tst::check("{n} taken", sl({ns}::{n}_take(*s[{src}], {i})), {cstr(c.ser(old))});', [src])
        elif op == "destroy":
            slot[hv] = None; emit(f"destroy {hv}", f"s[{hv}].reset();")
        elif op == "copyctor":
            v = slot[src][0]
            emit(f"copy-construct from {src}", f'{{ {Q} y({X(src)}); tst::check("{n} copy", tst::ser(y), {cstr(c.ser(v))}); tst::check("{n} copy seen by rust", sl({ns}::{n}_see(y)), {cstr(c.ser(v))}); }}', [src], None)
        elif op == "copyassign":
            k = r.choice(have); slot[k] = (slot[src][0],)
            if k == src: continue
            emit(f"copy-assign {k} from {src}", f"{X(k)} = {X(src)};", [k, src], toks(c, slot[src][0]))
        elif op == "selfcopy":
            emit(f"self-copy {src}", f"auto& a = {X(src)}; const auto& b = {X(src)}; a = b;", [src], None)
        elif op == "movector":
            v = slot[src][0]; slot[src] = MOVED
            emit(f"move-construct from {src}", f'{{ {Q} y(std::move({X(src)})); tst::check("{n} moved", tst::ser(y), {cstr(c.ser(v))}); tst::check("{n} moved seen by rust", sl({ns}::{n}_see(y)), {cstr(c.ser(v))}); }}', [], None)
        elif op == "moveassign":
            k = r.choice(have)
            if k == src: continue
            v = slot[src]; slot[src] = MOVED; slot[k] = v
            emit(f"move-assign {k} from {src}", f"{X(k)} = std::move({X(src)});", [k], None)
        elif op == "access":
            v = slot[src][0]; x, cx = X(src), f"std::as_const({X(src)})"
            if isinstance(c, Opt):
                if not simple(c.t): continue
                code = "" if v is not None else f'tst::check_true("{n} ' + "empty access does not abort\", " + " && ".join(f"tst::died([&]{{ {z} }})" for z in (f"(void)*{x};", f"(void)*{cx};", f"(void)*std::move({x});", f"(void){x}.operator->();", f"(void){cx}.operator->();")) + ");"
                if v is not None: code = f'tst::check("{n} *x", tst::ser(*{x}), {cstr(c.t.ser(v[0]))}); tst::check("{n} *const x", tst::ser(*{cx}), {cstr(c.t.ser(v[0]))}); tst::check_true("{n} ->", {x}.operator->() == &*{x} && {cx}.operator->() == &*{cx} && &*{x} == &*{cx}); auto* p = reinterpret_cast<const char*>(&*{x}); tst::check_true("{n} payload inside", p >= reinterpret_cast<const char*>(&{x}) && p + sizeof(*{x}) <= reinterpret_cast<const char*>(&{x} + 1) && reinterpret_cast<std::uintptr_t>(p) % alignof({c.t.cc("spec")}) == 0);'
            elif isinstance(c, Res):
                t, f = (c.t, ["value()", "operator*()"]) if v[0] == "ok" else (c.e, ["error()", "err()"])
                if not simple(t): continue
                code = " ".join(f'tst::check("{n} {a}", tst::ser({y}.{a}), {cstr(t.ser(v[1]))});' for a in f for y in (x, cx))
                code += f" tst::check_true(\"{n} same object\", &{x}.{f[0]} == &{cx}.{f[1]});"
                bad = ["error()", "err()"] if v[0] == "ok" else ["value()", "operator*()", "operator->()"]
                if not isinstance(c.e if v[0] == "ok" else c.t, Unit):
                    code += f' tst::check_true("{n} wrong access does not abort", ' + " && ".join(f"tst::died([&]{{ (void){y}.{a}; }})" for a in bad for y in (x, cx)) + ");"
                if v[0] == "ok": code += f' tst::check_true("{n} ->", {x}.operator->() == &{x}.value() && {cx}.operator->() == &{cx}.value());'
            elif isinstance(c, VecT):
                code = f'tst::check_true("{n} size", {x}.size() == {len(v)} && {cx}.size() == {len(v)} && {x}.end() - {x}.begin() == {len(v)} && {cx}.end() - {cx}.begin() == {len(v)} && {x}.data() == {x}.begin() && {cx}.data() == {cx}.begin());'
                for i, y in enumerate(v): code += f' tst::check("{n}[{i}]", tst::ser({x}[{i}]), {cstr(c.t.ser(y))}); tst::check_true("{n}[{i}] address", &{cx}[{i}] == {x}.data() + {i});'
            else: continue
            emit(f"access {src}", code, [src], None)
        elif op == "mutate":
            v = slot[src][0]; x = X(src)
            if isinstance(c, Opt):
                if v is None or not simple(c.t) or not movable(c.t): continue
                nv = c.t.val(r); slot[src] = ((nv,),)
                code = f"*{x} = {val(c.t, nv)};"
            elif isinstance(c, Res):
                t, f = (c.t, r.choice(["value()", "operator*()"])) if v[0] == "ok" else (c.e, r.choice(["error()", "err()"]))
                if not simple(t) or not movable(t): continue
                nv = t.val(r); slot[src] = ((v[0], nv),)
                code = f"{x}.{f} = {val(t, nv)};"
            elif isinstance(c, VecT):
                if not v or not movable(c.t): continue
                i = r.randrange(len(v)); nv = c.t.val(r)
                slot[src] = (v[:i] + [nv] + v[i + 1:],)
                code = r.choice([f"{x}[{i}] = {val(c.t, nv)};", f"*({x}.begin() + {i}) = {val(c.t, nv)};", f"{x}.data()[{i}] = {val(c.t, nv)};"])
            else: continue
            emit(f"mutate payload of {src}", code, [src], None)
        elif op == "=self*":
            v = slot[src][0]; x = X(src)
            t = c.t if isinstance(c, Opt) or v[0] == "ok" else c.e
            if v is None or not simple(t) or not (t.clone and movable(t)): continue
            if isinstance(c, Res) and v[0] == "err": continue
            emit(f"assign {src} its own payload", f"{x} = *{x};", [src], None)
        elif op in ("=T", "ctorT", "inplace", "=E", "ctorE", "unexpect"):
            err = op in ("=E", "ctorE", "unexpect")
            t = c.e if err else c.t
            if not simple(t) and op != "inplace" and op != "unexpect": continue
            if not movable(t): continue
            nv = t.val(r)
            slot[hv] = ((nv,),) if isinstance(c, Opt) else (("err" if err else "ok", nv),)
            ex = val(t, nv)
            pre, arg, cl = "", ex, None
            kk = r.random()
            if kk < .3 or isinstance(t, Unit): pre, arg = f"{t.cc('spec')} t_ = {ex};", "std::move(t_)"
            elif kk < .6 and t.clone: pre, arg = f"const {t.cc('spec')} t_ = {ex};", "t_"
            ua = f"rs_std::unexpected<{t.cc('spec')}>({arg})"
            if op == "=T": st = f"{X(hv)} = {arg};"
            elif op == "=E": st = f"{X(hv)} = {ua};"
            else:
                mk = {"ctorT": f"auto y = {Q}({arg});", "inplace": f"auto y = {Q}(std::in_place, {arg});", "ctorE": f"auto y = {Q}({ua});", "unexpect": f"auto y = {Q}(rs_std::unexpect, {arg});"}[op]
                see = f'tst::check("{n} built", tst::ser(y), {cstr(c.ser(slot[hv][0]))}); tst::check("{n} built seen by rust", sl({ns}::{n}_see(y)), {cstr(c.ser(slot[hv][0]))});'
                if cmov: st = f"{mk} {see} {X(hv)} = std::move(y);"
                else: st = f"{mk} {see}"; slot[hv] = None
                if not cmov:
                    emit(f"{op} (temporary), destroy {hv}", f"{pre} {st} s[{hv}].reset();", [], cl); continue
            emit(f"{op} {hv}" + (" lvalue" if arg == "t_" else ""), f"{pre} {st}", [hv], cl)
        elif op in ("=nullopt", "ctornull", "=stdnull"):
            st = {"=nullopt": f"{X(hv)} = std::nullopt;", "ctornull": f"{Q} y(std::nullopt); tst::check_true(\"{n} null\", !y.has_value()); " + (f"{X(hv)} = std::move(y);" if cmov else f"{X(hv)} = std::nullopt;"),
                  "=stdnull": f"{X(hv)} = std::optional<{c.t.cc('spec')}>();"}[op]
            slot[hv] = (None,)
            emit(f"{op} {hv}", st, [hv], None)
        elif op in ("=std", "ctorstd"):
            if not simple(c.t) or not movable(c.t): continue
            if op == "ctorstd" and not cmov: continue
            nv = c.t.val(r); slot[hv] = ((nv,),)
            o = f"std::optional<{c.t.cc('spec')}>(std::in_place, {val(c.t, nv)})"
            if op == "=std": st = r.choice([f"{X(hv)} = {o};", f"auto o_ = {o}; {X(hv)} = std::move(o_);"])
            else: st = f"auto y = {Q}({o}); " + (f"{X(hv)} = std::move(y);" if cmov else "")
            emit(f"{op} {hv}", st, [hv], None)
        elif op == "tostd":
            v = slot[src][0]; slot[src] = (None,)
            tt = f"std::optional<{c.t.cc('spec')}>"
            emit(f"to std::optional {src}", f'{{ {tt} o_ = std::move({X(src)}); tst::check("{n} as std::optional", tst::ser(o_), {cstr(c.ser(v))}); }}', [src], None)
        elif op == "=stdtuple":
            if not movable(c): continue
            nv = c.val(r)
            tt = f"std::tuple<{', '.join(t.cc('spec') for t in c.ts)}>"
            slot[hv] = (nv,)
            mk = f"auto y = {Q}({tt}({', '.join(val(t, x) for t, x in zip(c.ts, nv))}));"
            emit(f"from std::tuple {hv}", f"{mk} {X(hv)} = std::move(y);", [hv], None)
        elif op == "tostdtuple":
            v = slot[src][0]; slot[src] = MOVED
            tt = f"std::tuple<{', '.join(t.cc('spec') for t in c.ts)}>"
            emit(f"to std::tuple {src}", f'{{ {tt} o_ = std::move({X(src)}); tst::check("{n} as std::tuple", tst::ser(o_), {cstr(c.ser(v))}); }}', [], None)
    body = f"{{ std::optional<{ns}::{H}> s[{S}]; auto sl = [](const rs::alloc::string::String& x) {{ return std::string(std::string_view(x.as_str())); }};\n" + "\n".join(main) + "\n}"
    it = Item(n, deps, "\n".join(R), "", body, {"history:" + type(c).__name__}, "history")
    it.ops = ops
    g.items.append(it)
    return it


def container_type(g, own):
    """A random container type whose values C++ can own."""
    r = g.r
    for _ in range(80):
        k = r.random()
        pick = lambda: r.choice(own) if own and r.random() < .5 else g.val_ty(r.choice([0, 0, 1, 2]), "spec", ("clone",))
        if k < .4: c = Opt(pick())
        elif k < .7: c = Res(pick() if r.random() < .85 else Unit(), pick())
        elif k < .85: c = VecT(pick() if r.random() < .8 else Str(), g.ns)
        else: c = Tup([pick() for _ in range(r.choice([1, 2, 2, 3]))])
        if isinstance(c, Tup) and not c.clone: continue
        if g.ok_ty(c, "spec"): return c
    return Opt(Str())
