#!/usr/bin/env python3
"""C12: a reference which outlives the call, or which the result borrows from, cannot be bound to a temporary in C++."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, sweep, topic
from topic import TI

FLAGS = ["-Wno-everything", "-Wreturn-stack-address", "-Werror=return-stack-address", "-Wdangling", "-Werror=dangling"]
BASE = TI("Base", """pub struct T { pub(crate) v: i64, pub(crate) w: i64 }
impl T { pub fn mk(v: i64) -> T { T { v, w: v ^ 1 } } pub fn v(&self) -> i64 { self.v } }
pub struct D { pub(crate) s: String, pub(crate) v: i64 }
impl D { pub fn mk(v: i64) -> D { D { s: v.to_string(), v } } pub fn v(&self) -> i64 { self.v } }
#[derive(Clone, Copy)] #[repr(C)] pub struct P { pub v: i64 }
impl P { pub fn mk(v: i64) -> P { P { v } } pub fn v(&self) -> i64 { self.v } }
pub struct H<'a> { pub(crate) r: &'a i64 }
impl<'a> H<'a> { pub fn mk(r: &'a i64) -> H<'a> { H { r } } pub fn at(self) -> usize { self.r as *const i64 as usize } }
pub static ST: T = T { v: 41, w: 40 };
pub fn st() -> &'static T { &ST }
""", cc_decl="""#include <array>
#include <optional>
#include <tuple>
#include <string_view>
static std::uintptr_t at_(const std::int64_t& x) { return reinterpret_cast<std::uintptr_t>(&x); }
static std::uintptr_t at_(const lib::T& x) { return reinterpret_cast<std::uintptr_t>(&x); }
static std::uintptr_t at_(const lib::D& x) { return reinterpret_cast<std::uintptr_t>(&x); }
static std::uintptr_t at_(const lib::P& x) { return reinterpret_cast<std::uintptr_t>(&x); }
static std::uintptr_t at_(lib::H& x) { return std::move(x).at(); }
static std::uintptr_t at_(rs_std::StrRef x) { return reinterpret_cast<std::uintptr_t>(x.data()); }
template <class E> std::uintptr_t at_(rs_std::SliceRef<E> x) { return reinterpret_cast<std::uintptr_t>(x.data()); }
template <class E> std::uintptr_t at_(std::optional<E> x) { return reinterpret_cast<std::uintptr_t>(*x); }
template <class E> std::uintptr_t at_(std::tuple<E, std::uint8_t> x) { return reinterpret_cast<std::uintptr_t>(std::get<0>(x)); }
template <class E> std::uintptr_t at_(std::array<E, 2> x) { return reinterpret_cast<std::uintptr_t>(x[1]); }
""", kinds={"base"})
ADT = {"T": "v", "D": "v", "P": "v"}


class Par:
    """A parameter: name, Rust type, lifetime it carries ("" elided), shape: ref, str, slice, holder, opt, value."""
    def __init__(self, n, shape, life, mut, of): self.n, self.shape, self.life, self.mut, self.of = n, shape, life, mut, of
    def rs(self, r=None):
        if not self.shape: return "i64"
        if self.shape == "holder": return f"crate::H<{self.life or QUOTE}>"
        l = (self.life + " ") if self.life else ("'_ " if r and r.random() < .2 else "")
        m = "mut " if self.mut else ""
        t = {"ref": lambda: f"crate::{self.of}" if self.of in ADT else self.of, "str": lambda: "str", "slice": lambda: "[i64]", "opt": lambda: "i64"}[self.shape]()
        return f"Option<&{l}{t}>" if self.shape == "opt" else f"&{l}{m}{t}"
    def i64(self):
        """An i64 behind it."""
        return {"ref": f"{self.n}.v" if self.of in ADT else f"*{self.n}", "slice": f"{self.n}[0]", "holder": f"*{self.n}.r", "opt": f"*{self.n}.unwrap()"}[self.shape]
    def ref_i64(self):
        return {"ref": f"&{self.n}.v" if self.of in ADT else f"&*{self.n}", "slice": f"&{self.n}[0]", "holder": f"{self.n}.r", "opt": f"{self.n}.unwrap()"}[self.shape]


QUOTE = "'_"


class G:
    def __init__(self, r, asyncs):
        self.r, self.n, self.items, self.asyncs = r, 0, [BASE], asyncs

    def par(self, k, named):
        r = self.r; n = f"p{k}"
        shape = r.choice(["ref"] * 6 + ["str", "slice", "holder", "opt", ""])
        if not shape: return Par(n, "", None, False, None)
        life = r.choice([""] * 4 + named * 2 + ["'static"])
        mut = shape == "ref" and r.random() < .35
        return Par(n, shape, life, mut, r.choice(["T", "T", "D", "P", "i64"]) if shape == "ref" else None)

    def fn(self):
        r = self.r; self.n += 1; n = f"f{self.n}"
        named = r.sample(["'a", "'b"], r.choice([0, 0, 1, 2]))
        how = r.choice(["free", "free", "free", "assoc", "method", "method", "method", "holder"])
        me = None
        if how == "method": me = Par("self", "ref", r.choice([""] * 4 + named + ["'static"] * (r.random() < .3)), r.random() < .4, r.choice(["T", "D", "P"]))
        hl = None                # the lifetime of the holder whose method this is
        if how == "holder":
            hl = r.choice(["'h", "'_"]); me = Par("self", "holderself", r.choice(["", "", ""] + named), r.random() < .3, None)
        ps = [self.par(k, named + ([hl] if hl == "'h" else [])) for k in range(r.choice([0, 1, 1, 2, 2, 3] if me else [1, 1, 1, 2, 2, 3]))]
        all_ps = ([me] if me and me.shape == "ref" else []) + ps
        lt = [p for p in all_ps if p.shape]
        # What elided lifetimes of the output stand for.
        if me: src = me.life
        else: src = lt[0].life if len(lt) == 1 else None
        can_elide = me is not None or len(lt) == 1
        is_async = self.asyncs and r.random() < .3 and not any(p.of in ("D",) for p in all_ps) and how != "holder"
        outs = [("none", None, None)] * 2
        if not is_async:
            for p in lt:
                explicit = p.life or None
                if explicit: outs += [("named", p, explicit)]
                elif can_elide and (p is me or not me): outs += [("elided", p, "")] * 2
                if explicit and explicit != "'static" and can_elide and src == explicit and (p is me or not me): outs += [("elided named", p, "")]
            if how == "holder":
                outs += [("self copy", me, None)] * 2 + [("holder inner", me, hl)] * (hl == "'h") * 2 + [("holder elided", me, "")] * 2
            outs += [("static", None, "'static")]
        kind, p, ol = r.choice(outs)
        # Does the output have a lifetime without a name?
        anon = (kind == "elided") or (kind == "self copy" and hl == "'_") or (kind == "holder elided" and me.life == "") or (is_async and (any(x.shape and not x.life for x in all_ps)))
        borrow = kind not in ("none", "static")
        out, body, cc_src, ser = "i64", None, None, None
        l = (ol + " ") if ol else ""
        if kind == "none": body = " ^ ".join(["7"] + [x.i64() for x in all_ps if x.shape and x.shape != "str"] + [x.n for x in ps if not x.shape])
        elif kind == "static": out, body = r.choice([("&'static crate::T", "&crate::ST"), ("crate::H<'static>", "crate::H { r: &crate::ST.v }"), ("&'static i64", "&crate::ST.v"), ("Option<&'static i64>", "Some(&crate::ST.v)")])
        elif kind == "self copy": out, body = r.choice(["Self", f"crate::H<{hl}>"]) if hl == "'h" else "Self", "crate::H { r: self.r }"
        elif kind in ("holder inner", "holder elided"): out, body = r.choice([(f"&{l}i64", "self.r"), (f"crate::H<{ol or QUOTE}>", "crate::H { r: self.r }"), (f"Option<&{l}i64>", "Some(self.r)"), (f"(&{l}i64, u8)", "(self.r, 1)")])
        elif p.shape == "str": out, body = f"&{l}str", p.n
        else:
            c = [(f"&{l}i64", p.ref_i64())] * 2 + [(f"crate::H<{ol or QUOTE}>", f"crate::H {{ r: {p.ref_i64()} }}"), (f"Option<&{l}i64>", f"Some({p.ref_i64()})"), (f"(&{l}i64, u8)", f"({p.ref_i64()}, 1)"), (f"[&{l}i64; 2]", f"{{ let x = {p.ref_i64()}; [x, x] }}")]
            if p.shape == "ref": c += [(f"&{l}crate::{p.of}" if p.of in ADT else f"&{l}{p.of}", f"&*{p.n}")] * 3
            if p.shape == "ref" and p.mut: c += [(f"&{l}mut " + (f"crate::{p.of}" if p.of in ADT else p.of), p.n), (f"&{l}mut i64", f"&mut {p.n}.v" if p.of in ADT else p.n)] * 3
            if p.shape == "slice": c += [(f"&{l}[i64]", p.n)] * 3
            out, body = r.choice(c)
            if p.shape == "opt" or p.shape == "holder": pass
        self_rs = ""
        if me: self_rs = "&" + (me.life + " " if me.life else "") + ("mut " if me.mut else "") + "self"
        dec = ([self_rs] if me else []) + [f"{x.n}: {x.rs(r)}" for x in ps]
        used = [x for x in named if any(x == y.life for y in all_ps + ([me] if me else []))]
        if r.random() < .2: used = named
        wh = f" where {used[0]}: 'static" if used and borrow is False and r.random() < .1 else ""
        gen = f"<{', '.join(used)}>" if used else ""
        if not used: wh = ""
        sig = f"pub {'async ' if is_async else ''}fn {n}{gen}({', '.join(dec)}) -> {out}{wh} {{ {body} }}"
        if how == "free": rust, Q = sig, f"lib::{n}"
        elif how == "assoc": o = r.choice(["T", "D", "P"]); rust, Q = f"impl crate::{o} {{ {sig} }}", f"lib::{o}::{n}"
        elif how == "method": rust, Q = f"impl crate::{me.of} {{ {sig} }}", None
        else: rust, Q = (f"impl<'h> crate::H<'h> {{ {sig} }}" if hl == "'h" else f"impl crate::H<'_> {{ {sig} }}"), None
        # The C++ side.
        pre, args, probes = [], [], []
        modes = []
        for k, x in enumerate(ps):
            v = r.randint(-10**6, 10**6)
            if not x.shape: args.append(str(v)); modes.append("value"); x.val = v; continue
            obj = f"o{k}"
            x.val, x.obj = v, obj
            if x.shape == "ref":
                pre.append(f"lib::{x.of} {obj} = lib::{x.of}::mk({v});" if x.of in ADT else f"std::int64_t {obj} = {v};")
                m = "ptr" if x.life or anon else "ref"
                args.append(("&" if m == "ptr" else "") + obj); modes.append(m)
            elif x.shape == "str": pre.append(f'std::string {obj} = "s{v}";'); args.append(f"rs_std::StrRef::FromUtf8Unchecked({obj})"); modes.append("str")
            elif x.shape == "slice": pre.append(f"std::int64_t {obj}[2] = {{{v}, 1}};"); args.append(f"rs_std::SliceRef<const std::int64_t>({obj}, 2)"); modes.append("slice")
            elif x.shape == "holder": pre.append(f"std::int64_t {obj} = {v};"); args.append(f"lib::H::mk(&{obj})"); modes.append("holder")
            else: pre.append(f"std::int64_t {obj} = {v};"); args.append(f"std::optional<const std::int64_t*>(&{obj})"); modes.append("opt")
        if me:
            me.val = r.randint(-10**6, 10**6)
            if me.shape == "ref": pre.append(f"lib::{me.of} me = lib::{me.of}::mk({me.val});"); tmp = f"lib::{me.of}::mk(1)"
            else: pre.append(f"std::int64_t ho = {me.val}; lib::H me = lib::H::mk(&ho);"); tmp = "lib::H::mk(&ho)"
        call = lambda a, rec="me": (f"{rec}.{n}({', '.join(a)})" if me else f"{Q}({', '.join(a)})")
        setup = " ".join(pre)
        good = call(args)
        probes.append((f"{setup} (void){good};", True))
        for k, (x, m) in enumerate(zip(ps, modes)):
            if m not in ("ptr", "ref"): continue
            alt = list(args); alt[k] = x.obj if m == "ptr" else "&" + x.obj
            probes.append((f"{setup} (void){call(alt)};", False))
            alt[k] = f"lib::{x.of}::mk(1)" if x.of in ADT else "std::int64_t(1)"
            probes.append((f"{setup} (void){call(alt)};", m == "ref" and not x.mut))
            if not x.mut:
                alt[k] = (f"const_cast<const decltype({x.obj})*>(&{x.obj})" if m == "ptr" else f"const_cast<const decltype({x.obj})&>({x.obj})")
                probes.append((f"{setup} (void){call(alt)};", True))
            elif m == "ptr":
                alt[k] = f"const_cast<const decltype({x.obj})*>(&{x.obj})"; probes.append((f"{setup} (void){call(alt)};", False))
        if me:
            held = bool(me.life) or anon
            # `const &` accepts temporaries: a result which borrows from one is diagnosed (below) where C++ can tell.
            probes.append((f"{setup} (void){call(args, tmp)};", not (held and me.mut)))
            probes.append((f"{setup} (void){call(args, f'std::as_const(me)')};", not me.mut))
        # Results which would dangle are diagnosed where the result borrows from an elided lifetime.
        shape = "ref" if out.startswith("&") and not out.endswith(("str", "[i64]")) else "other"
        kinds = {how, "async" if is_async else kind}
        if not is_async and (borrow or kind == "static"):
            srcp = p if borrow else None
            hit = kind == "elided" and srcp.shape == "ref"
            if kind in ("elided", "static") or hit:
                if hit: probes.append((f"[]() -> decltype(auto) {{ {setup} return {good}; }}();", False, "stack memory"))
                elif kind == "static" and not anon: probes.append((f"[]() -> decltype(auto) {{ {setup} return {good}; }}();", True))
            if hit: kinds.add("dangling result diagnosed")
            if hit and p is me and not me.mut: probes.append((f"{setup} auto&& r = {call(args, tmp)}; (void)r;", False, "temporary"))
            if me and kind == "static" and not anon and not me.mut: probes.append((f"{setup} auto&& r = {call(args, tmp)}; (void)r;", True))
        cc = []
        if not is_async:
            if kind == "none":
                x = 7
                for y in all_ps:
                    if y.shape and y.shape != "str": x ^= y.val
                for y in ps:
                    if not y.shape: x ^= y.val
                cc.append(f'{{ {setup} tst::check_true("{n}", {good} == {x}ll); }}')
            else:
                if kind == "static": want = "at_(lib::st())"
                elif p.shape == "holderself": want = "at_(ho)"
                else: want = {"ref": f"at_({'me' if p is me else p.obj})", "str": f"reinterpret_cast<std::uintptr_t>({getattr(p, 'obj', '')}.data())", "slice": f"at_({getattr(p, 'obj', '')}[0])"}.get(p.shape, f"at_({getattr(p, 'obj', '')})")
                # The first field of T and P is at the start of it or not: look at the value instead.
                if p is not None and p.shape == "ref" and p.of in ADT and not out.replace("mut ", "").endswith("crate::" + p.of):
                    get = {"&": "r", "c": "*reinterpret_cast<const std::int64_t*>(at_(r))", "O": "**r", "(": "*std::get<0>(r)", "[": "*r[1]"}[out[0]]
                    cc.append(f'{{ {setup} auto&& r = {good}; tst::check_true("{n}", {get} == {p.val}ll); }}')
                elif kind == "static" and "T" not in out:
                    get = {"&": "r", "c": "*reinterpret_cast<const std::int64_t*>(at_(r))", "O": "**r"}[out[0]]
                    cc.append(f'{{ {setup} auto&& r = {good}; tst::check_true("{n}", {get} == 41); }}')
                else: cc.append(f'{{ {setup} auto&& r = {good}; tst::check_true("{n}", at_(r) == {want}); }}')
            if shape == "ref":
                t = out.split(" ")[-1].lstrip("&"); t = "std::int64_t" if t == "i64" else "lib::" + t.split("::")[1]
                cc.append(f"{{ {setup} static_assert(std::is_same_v<decltype({good}), {t}{'' if ' mut ' in ' ' + out.replace('&', ' ') else ' const'}&>); }}")
        for x, m in zip(ps, modes): kinds.add(f"{'&mut' if x.mut else '&'} as {m}" if m in ("ptr", "ref") else m)
        if me: kinds.add(("&mut self" if me.mut else "&self") + (", lvalues only" if held and me.mut else ", lifetime matters" if held else ""))
        self.items.append(TI(n, rust, ("m",) if how == "free" and False else (), deps=["Base"], cc="\n".join(cc), probes=probes, kinds=kinds))

    def conv(self):
        """From<&...>: a constructor which takes what it keeps as a pointer."""
        r = self.r; self.n += 1; n = f"K{self.n}"; v = r.randint(-99, 99); o = r.choice(["T", "P", "i64"]); t = f"crate::{o}" if o in ADT else o; e = "x.v" if o in ADT else "*x"
        mk = f"lib::{o} o = lib::{o}::mk({v});" if o in ADT else f"std::int64_t o = {v};"; tmp = f"lib::{o}::mk(1)" if o in ADT else "std::int64_t(1)"
        keep = r.choice(["named", "static", "no"])
        if keep == "named": rust = f"pub struct {n}<'a> {{ r: &'a {t} }}\nimpl<'a> From<&'a {t}> for {n}<'a> {{ fn from(x: &'a {t}) -> Self {{ {n} {{ r: x }} }} }}\nimpl {n}<'_> {{ pub fn get(self) -> i64 {{ let x = self.r; {e} }} }}"
        elif keep == "static": rust = f"pub struct {n} {{ r: &'static {t} }}\nimpl From<&'static {t}> for {n} {{ fn from(x: &'static {t}) -> Self {{ {n} {{ r: x }} }} }}\nimpl {n} {{ pub fn get(self) -> i64 {{ let x = self.r; {e} }} }}"
        else: rust = f"pub struct {n} {{ r: i64 }}\nimpl From<&{t}> for {n} {{ fn from(x: &{t}) -> Self {{ {n} {{ r: {e} }} }} }}\nimpl {n} {{ pub fn get(self) -> i64 {{ self.r }} }}"
        ptr = keep != "no"
        pr = [(f"{mk} lib::{n} k({'&' if ptr else ''}o);", True), (f"{mk} lib::{n} k({'' if ptr else '&'}o);", False), (f"lib::{n} k({tmp});", not ptr)]
        self.items.append(TI(n, rust, deps=["Base"], cc=f'{{ {mk} tst::check_true("{n}", lib::{n}({"&" if ptr else ""}o).get() == {v}); }}', probes=pr, kinds={"From, keeps: " + keep}))


def gen(seed):
    r = random.Random(seed); asyncs = r.random() < .4
    g = G(r, asyncs)
    for _ in range(24): g.fn()
    for _ in range(2): g.conv()
    for i in g.items[1:]: i.asyncs = asyncs
    return g.items


def render(items):
    fl = ["--default-features=async_fn_send_modulo_regions"] if any(getattr(i, "asyncs", False) for i in items) else []
    return topic.render(items, flags=fl, probe_flags=FLAGS, extra_inc=["#include <optional>", "#include <string>", "#include <utility>"])


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one generated function, method or From impl whose references have elided, named and static lifetimes, a driver which calls it, and C++ lines which have to be accepted or refused; non-trivial: at least one reference, distinct by Rust text"
    def classify(items, case, res):
        for i in items:
            if i.id == "Base": continue
            ctx.count(i.cc_main.count("tst::check") + len(i.probes))
            for k in i.kinds: ctx.cls(k)
            if "&" in i.rust or "'" in i.rust: ctx.note(i.rust); ctx.sample({"rust": i.rust, "lines": [p[:2] for p in i.probes][:4]}, 6)
    n = ctx.n(36, 1000)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], gen, render, classify)


if __name__ == "__main__":
    sys.exit(runner.main("C12", check, sweep.replay_case))
