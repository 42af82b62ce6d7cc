#!/usr/bin/env python3
"""C20: the future which an async function returns to C++ is the Rust future: polled, woken, moved and destroyed."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, sweep
from gen_core import EXTRA, Gen, Item, render as core_render
from model import *

HEAD_RS = r'''
mod fut {
    use std::future::Future; use std::pin::Pin; use std::sync::Mutex; use std::task::{Context, Poll, Waker};
    pub static LOG: Mutex<String> = Mutex::new(String::new());
    pub static STORE: Mutex<Vec<Option<Waker>>> = Mutex::new(Vec::new());
    pub fn log(s: &str) { let mut l = LOG.lock().unwrap(); l.push_str(s); l.push(';'); }
    pub fn act(op: u8, w: &Waker) {
        match op {
            0 => {}
            1 => w.wake_by_ref(),
            2 => { let c = w.clone(); STORE.lock().unwrap().push(Some(c)); }
            3 => w.clone().wake(),
            4 => drop(w.clone()),
            5 => { let c = w.clone(); c.wake_by_ref(); c.wake_by_ref(); drop(c); }
            6 => { let c = w.clone(); std::thread::spawn(move || c.wake()).join().unwrap(); }
            7 => { let c = w.clone(); let d = c.clone(); drop(c); d.wake(); }
            _ => { let c = w.clone(); std::thread::spawn(move || { c.wake_by_ref(); drop(c) }).join().unwrap(); }
        }
    }
    /// Pending for as many polls as it has operations.
    pub struct Pend(pub u32, pub &'static [u8], pub usize);
    impl Future for Pend {
        type Output = u32;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
            if self.2 == self.1.len() { log(&format!("go{}", self.0)); return Poll::Ready(self.0); }
            log(&format!("p{}", self.0));
            let op = self.1[self.2]; self.2 += 1;
            act(op, cx.waker());
            Poll::Pending
        }
    }
    pub struct Join(pub Pend, pub Pend, pub bool, pub bool);
    impl Future for Join {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            let me = &mut *self;
            if !me.2 { me.2 = Pin::new(&mut me.0).poll(cx).is_ready(); }
            if !me.3 { me.3 = Pin::new(&mut me.1).poll(cx).is_ready(); }
            if me.2 && me.3 { Poll::Ready(()) } else { Poll::Pending }
        }
    }
    pub struct Guard(pub &'static str, pub crate::hid::Tok);
    pub fn guard(s: &'static str) -> Guard { Guard(s, crate::hid::Tok::new()) }
    impl Drop for Guard { fn drop(&mut self) { if !self.1.ok() { crate::hid::bad("guard destroyed twice") } log(&format!("d{}", self.0)); } }
}
/// An event which C++ saw.
pub fn fut_log(s: &str) { fut::log(s) }
pub fn fut_take() -> String { std::mem::take(&mut *fut::LOG.lock().unwrap()) }
fn fut_get(i: usize) -> std::task::Waker { fut::STORE.lock().unwrap()[i].take().unwrap() }
pub fn fut_fire(i: usize, how: u8) {
    let w = fut_get(i);
    match how {
        0 => w.wake(),
        1 => { w.wake_by_ref(); fut::STORE.lock().unwrap()[i] = Some(w); }
        2 => drop(w),
        3 => std::thread::spawn(move || w.wake()).join().unwrap(),
        4 => std::thread::spawn(move || drop(w)).join().unwrap(),
        5 => { let c = w.clone(); let mut s = fut::STORE.lock().unwrap(); s[i] = Some(w); s.push(Some(c)); }
        _ => std::thread::spawn(move || { w.wake_by_ref(); fut::STORE.lock().unwrap()[i] = Some(w); }).join().unwrap(),
    }
}
'''

HEAD_CC = r'''
#include "support/rs_std/dyn_erased_future.h"
#include <thread>
#include <cstring>
namespace fx {
inline void log(const std::string& s) { lib::fut_log(rs_std::StrRef::FromUtf8(s).value()); }
inline std::string take() { auto s = lib::fut_take(); auto v = std::string_view(s.as_str()); return std::string(v.data(), v.size()); }
inline int alive = 0;
class W final : public rs_std::Waker {
 public:
  W(std::string n, bool s) : name(n), share(s) { ++alive; }
  ~W() { --alive; }
  void Release() { if (--rc == 0) delete this; }
  std::string name; bool share; int rc = 1; int next = 0;
 private:
  void WakeByRef() override { log("ref " + name); }
  void WakeAndDestroy() override { log("wake " + name); Release(); }
  Waker* Clone() override { log("clone " + name); if (share) { ++rc; return this; } return new W(name + "'", false); }
  void Destroy() override { log("drop " + name); Release(); }
};
template <class F> struct Out;
template <class T> struct Out<crubit::DynErasedFuture<T>> { using type = T; };
template <class F> struct Slot {
  using T = typename Out<F>::type;
  alignas(F) unsigned char mem[sizeof(F)]; bool full = false;
  F& f() { return *reinterpret_cast<F*>(mem); }
  template <class M> void make(M m) { new (mem) F(m()); full = true; }
  void from(Slot& o) { new (mem) F(std::move(o.f())); full = true; }
  void drop() { f().~F(); full = false; }
  void poll(const char* what, W* w, bool thread, const char* log, const char* value) {
    bool r = false;
    auto go = [&](auto* out) { if (thread) std::thread([&] { r = f().Poll(w, out); }).join(); else r = f().Poll(w, out); };
    if constexpr (std::is_void_v<T>) {
      go(static_cast<void*>(nullptr));
      tst::check(what, fx::take(), log);
      tst::check(what, r ? "ready" : "pending", value ? "ready" : "pending");
    } else {
      // Room before and behind the value, which nobody may write to.
      struct { unsigned char a[64]; alignas(T) unsigned char b[sizeof(T)]; unsigned char c[64]; } out;
      std::memset(&out, 0xab, sizeof(out));
      go(reinterpret_cast<T*>(out.b));
      tst::check(what, fx::take(), log);
      tst::check(what, r ? "ready" : "pending", value ? "ready" : "pending");
      bool same = true;
      for (unsigned char x : out.a) same &= x == 0xab;
      for (unsigned char x : out.c) same &= x == 0xab;
      if (!value) for (unsigned char x : out.b) same &= x == 0xab;
      tst::check_true(what, same);
      if (r && value) { T* v = reinterpret_cast<T*>(out.b); tst::check(what, tst::ser(*v), value); v->~T(); }
    }
  }
};
}  // namespace fx
'''


def cstr(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


class Wk:
    """A waker as C++ sees it: name, and the object it counts on."""
    def __init__(self, name, share, obj): self.name, self.share, self.obj = name, share, obj


class World:
    def __init__(self): self.log, self.store = [], []
    def take(self): o = "".join(x + ";" for x in self.log); self.log = []; return o
    def clone(self, w):
        self.log.append("clone " + w.name)
        return w if w.share else Wk(w.name + "'", False, None)
    def wake(self, w): self.log.append("wake " + w.name)
    def ref(self, w): self.log.append("ref " + w.name)
    def drop(self, w): self.log.append("drop " + w.name)
    def act(self, op, w):
        if op == 0: return
        if op == 1: self.ref(w); return
        c = self.clone(w)
        if op == 2: self.store.append(c)
        elif op in (3, 6): self.wake(c)
        elif op == 4: self.drop(c)
        elif op == 5: self.ref(c); self.ref(c); self.drop(c)
        elif op == 7: d = self.clone(c); self.drop(c); self.wake(d)
        else: self.ref(c); self.drop(c)
    def fire(self, i, how):
        w = self.store[i]
        if how in (0, 3): self.store[i] = None; self.wake(w)
        elif how in (2, 4): self.store[i] = None; self.drop(w)
        elif how == 5: self.store.append(self.clone(w))
        else: self.ref(w)


class Fn:
    """An async function's body: (kind, ...) statements. `run` is its meaning: yields where it is pending."""
    def __init__(self, name, body): self.name, self.body = name, body

    def rust(self, ind=""):
        o = []
        for s in self.body:
            if s[0] == "log": o.append(f"crate::fut::log(\"{s[1]}\");")
            elif s[0] == "pend": o.append(f"let _: u32 = crate::fut::Pend({s[1]}, &{list(s[2])}, 0).await;")
            elif s[0] == "guard": o.append(f"let g{s[1]} = crate::fut::guard(\"{s[1]}\");")
            elif s[0] == "drop": o.append(f"drop(g{s[1]});")
            elif s[0] == "join": o.append(f"crate::fut::Join(crate::fut::Pend({s[1]}, &{list(s[2])}, 0), crate::fut::Pend({s[3]}, &{list(s[4])}, 0), false, false).await;")
            elif s[0] == "call": o.append(f"{s[1].name}().await;")
            elif s[0] == "boxed": o.append(f"{{ let b: std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>> = Box::pin({s[1].name}()); b.await; }}")
            elif s[0] == "block": o.append("{ " + Fn(None, s[1]).rust() + " }")
            elif s[0] == "loop": o.append(f"for _ in 0..{s[1]} {{ " + Fn(None, s[2]).rust() + " }")
        return " ".join(o)

    def run(self, world, cur, guards):
        """cur: list with the waker of the current poll; guards: stack of what is alive."""
        base = len(guards)
        for s in self.body:
            if s[0] == "log": world.log.append(s[1])
            elif s[0] == "pend":
                for op in s[2]: world.log.append(f"p{s[1]}"); world.act(op, cur[0]); yield
                world.log.append(f"go{s[1]}")
            elif s[0] == "guard": guards.append(s[1])
            elif s[0] == "drop": guards.remove(s[1]); world.log.append(f"d{s[1]}")
            elif s[0] == "join":
                a, b = list(s[2]), list(s[4]); da = db = False
                while True:
                    if not da:
                        if a: world.log.append(f"p{s[1]}"); world.act(a.pop(0), cur[0])
                        else: da = True; world.log.append(f"go{s[1]}")
                    if not db:
                        if b: world.log.append(f"p{s[3]}"); world.act(b.pop(0), cur[0])
                        else: db = True; world.log.append(f"go{s[3]}")
                    if da and db: break
                    yield
            elif s[0] in ("call", "boxed"): yield from s[1].run(world, cur, guards)
            elif s[0] == "block": yield from Fn(None, s[1]).run(world, cur, guards)
            elif s[0] == "loop":
                for _ in range(s[1]): yield from Fn(None, s[2]).run(world, cur, guards)
        while len(guards) > base: world.log.append(f"d{guards.pop()}")


class Live:
    """A future: not started, suspended, finished or empty (moved from)."""
    def __init__(self, fn, empty=False): self.fn, self.guards, self.cur, self.gen, self.done, self.empty = fn, [], [None], None, False, empty
    def poll(self, world, w):
        if self.empty: return False
        self.cur[0] = w
        if self.gen is None: self.gen = self.fn.run(world, self.cur, self.guards)
        try: next(self.gen); return False
        except StopIteration: self.done = True; return True
    def drop(self, world):
        while self.guards: world.log.append(f"d{self.guards.pop()}")


OPS = [0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8]


class A:
    def __init__(self, r, g): self.r, self.g, self.k, self.helpers = r, g, 0, []

    def body(self, depth, inner=False):
        r = self.r; out = []; mine = []
        for _ in range(r.choice([0, 1, 2, 3, 4] if depth else [1, 2, 2, 3, 4, 6]) if not inner else r.choice([1, 2])):
            k = r.choices(["log", "pend", "guard", "drop", "join", "call", "block", "loop"], [3, 6, 4, 2, 2, 2 if self.helpers else 0, 1 if depth < 2 else 0, 1 if depth < 2 else 0])[0]
            self.k += 1; n = self.k
            if k == "log": out.append(("log", f"l{n}"))
            elif k == "pend": out.append(("pend", n, [r.choice(OPS) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]))
            elif k == "guard": out.append(("guard", n)); mine.append(n)
            elif k == "drop":
                if mine: out.append(("drop", mine.pop(r.randrange(len(mine)))))
            elif k == "join": self.k += 1; out.append(("join", n, [r.choice(OPS) for _ in range(r.choice([0, 1, 2]))], self.k, [r.choice(OPS) for _ in range(r.choice([0, 1, 2]))]))
            elif k == "call": out.append((r.choice(["call", "boxed"]), r.choice(self.helpers)))
            elif k == "block": out.append(("block", self.body(depth + 1, True)))
            elif k == "loop": out.append(("loop", r.choice([0, 1, 2, 3]), self.body(depth + 1, True)))
        return out


# Fields without a C++ counterpart of which a future may hold a reference and still be Send.
SEND_EXTRA = [EXTRA[i] for i in (0, 1, 2, 3, 4, 5, 7, 8, 11)]


def outputs(g, r, deps):
    """(Rust type, Rust value, serialized, clone of a C++ type is needed)."""
    k = r.choices(["unit", "prim", "named", "str", "vec", "res", "arr", "tup", "staticstr", "fnptr", "staticref", "staticslice"], [2, 4, 6, 3, 3, 3, 2, 4, 2, 1, 2, 2])[0]
    if k == "unit": return "()", "()", "", k
    if k == "prim": t = g.prim()
    elif k == "named": t = r.choice(g.types) if g.types else g.prim()
    elif k == "str": t = Str()
    elif k == "vec": t = VecT(g.val_ty(1, "spec", ("clone",)), g.ns)
    elif k == "res": t = Res(g.val_ty(1, "spec"), g.val_ty(1, "spec"))
    elif k == "arr": t = Arr(g.prim(), r.choice([1, 2, 3, 5]))
    elif k == "tup": t = Tup([g.val_ty(r.choice([0, 0, 1]), "spec") for _ in range(r.choice([1, 2, 3, 4]))])
    elif k == "staticstr": v = gen_text(r); return "&'static str", rs_str(v), hexs(v.encode()), k
    elif k == "staticref": t = g.prim(); v = t.val(r); return f"&'static {t.rs()}", f"Box::leak(Box::new({t.rsx(v)}))", "p:" + t.ser(v), k
    elif k == "staticslice": t = g.prim(); v = [t.val(r) for _ in range(r.choice([0, 1, 3]))]; return f"&'static [{t.rs()}]", f"Vec::<{t.rs()}>::from([{', '.join(t.rsx(x) for x in v)}]).leak()", "[" + ",".join(t.ser(x) for x in v) + "]", k
    else: return "extern \"C\" fn(i32) -> i32", "crate::fut_fn", "fn", k
    if not g.ok_ty(t, "spec"): return outputs(g, r, deps)
    v = t.val(r); deps |= t.deps()
    return t.rs(), t.rsx(v), t.ser(v), k


def add(g, r, a):
    name = g.fresh("af"); deps, kinds = set(), set()
    fn = Fn(name, a.body(0))
    rt, rv, ser, k = outputs(g, r, deps); kinds.add("output:" + k)
    # Arguments: looked at when the function starts, and again at its end.
    params, args, pre, look, late = [], [], [], [], []
    for i in range(r.choice([0, 0, 1, 2, 3])):
        t, how = g.val_ty(r.choice([0, 0, 1]), "top"), r.choice(["val", "val", "ref", "slice", "str", "mut"]); v = t.val(r)
        if how == "ref":
            t = g.val_ty(0, "spec"); v = t.val(r); params.append(f"a{i}: &{t.rs()}"); args.append(f"&x{i}"); s = t.ser(v); pre.append((t, f"{t.cc('spec')} x{i} = ", v, "spec"))
        elif how == "mut":
            t = g.prim(); v = t.val(r); params.append(f"a{i}: &mut {t.rs()}"); args.append(f"&x{i}"); s = t.ser(v); pre.append((t, f"{t.cc('spec')} x{i} = ", v, "spec"))
        elif how == "slice":
            t = g.prim(); v = [t.val(r) for _ in range(r.choice([0, 1, 3]))]; params.append(f"a{i}: &[{t.rs()}]"); s = "[" + ",".join(t.ser(x) for x in v) + "]"
            pre.append((None, f"static const std::array<{t.cc('spec')}, {len(v)}> x{i}{{{', '.join(t.ccx(x, 'spec') for x in v)}}};", None, None)); args.append(f"rs_std::SliceRef<const {t.cc('spec')}>(x{i})")
        elif how == "str": v = gen_text(r); params.append(f"a{i}: &str"); args.append(cc_strref(v)); s = hexs(v.encode())
        else: params.append(f"a{i}: {t.rs()}"); args.append((t, v)); s = t.ser(v)
        deps |= t.deps(); kinds.add("arg:" + how)
        c = f"crate::hid::chk(\"{name} argument {i}\", a{i}.ser(), {cstr(s)});"
        look.append(c)
        if r.random() < .7: late.append(c)
        elif how == "val": late.append(f"drop(a{i});")
    lts = ""
    method = None
    body = f"{' '.join(look)} {fn.rust()} {' '.join(late)} {rv}"
    deps |= {"h:" + h.name for h in used(fn.body)}
    rust = f"pub async fn {name}({', '.join(params)}) -> {rt} {{ {body} }}".replace(" -> ()", "" if r.random() < .7 else " -> ()")
    if r.random() < .25:
        m = g.fresh("M"); kinds.add("method")
        recv, obj = r.choice([("&self", 0), ("&mut self", 0), ("self", 1), ("", 2)])
        me = r.randint(0, 999); alive = "Tok"
        rust = f"pub struct {m} {{ pub v: u32, t: crate::hid::Tok }}\nimpl Default for {m} {{ fn default() -> Self {{ {m} {{ v: {me}, t: Default::default() }} }} }}\nimpl {m} {{ pub async fn {name}({', '.join(([recv] if recv else []) + params)}) -> {rt} {{ " + (f"crate::hid::chk(\"self of {name}\", self.v.ser(), \"{me}\"); if !self.t.ok() {{ crate::hid::bad(\"self of {name}\") }} " if recv else "") + f"{body} }} }}"
        call = {"&self": f"self_.{name}", "&mut self": f"self_.{name}", "self": f"lib::{m}().{name}", "": f"lib::{m}::{name}"}[recv]
        selfpre = f"lib::{m} self_;" if "&" in recv else ""
        kinds.add("self:" + (recv or "none"))
    else: call, selfpre = f"lib::{name}", ""
    w = World(); cc = []
    wakers = [Wk(f"w{i}", r.random() < .5, None) for i in range(r.choice([1, 2, 3]))]
    hist = []
    # C++ expressions of values are made once per call.
    def callx():
        return f"{call}(" + ", ".join(x if isinstance(x, str) else g.ccx(x[0], x[1], "top", deps) for x in args) + ")"
    for t, lhs, v, c in pre: cc.append(lhs if t is None else f"{lhs}{g.ccx(t, v, c, deps)};")
    if selfpre: cc.append(selfpre)
    cc.append(f"auto make = [&] {{ return {callx()}; }};")
    cc.append("using F = decltype(make());")
    NS = 4
    cc.append(f"fx::Slot<F> s[{NS}];")
    for x in wakers: cc.append(f"auto* {x.name} = new fx::W(\"{x.name}\", {'true' if x.share else 'false'});")
    slots = [None] * NS; step = 0
    # &mut arguments: one future at a time.
    def one(op):
        nonlocal step
        step += 1; what = f"{name} step {step} {op}"
        hist.append(op)
        def expect(): cc.append(f"tst::check(\"{what}\", fx::take(), {cstr(w.take())});")
        full = [i for i in range(NS) if slots[i]]; free = [i for i in range(NS) if not slots[i]]
        if op == "make" and free: i = r.choice(free); slots[i] = Live(fn); cc.append(f"s[{i}].make(make);"); expect()
        elif op == "move" and full and free:
            i, j = r.choice(full), r.choice(free)
            slots[j] = slots[i]; slots[i] = Live(fn, True); cc.append(f"s[{j}].from(s[{i}]);"); expect()
        elif op == "drop" and full: i = r.choice(full); slots[i].drop(w); slots[i] = None; cc.append(f"s[{i}].drop();"); expect()
        elif op == "poll":
            c = [i for i in full if not slots[i].done]
            if not c: return
            i, x = r.choice(c), r.choice(wakers)
            ready = slots[i].poll(w, x)
            cc.append(f"s[{i}].poll(\"{what}\", {x.name}, {'true' if r.random() < .15 else 'false'}, {cstr(w.take())}, {cstr(ser) if ready else 'nullptr'});")
        elif op == "fire":
            c = [i for i, x in enumerate(w.store) if x]
            if not c: return
            i, how = r.choice(c), r.randrange(7)
            w.fire(i, how); cc.append(f"lib::fut_fire(stored0 + {i}, {how});"); expect()
    cc.insert(0, "(void)fx::take();")
    for _ in range(r.choice([6, 12, 24, 40])): one(r.choices(["make", "move", "drop", "poll", "fire"], [3, 1, 1, 9, 3])[0])
    # What is left, to the end: some polled until they are ready, all destroyed.
    for i in range(NS):
        if slots[i] and not slots[i].done and not slots[i].empty and r.random() < .6:
            x = wakers[0]
            for _ in range(60):
                ready = slots[i].poll(w, x); step += 1
                cc.append(f"s[{i}].poll(\"{name} step {step} poll to the end\", {x.name}, false, {cstr(w.take())}, {cstr(ser) if ready else 'nullptr'});")
                if ready: break
    for i in range(NS):
        if slots[i]: slots[i].drop(w); cc.append(f"s[{i}].drop();"); cc.append(f"tst::check(\"{name} end\", fx::take(), {cstr(w.take())});")
    for i, x in enumerate(w.store):
        if x: how = r.choice([0, 2, 3, 4]); w.fire(i, how); cc.append(f"lib::fut_fire(stored0 + {i}, {how});"); cc.append(f"tst::check(\"{name} end\", fx::take(), {cstr(w.take())});")
    for x in wakers: cc.append(f"{x.name}->Release();")
    cc.append(f"tst::check_true(\"{name}: wakers left\", fx::alive == 0);")
    cc.insert(1, "std::size_t stored0 = lib::fut_stored();")
    g.items.append(Item(name, deps, rust, "", "\n".join("  " + x for x in cc), kinds, "async"))
    g.items[-1].hist = hist


def used(body):
    for s in body:
        if s[0] in ("call", "boxed"): yield s[1]
        elif s[0] == "block": yield from used(s[1])
        elif s[0] == "loop": yield from used(s[2])


def gen(seed):
    r = random.Random(f"{seed}:c20")
    g = Gen(r, cfg={"extra": .2, "nf": [1, 1, 2, 3], "extras": SEND_EXTRA})
    for _ in range(r.choice([1, 2, 3])): (g.add_struct if r.random() < .7 else g.add_enum)()
    a = A(r, g)
    for _ in range(r.choice([0, 1, 2, 3])):
        n = g.fresh("helper"); f = Fn(n, a.body(1))
        g.items.append(Item("h:" + n, {"h:" + h.name for h in used(f.body)}, f"async fn {n}() {{ {f.rust()} }}", "", "", {"helper"}, "helper"))
        a.helpers.append(f)
    for _ in range(r.choice([3, 5, 7])): add(g, r, a)
    return g.items


def render(items):
    case = core_render(items)
    c = case["crates"][0]
    c["src"] = c["src"].replace("/// Number of live tracked values.", HEAD_RS + "pub fn fut_stored() -> usize { fut::STORE.lock().unwrap().len() }\nextern \"C\" fn fut_fn(x: i32) -> i32 { x }\n/// Number of live tracked values.", 1)
    c["flags"] = ["--default-features=async_fn_send_modulo_regions"]
    c["edition"] = "2021"
    case["main"] = case["main"].replace('}  // namespace tst\n', '}  // namespace tst\n' + HEAD_CC, 1)
    return case


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one history of up to 40 operations (make, poll with one of several wakers, move, destroy, use of the wakers which Rust kept, from the same or another thread) on futures of one async function; non-trivial: at least one pending poll before the future is ready or destroyed, distinct by Rust text and operations"
    def classify(items, case, res):
        for i in items:
            if i.desc != "async": continue
            ctx.count(len(i.hist))
            for k in i.kinds: ctx.cls(k)
            if "pending" in i.cc_main or "nullptr" in i.cc_main: ctx.note(i.rust + repr(i.hist)); ctx.sample({"rust": i.rust, "operations": i.hist}, 4)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(ctx.n(40, 900))], gen, render, classify)


if __name__ == "__main__":
    sys.exit(runner.main("C20", check, sweep.replay_case))
