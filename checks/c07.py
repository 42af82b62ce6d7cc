#!/usr/bin/env python3
"""C07: the generated files are a function of the crate and the options."""
import importlib, os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, e2e, gen_core, runner, topic
from gen_items import Gen as Items
from runner import Violation, pmap
import c06, c23

# Things that depend on many other things: the orders of a hash map, if it had any, would show.
def hub(r, p):
    out, n = [], r.randint(3, 9)
    for i in range(n):
        out.append(f"#[derive(Clone, Default)] pub struct {p}S{i} {{ pub v: Vec<u{r.choice([8, 16, 32, 64])}>, pub o: Option<u8>, pub r: u32 }}")
    for i in range(r.randint(2, 5)):
        out.append(f"pub trait {p}T{i} {{ fn t{i}(&self) -> u32; fn d{i}(&self, x: Option<u{r.choice([8, 16])}>) -> u32 {{ 1 }} }}")
        for j in r.sample(range(n), r.randint(1, n)): out.append(f"impl {p}T{i} for {p}S{j} {{ fn t{i}(&self) -> u32 {{ {j} }} }}")
    for i in range(n):
        js = r.sample([j for j in range(n) if j != i], r.randint(0, min(3, n - 1)))
        for j in js:
            out.append(r.choice([f"impl From<{p}S{j}> for {p}S{i} {{ fn from(x: {p}S{j}) -> Self {{ {p}S{i}::default() }} }}", f"impl PartialEq<{p}S{j}> for {p}S{i} {{ fn eq(&self, o: &{p}S{j}) -> bool {{ true }} }}",
                                 f"impl std::ops::AddAssign<&{p}S{j}> for {p}S{i} {{ fn add_assign(&mut self, o: &{p}S{j}) {{}} }}"]))
    ts = ["Option<u8>", "Vec<u16>", "Vec<String>", "String", "(u8, i64)", "Result<u8, u16>", "Option<&'a u8>", "&'a str", "&'a [u32]", "std::time::Duration", "char", "[u8; 3]", "Option<(u8, u16)>"] + [f"{p}S{i}" for i in range(n)] + [f"Option<{p}S{i}>" for i in range(n)] + [f"Vec<{p}S{i}>" for i in range(n)]
    for i in range(r.randint(3, 8)):
        out.append(f"pub fn {p}f{i}<'a>({', '.join(f'a{k}: {t}' for k, t in enumerate(r.sample(ts, r.randint(1, 7))))}) {{}}")
    for i in range(r.randint(0, 4)):
        a, b = r.sample(range(n), 2)
        out.append(f"pub mod {p}u{i} {{ pub use super::{p}S{a} as X; pub use super::{p}S{b}; pub type Al = super::{p}S{a}; pub use super::{p}f0 as ff; }}")
    r.shuffle(out)
    return "\n".join(out)


def source(seed, k=None):
    r = random.Random(seed)
    k = r.choice(["hub", "hub", "items", "c06", "c23", "core"]) if k is None else k
    if k == "hub": return "#![allow(warnings)]\n" + hub(r, ""), k
    if k == "items":
        g = Items(r)
        for _ in range(12): g.unsup()
        for _ in range(20): g.sup(bad=2)
        case = topic.render(g.items)
    elif k == "c06": case = c06.render(c06.gen(seed))
    elif k == "c23": case = c23.render(c23.gen(seed))
    else: case = gen_core.render(gen_core.gen_values(seed, 6, 12).items)
    return case["crates"][0]["src"], k


VARIANTS = ["again", "again", "cwd", "order", "report", "env", "out", "unused"]


def run(base, case):
    env = build.tool_env()
    with e2e.Workdir() as d:
        crates = case["crates"]
        for c in crates:
            rc, out, err = e2e.compile_rust(base, d, c, crates)
            if rc: return e2e.res("rust_input", None, err[-2000:])
        for c in crates:
            n = c["name"]
            first = None
            for v in ["first"] + case["variants"]:
                w = f"{d}/o_{v}"; os.makedirs(w, exist_ok=True)
                argv = e2e.tool_argv(base, d, c, crates)
                argv = [a.replace(f"{d}/{n}.h", f"{w}/{n}.h").replace(f"{d}/{n}_cc_api.rs", f"{w}/{n}_cc_api.rs") for a in argv]
                cwd, e = d, env
                if v == "cwd": cwd = w
                if v == "out": argv = [a.replace(w, w + "/sub/dir.x").replace(f"/{n}.h", f"/other_{n}.hpp") if "_out" not in a and w in a else a for a in argv]; os.makedirs(w + "/sub/dir.x", exist_ok=True)
                if v == "env": e = dict(env, HOME="/nonexistent", TMPDIR=w, LANG="tr_TR.UTF-8", LC_ALL="C.UTF-8", RUST_BACKTRACE="full", COLUMNS="20", TZ="Asia/Tokyo", ZZZ="x" * 3000)
                if v == "report": argv = argv + ["--error-report-out", f"{w}/r.json"]
                if v == "unused": argv = argv + ["--crate-header=nosuchcrate=no/such.h", "--crate-feature=nosuchcrate=experimental"]
                if v == "order":
                    # Options with a value move as pairs.
                    pairs, i, rest = [], 1, argv[:1]
                    while i < len(argv):
                        if argv[i].startswith("-") and "=" not in argv[i] and i + 1 < len(argv) and not argv[i + 1].startswith("-"): pairs.append(argv[i:i + 2]); i += 2
                        else: pairs.append(argv[i:i + 1]); i += 1
                    random.Random(case["seed"]).shuffle(pairs)
                    argv = rest + [x for p in pairs for x in p]
                rc, out, err = e2e.sh(argv, cwd, e)
                if rc: return e2e.res("generate", False, f"variant `{v}`: cc_bindings_from_rs exited {rc} on crate `{n}`:\n{err[-2000:]}")
                hs = [f for dp, _, fs in os.walk(w) for f in (os.path.join(dp, x) for x in fs) if f.endswith((".h", ".hpp", ".rs"))]
                got = {("rs" if f.endswith(".rs") else "h"): open(f).read() for f in hs}
                if first is None: first = got
                for k in ("h", "rs"):
                    if got.get(k) != first[k]:
                        a, b = first[k].split("\n"), (got.get(k) or "").split("\n")
                        diff = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                        return e2e.res("differ", False, f"variant `{v}` of crate `{n}`: {k} output differs at line {diff + 1}:\n- {a[diff:diff + 1]}\n+ {b[diff:diff + 1]}")
                c.setdefault("size", len(first["h"]))
            # The header the next crate includes.
        return e2e.res("done", True)


def gen(seed):
    r = random.Random(seed)
    src, k = source(seed)
    crates = [{"name": "lib", "src": src, "deps": [], "flags": []}]
    if k == "hub" and r.random() < .5:
        crates.append({"name": "up", "deps": ["lib"], "flags": [], "src": "#![allow(warnings)]\npub use lib::*;\n" + hub(r, "Z") + "\n" + "\n".join(f"pub fn use{i}(a: lib::S{i}, b: &lib::S{j}, c: Vec<lib::S{j}>) {{}}" for i, j in [(0, 1), (1, 2), (2, 0)])
                       + "\npub trait UpT { fn up(&self) -> u8; }\n" + "\n".join(f"impl UpT for lib::S{i} {{ fn up(&self) -> u8 {{ {i} }} }}" for i in range(3))})
    return {"crates": crates, "seed": str(seed), "variants": r.sample(VARIANTS, 3) + ["again2"], "kind": k + (" (two crates)" if len(crates) > 1 else "")}


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one repeated run of the tool on one crate (same options; or another order of options, directory, environment, output place, or options that do not concern the crate); non-trivial: all, distinct by crate and variant"
    def one(seed):
        case = gen(seed)
        return seed, case, run(base, case)
    invalid = 0
    seeds = [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(ctx.n(26, 2500))]
    for seed, case, r in pmap(one, seeds, ctx.jobs):
        if r["ok"] is None:
            invalid += 1
            if invalid * 20 > len(seeds): raise build.BuildError(r["detail"])
            continue
        if not r["ok"]: raise Violation(f"seed {seed} ({case['kind']}): {r['detail']}", {"property": ctx.prop, "case": case, "detail": r["detail"][:3000]})
        ctx.cls(case["kind"])
        for v in case["variants"]:
            ctx.count(2 * len(case["crates"])); ctx.cls("variant: " + v); ctx.note(f"{v} {case['seed']}")
            ctx.sample({"variant": v, "kind": case["kind"], "items": sum(c["src"].count("pub ") for c in case["crates"])}, 10)


def replay(ctx, rep):
    r = run(build.e2e_base(), rep["case"])
    if not r["ok"]: raise Violation(r["detail"], rep)


if __name__ == "__main__":
    sys.exit(runner.main("C07", check, replay))
