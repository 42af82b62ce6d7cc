"""A property decided by one C++ program (cxx/<name>.cc, maybe with cxx/<name>.rs as its Rust half)."""
import os, sys
import build, native, runner
from runner import Violation

CXX = os.path.join(build.VERIF, "cxx")


def unit(name, extra=(), flags=(), rs=None):
    rs = rs or name
    files = {f: open(os.path.join(CXX, f)).read() for f in ("pbt.h", f"{name}.cc")}
    rust = None
    if os.path.exists(os.path.join(CXX, f"{rs}.rs")):
        rust = f"{rs}.rs"
        files[rust] = open(os.path.join(CXX, rust)).read()
    return {"files": files, "cxx": [f"{name}.cc", *extra], "rust": rust, "flags": ["-O0", *flags], "ldflags": ["-lrapidcheck"],
            "rustflags": ["-O"]}


def run(ctx, u, what):
    env = {"VERIF_SEED": str(ctx.seed), "VERIF_TIER": ctx.tier}
    text = native.must(u, what, {"unit": u, "seed": ctx.seed, "tier": ctx.tier}, env=env, timeout=600 if ctx.tier == "quick" else 5000)
    for l in text.splitlines():
        if l.startswith("STAT "):
            e, d = map(int, l.split()[1:])
            ctx.evaluations += e
            ctx.nontrivial |= {(what, i) for i in range(min(d, 300000))}
        elif l.startswith("SAMPLE "): ctx.sample(l[7:])
        elif l.startswith("CLASS "):
            k, n = l[6:].rsplit(" ", 1)
            ctx.cls(k, int(n))


def main(prop, rule, *units):
    def check(ctx):
        ctx.rule = rule
        list(runner.pmap(lambda u: run(ctx, u, u["cxx"][0]), units, ctx.jobs))
    def replay(ctx, rep):
        ctx.seed, ctx.tier = rep["seed"], rep["tier"]
        run(ctx, rep["unit"], "replay")
    return runner.main(prop, check, replay)
