#!/usr/bin/env python3
"""C02: values cross the boundary unchanged, in both directions."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, sweep
from gen_core import gen_values, render


def check(ctx):
    base = build.e2e_base()
    ctx.rule = ("a case is one generated function (1-3 calls with generated argument and return values, compared on both sides of the "
                "boundary with text computed by the generator) or one generated type; non-trivial: a function with parameters or a result, "
                "distinct by its Rust text")
    def classify(items, case, res):
        for i in items:
            if not i.cc_main: continue
            ctx.count(max(1, i.cc_main.count(" call ") and len(re.findall(r"reached Rust", i.cc_main))))
            for k in i.kinds: ctx.cls(k)
            if i.desc == "fn":
                sig = i.rust.split(" { use ")[0]
                ctx.note(re.sub(r"fn_\d+|\bp\d+\b", "", sig))
                ctx.sample(sig, 8)
    n = ctx.n(56, 1200)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], lambda s: gen_values(s, 5, 14).items, render, classify)


if __name__ == "__main__":
    sys.exit(runner.main("C02", check, sweep.replay_case))
