#!/usr/bin/env python3
"""C14: rs_std::Option, Result, Vec and Tuple behave as containers of the Rust value."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, sweep
from gen_core import Gen, render
from containers import container_history, container_type


def gen(seed):
    r = random.Random(seed)
    g = Gen(r, cfg={"extra": .1, "nf": [1, 1, 2, 3]})
    for _ in range(4): (g.add_struct if r.random() < .7 else g.add_enum)()
    own = [t for t in g.types + g.types_noclone() if t.drops()]
    for _ in range(4): container_history(g, container_type(g, own), 24)
    return g.items


def check(ctx):
    base = build.e2e_base()
    ctx.rule = ("a case is one history of up to 24 operations on rs_std::Option/Result/Vec/Tuple fields of three holders (constructors, assignments, "
                "conversions from and to std types, accessors, mutation by either side), compared with a model after every step on both sides; "
                "non-trivial: a history with at least three kinds of operation, distinct by its operations and type")
    def classify(items, case, res):
        for i in items:
            if i.desc != "history": continue
            ctx.count(len(i.ops))
            for k in i.kinds: ctx.cls(k)
            kinds = {re.sub(r"\d+", "#", o) for o in i.ops}
            for k in kinds: ctx.cls("op:" + k)
            if len(kinds) >= 3:
                ctx.note(repr(i.ops) + i.rust)
                ctx.sample({"type": i.rust.split("pub c: ")[1].split(", pub hi")[0], "ops": i.ops}, 4)
    n = ctx.n(48, 900)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], gen, render, classify)


if __name__ == "__main__":
    sys.exit(runner.main("C14", check, sweep.replay_case))
