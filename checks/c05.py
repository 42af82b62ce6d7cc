#!/usr/bin/env python3
"""C05: what cannot get bindings is left out alone, with a comment that says where and why."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, sweep, topic
from gen_items import Gen


def gen(seed):
    g = Gen(random.Random(seed))
    for _ in range(16): g.unsup()
    for _ in range(12): g.sup(bad=3)
    g.r.shuffle(g.items)
    return g.items


def render(items):
    bad = sum(len(getattr(i, "bad", ())) for i in items)
    return topic.render(items, expect=lambda its: [("lib", r"Error generating bindings for", bad, bad, "the number of items reported as unsupported")])


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one item in a generated crate (nested modules, supported and unsupported items mixed); non-trivial: an unsupported item or a type with unsupported members, distinct by its text"
    def classify(items, case, res):
        for i in items:
            ctx.count(1 + len(i.probes) + len(i.expect))
            for k in i.kinds: ctx.cls(k)
            if getattr(i, "bad", ()): ctx.note(i.rust); ctx.sample(i.rust, 10)
    n = ctx.n(28, 800)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], gen, render, classify)


if __name__ == "__main__":
    sys.exit(runner.main("C05", check, sweep.replay_case))
