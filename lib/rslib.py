"""Runs a proptest binary of rs/ (one per library property) and turns what it reports into evidence."""
import json, os, signal, subprocess, sys, tempfile

import build, runner
from runner import Violation

MANIFEST = os.path.join(build.VERIF, "rs/Cargo.toml")
TARGET = os.path.join(build.BUILD, "rs")


def build_bin(name):
    with build.lock("rs"):
        build.cargo_build(MANIFEST, TARGET, ["--bin", name])
    return os.path.join(TARGET, "debug", name)


def run_bin(ctx, name, timeout=780, env=None, only=None, seed=None):
    exe = build_bin(name)
    with tempfile.TemporaryDirectory(prefix="pbt.") as td:
        out = os.path.join(td, "out.json")
        e = build.tool_env()
        e.update(env or {})
        e.update(VERIF_SEED=str(ctx.seed if seed is None else seed), VERIF_TIER=ctx.tier, PBT_OUT=out, PBT_JOURNAL=os.path.join(td, "journal"), TMPDIR=td)
        if only: e["PBT_ONLY"] = only
        try:
            p = subprocess.run([exe], env=e, cwd=td, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout if ctx.tier == "quick" else 7200)
            rc, err = p.returncode, p.stderr.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as t:
            rc, err = None, (t.stderr or b"").decode("utf-8", "replace")
        try: journal = json.load(open(e["PBT_JOURNAL"]))
        except (OSError, ValueError): journal = {}
        res = json.load(open(out)) if os.path.exists(out) else None
    if rc == 3:
        raise RuntimeError(f"{name}: {err[-2000:]}")
    if res is None:
        how = "did not end in time (it hangs)" if rc is None else f"was ended by {signal.Signals(-rc).name}" if rc < 0 else f"exited {rc}"
        if rc is not None and rc >= 0:
            raise RuntimeError(f"{name} exited {rc}\n{err[-3000:]}")
        raise Violation(f"{name}: the library {how} in test {journal.get('test')!r}\n{err[-1500:]}",
                        {"bin": name, "test": journal.get("test"), "seed": e["VERIF_SEED"], "tier": ctx.tier, "why": how, "stderr": err[-2000:]})
    ctx.evaluations += res["evaluations"]
    ctx.nontrivial |= {(name, i) for i in range(res["distinct_nontrivial"])}
    ctx.rule = res["rule"]
    for s in res["samples"]: ctx.sample(s, 40)
    for k, v in res["classes"].items(): ctx.cls(k, v)
    ctx.extra.setdefault("per_test", {}).update(res["per_test"])
    v = res["violation"]
    if v:
        raise Violation(f"{name}, test {v['test']!r}: {v['why'][:3000]}\nminimal case: {v['case'][:3000]}",
                        {"bin": name, "test": v["test"], "seed": str(v["seed"]), "tier": ctx.tier, "why": v["why"], "case": v["case"]})


def check(prop, name, **kw):
    def replay(ctx, r):
        ctx.tier = r.get("tier", "quick")
        run_bin(ctx, r["bin"], only=r["test"], seed=r["seed"], **kw)
    return runner.main(prop, lambda ctx: run_bin(ctx, name, **kw), replay)


def prebuild():
    with build.lock("rs"):
        build.cargo_build(MANIFEST, TARGET, ["--bins"])
