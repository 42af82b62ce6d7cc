"""Runs generated end-to-end cases in parallel; shrinks the first failure to a minimal one."""
import re, time
import build, e2e
from gen_core import order
from runner import Violation, pmap


def closure(items, ids):
    by = {i.id: i for i in items}
    out, todo = set(), list(ids)
    while todo:
        x = todo.pop()
        if x in out or x not in by: continue
        out.add(x)
        todo += by[x].deps
    return [i for i in items if i.id in out]


def run_one(base, case):
    with e2e.Workdir() as d:
        return e2e.run_case(base, case, d)


def run_verified(base, items, case, verify):
    r = run_one(base, case)
    if r["ok"] and verify:
        bad = verify(items, case, r)
        if bad: r = e2e.res("verify", False, bad, headers=r.get("headers"))
    return r


def shrink(ctx, base, items, render, res, budget=150, verify=None):
    """Smallest dependency closure of a single item (or pair) which still fails."""
    t0 = time.time()
    best, best_res = items, res
    ids = [i.id for i in items]
    named = [i for i in ids if re.search(r"\b%s\b" % re.escape(i), res["detail"])]
    cand = [[i] for i in named] + [[i] for i in reversed(ids) if i not in named]
    cands = [closure(items, c) for c in cand]
    cands = [c for c in cands if len(c) < len(items)]
    def attempt(c):
        if time.time() - t0 > budget: return None
        try: return run_verified(base, c, render(c), verify)
        except e2e.Timeout: return None
    found = []
    # In slices, so that a hit ends the search early.
    for k in range(0, len(cands), ctx.jobs):
        for c, r in zip(cands[k:k + ctx.jobs], pmap(attempt, cands[k:k + ctx.jobs], ctx.jobs)):
            if r is not None and r["ok"] is False: found.append((len(c), c, r))
        if found: break
    if found:
        _, best, best_res = min(found, key=lambda x: x[0])
    return best, best_res


def sweep(ctx, base, seeds, gen, render, classify=None, verify=None):
    """gen(seed) -> items; render(items) -> case. Counts one evaluation per item with a driver."""
    def one(seed):
        items = gen(seed)
        case = render(items)
        return seed, items, case, run_verified(base, items, case, verify)
    invalid = 0
    for seed, items, case, res in pmap(one, seeds, ctx.jobs):
        if res["ok"] is None:
            # Not Rust: the generator's fault, nothing was checked.
            invalid += 1
            if invalid * 20 > len(seeds): raise build.BuildError(f"seed {seed}: {res['detail']}")
            print(f"skipped: seed {seed} generated an invalid crate", file=__import__("sys").stderr)
            continue
        if not res["ok"]:
            small, sres = shrink(ctx, base, items, render, res, verify=verify)
            raise Violation(f"seed {seed}, {len(small)} of {len(items)} items left after shrinking ({', '.join(i.id for i in small)}): stage `{sres['stage']}`: {sres['detail']}",
                            {"property": ctx.prop, "seed": str(seed), "stage": sres["stage"], "detail": sres["detail"][:4000], "case": render(small)})
        if classify: classify(items, case, res)


def plain(ctx, base, cases):
    """Cases without items: each with a `what`."""
    def one(c): return c, run_one(base, c)
    for c, res in pmap(one, cases, ctx.jobs):
        if res["ok"] is None: raise build.BuildError(f"{c['what']}: {res['detail']}")
        if not res["ok"]: raise Violation(f"{c['what']}: stage `{res['stage']}`: {res['detail']}", {"property": ctx.prop, "stage": res["stage"], "detail": res["detail"][:4000], "case": c})
        ctx.count(); ctx.cls(c["what"]); ctx.note(c["crates"][0]["src"])


def replay_case(ctx, replay):
    base = build.e2e_base()
    res = run_one(base, replay["case"])
    if res["ok"] is False:
        raise Violation(f"stage `{res['stage']}`: {res['detail']}", replay)
