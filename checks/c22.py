#!/usr/bin/env python3
"""C22: the error report lists exactly the items the header reports, each once, and asking for it changes nothing else."""
import json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, e2e, runner, sweep, topic
from gen_items import Gen
from runner import Violation, pmap
from topic import TI


def gen(seed):
    g = Gen(random.Random(seed))
    r = g.r
    for _ in range(20): g.unsup()
    for _ in range(14): g.sup(bad=3)
    # Operators and traits whose implementations get no bindings.
    for _ in range(4):
        n = g.name("Op"); mod = g.mod()
        path = "::".join(["lib", *mod, n])
        tr, fn, rest = r.choice([("std::ops::Add<Box<u8>>", "add", "type Output = u8; fn add(self, o: Box<u8>) -> u8 { 1 }"), ("std::fmt::Debug", "fmt", "fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }"),
                                 ("std::ops::Not", "not", "type Output = Box<u8>; fn not(self) -> Box<u8> { Box::new(1) }")])
        it = TI(n, f"pub struct {n} {{ pub a: u32 }}\nimpl {tr} for {n} {{ {rest} }}", mod, kinds={"operator without bindings"})
        it.bad = [("impl", path, fn)]
        g.items.append(it)
    r.shuffle(g.items)
    return g.items


def paths(items):
    """(supported, unsupported) paths; implementations of traits as ("impl", type, function)."""
    bad = [b for i in items for b in getattr(i, "bad", ())]
    good = []
    for i in items:
        if not any(k.startswith("unsupported") and "members" not in k for k in i.kinds):
            p = "::".join(["lib", *i.mod])
            good += [p + "::" + n for n in re.findall(r"^pub (?:fn|struct|enum|const|type|trait) (\w+)", i.rust, re.M)]
    return good, bad


def norm(p):
    """`<lib::S as Trait<..>>::f` -> ("impl", "lib::S", "f")."""
    m = re.match(r"<(\S+) as .*>::(\w+)$", p)
    return ("impl", m[1], m[2]) if m else p


def judge(case, header, report):
    try: rep = json.loads(report)
    except ValueError as e: return f"the report is not JSON: {e}"
    seen, wrong = {}, {}
    for e in rep:
        if set(e) - {"source_language", "name", "errors", "defining_target", "unique_name"}: return f"entry with other keys: {e}"
        if not e["name"].startswith("lib::"): return f"entry of another crate: {e}"
        n = e["name"][len("lib::"):]
        if n in seen: return f"`{n}` has several entries: {seen[n]} and {e}"
        seen[n] = e
        for x in e.get("errors", ()):
            if not x.get("fmt"): return f"error without text: {e}"
            if "full_error" in x and x["full_error"] == "": return f"empty full_error: {e}"
        if e.get("errors"): wrong[norm(n)] = e
    good, bad = case["paths"]
    bad = {tuple(b) if isinstance(b, list) else b for b in bad}
    if set(wrong) != bad: return f"the report has errors for {sorted(map(str, set(wrong) - bad))} which have none, and none for {sorted(map(str, bad - set(wrong)))}"
    names = {norm(n) for n in seen}
    for g in good:
        if g not in names: return f"`{g}` has bindings but no entry in the report"
    # The header gives the same items, with the same reasons.
    com = {}
    for m in re.finditer(r"^// Error generating bindings for [a-z ]+ `(.*?)` defined at [^:]*;l=\d+: (.*)$", header, re.M): com.setdefault(norm(m[1]), m[2])
    if set(com) != bad: return f"comments and report differ: {sorted(map(str, set(com) ^ bad))}"
    for n, e in wrong.items():
        x = e["errors"][0]
        reason = x.get("full_error", x["fmt"])
        squash = lambda s: re.sub(r"[\s/]+", "", s)
        if "full_error" not in x and re.search(r"\{\w*(:\?)?\}", x["fmt"]): return f"`{n}`: the only text has unfilled placeholders: {x}"
        if squash(reason.split("\n")[0])[:60] not in squash(com[n]): return f"`{n}`: the report says {reason!r}, the header says {com[n]!r}"
    return None


def run(base, case):
    with e2e.Workdir() as d:
        c = case["crates"][0]
        rc, out, err = e2e.compile_rust(base, d, c, [c])
        if rc: return e2e.res("rust_input", None, err[-2000:])
        got = []
        for rep in (True, False):
            c = dict(c, report=rep)
            rc, out, err = e2e.sh(e2e.tool_argv(base, d, c, [c]), d, build.tool_env())
            if rc: return e2e.res("generate", False, f"cc_bindings_from_rs exited {rc}:\n{err[-2000:]}")
            got.append((open(f"{d}/lib.h").read(), open(f"{d}/lib_cc_api.rs").read()))
        if got[0] != got[1]: return e2e.res("report", False, "asking for a report changes the bindings")
        bad = judge(case, got[0][0], open(f"{d}/lib.report.json").read())
        return e2e.res("report", not bad, bad or "")


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one item or member of a generated crate (supported and unsupported ones mixed in nested modules); non-trivial: an item with errors, distinct by its text"
    seeds = [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(ctx.n(52, 3000))]
    def one(seed):
        items = gen(seed)
        case = bare(items)
        return seed, items, case, run(base, case)
    for seed, items, case, r in pmap(one, seeds, ctx.jobs):
        if r["ok"] is None: raise build.BuildError(r["detail"])
        if not r["ok"]:
            # Halve the items for as long as it fails.
            cur = items
            k = max(1, len(cur) // 2)
            while k >= 1:
                i = 0
                while i < len(cur):
                    c2 = sweep.closure(cur[:i] + cur[i + k:], [x.id for x in cur[:i] + cur[i + k:]])
                    if len(c2) < len(cur) and all(d in {y.id for y in c2} for x in c2 for d in x.deps) and run(base, bare(c2))["ok"] is False: cur = c2
                    else: i += k
                k //= 2
            case = bare(cur); r2 = run(base, case)
            raise Violation(f"seed {seed}: stage `{r2['stage']}`: {r2['detail']}", {"property": ctx.prop, "case": case, "detail": r2["detail"][:3000]})
        for i in items:
            ctx.count(1 + len(getattr(i, "bad", ())))
            for k in i.kinds: ctx.cls(k)
            if getattr(i, "bad", ()): ctx.note(i.rust); ctx.sample(i.rust, 8)


def bare(items):
    case = topic.render(items, report=True, prelude=False)
    return {"crates": case["crates"], "paths": paths(items)}


def replay(ctx, rep):
    r = run(build.e2e_base(), rep["case"])
    if not r["ok"]: raise Violation(r["detail"], rep)


if __name__ == "__main__":
    sys.exit(runner.main("C22", check, replay))
