"""Builds and runs C++ drivers of the support headers (with sanitizers), alone or with a Rust half.

A unit is {"files": {name: text}, "cxx": [sources], "rust": source or None, "flags": [..], "std": "c++20"}:
JSON-serialisable, therefore its own replay file.
"""
import os
import build, e2e
from runner import Violation, pmap

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
FLAGS = [f"-I{build.REPO}", "-Wno-nullability-completeness", "-Wno-invalid-offsetof", "-Wno-undefined-internal", "-g1"]


def bridge_rlib():
    src = os.path.join(build.REPO, "support/crubit_bridge_rust/src/bridge.rs")
    with build.lock("bridge"):
        d = os.path.join(build.BUILD, "bridge", build.sha(build.tree_sha(os.path.dirname(src), (".rs",)))[:16])
        if not os.path.exists(f"{d}/libbridge_rust.rlib"):
            os.makedirs(d + ".tmp", exist_ok=True)
            rc, out, err = build.run([build.rustc(), "--edition=2024", "-Cpanic=abort", "--crate-type=rlib", "--crate-name=bridge_rust", src,
                       "--out-dir", d + ".tmp", "--cap-lints=allow"], ok=False)
            if rc: raise build.BuildError(err[-3000:])
            os.makedirs(os.path.dirname(d), exist_ok=True)
            os.rename(d + ".tmp", d)
    return d


def run_unit(u, argv=(), timeout=120, env=None):
    """-> (stage, ok, text): ok None means that the check itself is at fault."""
    with e2e.Workdir() as d:
        for n, t in u["files"].items():
            os.makedirs(os.path.dirname(os.path.join(d, n)) or d, exist_ok=True)
            e2e.write(os.path.join(d, n), t)
        objs = []
        if u.get("rust"):
            b = bridge_rlib()
            rc, out, err = e2e.sh([build.rustc(), "--crate-type=staticlib", "--edition=2021", "-Cpanic=abort", "--crate-name=rs", u["rust"], "-o", f"{d}/librs.a",
                                   "--cap-lints=allow", "--extern", f"bridge_rust={b}/libbridge_rust.rlib", "-L", b, *u.get("rustflags", [])], d)
            if rc: return "rust", None, err[-3000:]
            objs.append("librs.a")
        cc = [s.replace("$REPO", build.REPO) for s in u["cxx"]]
        argv0 = ["clang++", "-std=" + u.get("std", "c++20"), *FLAGS, *u.get("san", SAN), *u.get("flags", []), "-I.", *cc, *objs, "-lpthread", "-ldl", "-lm",
                 *u.get("ldflags", []), "-fuse-ld=lld", "-o", "main"]
        rc, out, err = e2e.sh(argv0, d, timeout=500)
        if rc: return "cxx", False, err[:3500]
        ev = build.base_env()
        ev.update(ASAN_OPTIONS="detect_leaks=1:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=1")
        ev.update(env or {})
        rc, out, err = e2e.sh(["./main", *argv], d, ev, timeout=timeout)
        bad = [l for l in (out + "\n" + err).splitlines() if l.startswith("MISMATCH")]
        if bad: return "run", False, "\n".join(bad[:8])
        if rc or "DONE" not in out: return "run", False, f"the driver exited {rc}\n{out[-600:]}\n{err[:2500]}"
        return "done", True, out


def must(u, what, replay, **kw):
    stage, ok, text = run_unit(u, **kw)
    if ok is None: raise build.BuildError(f"{what}: {stage}: {text}")
    if not ok: raise Violation(f"{what}: stage `{stage}`: {text}", replay)
    return text
