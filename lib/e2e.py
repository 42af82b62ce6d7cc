"""Runs one end-to-end case: Rust crate(s) -> cc_bindings_from_rs -> compile both halves -> run.

A case is a dict (JSON-serialisable, and therefore its own replay file):
  crates: [{name, src, flags:[..tool flags..], edition}]   in dependency order
  tus:    further C++ translation units, compiled without precompiled headers and linked with main
  main:   C++ source of the driver (its checks print `MISMATCH ...` lines), or None
  expect_abort: optional substring that the driver's death must be preceded by
The result is {stage, ok, detail, out, ...}; `stage` says how far it got.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile
import build

RUN_TIMEOUT = 60
CXX_TIMEOUT = 300


class Timeout(Exception):
    pass


def panic(base): return base.get("panic", "-Cpanic=abort")
def cxx(base): return base.get("cxxflags", build.CXXFLAGS)


def sh(argv, cwd, env=None, timeout=240):
    try:
        p = subprocess.run(argv, cwd=cwd, env=env or build.base_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Timeout(f"{argv[0]} took over {timeout} s")
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def write(path, text):
    mode = "wb" if isinstance(text, bytes) else "w"
    if os.path.dirname(path): os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, mode) as f:
        f.write(text)


class Workdir:
    def __init__(self):
        root = os.path.join(build.BUILD, "work")
        os.makedirs(root, exist_ok=True)
        self.path = tempfile.mkdtemp(dir=root)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def tool_argv(base, d, crate, crates, extra=()):
    n = crate["name"]
    argv = [base["tool"], *build.SUPPORT_FMT, *build.std_args(crate.get("std", ("core", "alloc", "std"))), "--source-crate-name", n,
            "--extern", f"{n}={d}/lib{n}.rmeta", "--h-out", f"{d}/{n}.h", "--rs-out", f"{d}/{n}_cc_api.rs"]
    for dep in crates:
        if dep["name"] in crate.get("deps", ()):
            m = dep["name"]
            argv += ["--extern", f"{m}={d}/lib{m}.rmeta", f"--crate-header={m}={m}.h", "-L", d]
            if dep.get("namespace"):
                argv += [f"--crate-namespace={m}={dep['namespace']}"]
    if crate.get("namespace"):
        argv += [f"--crate-namespace=self={crate['namespace']}", f"--crate-namespace={n}={crate['namespace']}"]
    argv += subst(crate.get("flags", []), base, d)
    argv += list(extra)
    if crate.get("report"): argv += ["--error-report-out", f"{d}/{n}.report.json"]
    return argv


def subst(flags, base, d): return [f.replace("$D", d).replace("$LIBS", base["libs"]) for f in flags]


def compile_rust(base, d, crate, crates):
    n = crate["name"]
    write(f"{d}/{n}.rs", crate["src"])
    argv = [build.rustc(), "--crate-type=rlib", f"--edition={crate.get('edition', '2021')}", panic(base),
            "--emit=link,metadata", f"--crate-name={n}", f"{n}.rs", "--out-dir", d, "--cap-lints=allow", "-L", d]
    argv += subst(crate.get("rustc_flags", []), base, d)
    for m in crate.get("deps", ()):
        argv += ["--extern", f"{m}={d}/lib{m}.rlib"]
    return sh(argv, d)


def trim(err):
    """rustc's text without the long lines of generated code."""
    return "\n".join(l[:240] for l in err.splitlines() if not re.fullmatch(r"[\s|0-9^+~_-]*", l))[-3000:]


def panicked(rc, err):
    return rc < 0 or rc == 101 or "panicked at" in err or "internal compiler error" in err


def res(stage, ok, detail="", **kw):
    return {"stage": stage, "ok": ok, "detail": detail, **kw}


def run_case(base, case, d, keep=None):
    crates = case["crates"]
    for n, text in case.get("files", {}).items(): write(f"{d}/{n}", text)
    for c in crates:
        rc, out, err = compile_rust(base, d, c, crates)
        if rc != 0:
            # The generator produced invalid Rust: an error of the check.
            return res("rust_input", None, f"input crate does not compile:\n{err[-3000:]}")
    headers = {}
    for c in crates:
        n = c["name"]
        rc, out, err = sh(tool_argv(base, d, c, crates, case.get("tool_extra", ())), d, build.tool_env())
        if case.get("generate_fails"):
            if panicked(rc, err) or rc == 0: return res("generate", False, f"cc_bindings_from_rs has to fail with an error on crate `{n}`, it exited {rc}:\n{err[-3000:]}", rc=rc, err=err)
            if not re.search(case["generate_fails"], err, re.S): return res("generate", False, f"cc_bindings_from_rs failed on crate `{n}` without the expected error /{case['generate_fails']}/:\n{err[-3000:]}", rc=rc, err=err)
            return res("done", True)
        if rc != 0 or not os.path.exists(f"{d}/{n}.h"):
            return res("generate", False, f"cc_bindings_from_rs exited {rc} on crate `{n}`:\n{err[-3000:]}", rc=rc, err=err)
    if case.get("inspect") or case.get("expect"):
        for c in crates:
            n = c["name"]
            headers[n] = open(f"{d}/{n}.h").read()
            headers[n + "_rs"] = open(f"{d}/{n}_cc_api.rs").read()
            if os.path.exists(f"{d}/{n}.report.json"): headers[n + "_report"] = open(f"{d}/{n}.report.json").read()
    alln = "".join(f"extern crate {x};\n" for x in ("core_cc_api", "alloc_cc_api", "std_cc_api"))
    for c in crates:
        n = c["name"]
        argv = [build.rustc(), "--crate-type=rlib", "--edition=2021", panic(base), f"--crate-name={n}_cc_api",
                f"{n}_cc_api.rs", "--out-dir", d, "--cap-lints=allow", "-L", d, "-L", base["libs"],
                "--extern", f"bridge_rust={base['libs']}/libbridge_rust.rlib",
                "--extern", f"dyn_erased_future={base['libs']}/libdyn_erased_future.rlib"]
        for m in [n, *c.get("deps", ())]:
            argv += ["--extern", f"{m}={d}/lib{m}.rlib"]
        rc, out, err = sh(argv, d)
        if rc != 0:
            return res("rust_glue", False, f"generated Rust glue of `{n}` does not compile:\n{trim(err)}", headers=headers)
        alln += f"extern crate {n}_cc_api;\n"
    main = case.get("main")
    if case.get("probes"):
        p = start_probes(base, case, d)
    try:
        r = compile_and_run(base, case, d, crates, headers, alln, main)
    finally:
        if case.get("probes"): pout = p.communicate(timeout=CXX_TIMEOUT)[1].decode("utf-8", "replace")
    if r["ok"] and case.get("probes"):
        bad = judge_probes(case, pout)
        if bad: return res("probes", False, bad, headers=headers)
    if r["ok"]:
        for which, rx, lo, hi, why in case.get("expect", ()):
            n = len(re.findall(rx, headers.get(which, ""), re.M))
            if n < lo or (hi is not None and n > hi): return res("text", False, f"{why}: /{rx}/ matches {n} times in {which}, want {lo} to {hi}", headers=headers)
    return r


def start_probes(base, case, d):
    """Lines of C++ which have to be accepted, or refused, on their own."""
    head = case["probes"]["head"]
    body = [head.rstrip("\n")] + [f"void probe_{i}() {{ {c} }}" for i, (c, *_) in enumerate(case["probes"]["lines"])]
    write(f"{d}/probes.cc", "\n".join(body) + "\n")
    return subprocess.Popen(["clang++", *cxx(base), "-include-pch", base["pch"] + ".pch", f"-I{base['std']}", "-I.", "-fsyntax-only", "-ferror-limit=0",
                             "-fno-caret-diagnostics", *case["probes"].get("flags", ["-w"]), "probes.cc"], cwd=d, env=build.base_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)


def judge_probes(case, err):
    first = len(case["probes"]["head"].rstrip("\n").split("\n")) + 1
    failed, cur = {}, None
    for l in err.splitlines():
        m = re.match(r"(\S+?):(\d+):\d+: (error|fatal error|note): (.*)", l)
        if not m: continue
        if m[3] != "note": cur = m[4]
        if m[1] == "probes.cc" and cur is not None and (m[3] != "note" or "requested here" in m[4] or "while " in m[4]): failed.setdefault(int(m[2]) - first, cur)
    for k in failed:
        if k < 0: return f"the head of the probes is refused: {failed[k]}"
    for i, (c, ok, *msg) in enumerate(case["probes"]["lines"]):
        if ok and i in failed: return f"C++ refuses `{c}`: {failed[i]}"
        if not ok and i not in failed: return f"C++ accepts `{c}`, which it should refuse"
        if not ok and msg and msg[0] not in failed[i]: return f"C++ refuses `{c}` without the message {msg[0]!r}: {failed[i]}"
    return None


def compile_and_run(base, case, d, crates, headers, alln, main):
    if main is None:
        for c in crates:
            rc, out, err = sh(["clang++", *cxx(base), f"-I{base['std']}", "-I.", "-fsyntax-only", "-x", "c++",
                               f"{c['name']}.h"], d, timeout=CXX_TIMEOUT)
            if rc != 0:
                return res("cxx", False, f"generated header `{c['name']}.h` does not compile:\n{err[:3000]}", headers=headers)
        return res("done", True, headers=headers)
    write(f"{d}/main.cc", main)
    tus = []
    for k, text in enumerate(case.get("tus", ())):
        write(f"{d}/tu{k}.cc", text)
        # Without precompiled headers: what the headers need, they have to include.
        tus.append(subprocess.Popen(["clang++", *cxx(base), f"-I{base['std']}", "-I.", "-ferror-limit=8", *case.get("cxxflags", []), "-c", f"tu{k}.cc", "-o", f"tu{k}.o"],
                                    cwd=d, env=build.base_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL))
    p = subprocess.Popen(["clang++", *cxx(base), "-include-pch", base["pch"] + ".pch", f"-I{base['std']}", "-I.",
                          "-ferror-limit=8", *case.get("cxxflags", []), "-c", "main.cc", "-o", "main.o"], cwd=d, env=build.base_env(),
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    write(f"{d}/all.rs", alln)
    rc2, out2, err2 = sh([build.rustc(), "--crate-type=staticlib", "--edition=2021", panic(base), "--crate-name=all",
                          "all.rs", "--out-dir", d, "--cap-lints=allow", "-L", d, "-L", base["libs"]], d)
    bad_tu = None
    try:
        for k, t in enumerate(tus):
            _, terr = t.communicate(timeout=CXX_TIMEOUT)
            if t.returncode != 0 and not bad_tu: bad_tu = f"C++ translation unit {k} does not compile:\n" + terr.decode("utf-8", "replace")[:4000]
        out, err = p.communicate(timeout=CXX_TIMEOUT)
    except subprocess.TimeoutExpired:
        for x in (p, *tus): x.kill()
        raise Timeout("clang++ took too long")
    if p.returncode != 0:
        return res("cxx", False, "C++ side does not compile:\n" + err.decode("utf-8", "replace")[:4000], headers=headers)
    if bad_tu: return res("cxx", False, bad_tu, headers=headers)
    if rc2 != 0:
        return res("link", False, f"linking the Rust half failed:\n{err2[-3000:]}", headers=headers)
    rc, out, err = sh(["clang++", "-fuse-ld=lld", "main.o", *[f"tu{k}.o" for k in range(len(tus))], *base["support"], "liball.a", "-lpthread", "-ldl", "-lm", "-o", "main",
                       *case.get("ldflags", [])], d)
    if rc != 0:
        return res("link", False, f"linking failed:\n{err[-3000:]}", headers=headers)
    return exec_case(case, d, headers)


def exec_case(case, d, headers):
    argv_list = case.get("runs") or [[]]
    total = ""
    for k, argv in enumerate(argv_list):
        rc, out, err = sh(["./main", *argv], d, timeout=RUN_TIMEOUT)
        want = (case.get("run_expect") or [None] * len(argv_list))[k]
        bad = [l for l in (out + "\n" + err).splitlines() if l.startswith("MISMATCH")]
        if want == "abort":
            if rc >= 0:
                return res("run", False, f"run {argv}: expected the process to abort, it exited {rc}\n{out[-800:]}\n{err[-800:]}", headers=headers, run=argv)
            if bad:
                return res("run", False, f"run {argv}: " + "\n".join(bad[:10]), headers=headers, run=argv)
        else:
            if bad:
                return res("run", False, f"run {argv}: " + "\n".join(bad[:10]), headers=headers, run=argv, bad=bad)
            if rc != 0 or "DONE" not in out:
                return res("run", False, f"run {argv}: driver exited {rc} without finishing\n{out[-800:]}\n{err[-1500:]}", headers=headers, run=argv)
        total += out
    return res("done", True, headers=headers, out=total)
