#!/usr/bin/env python3
"""C21: every option of the command line does what it is documented to do, and nothing else."""
import json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, e2e, runner
from runner import Violation, pmap
import c07

M32 = 1 << 32


# ---- programs: a crate in several files, a dependency, and a C++ program which uses both ----

class Ty:
    def __init__(self, name, file, path, cc):
        self.name, self.file, self.path, self.cc = name, file, path, cc


def program(seed):
    """A crate in several files over a dependency, the options of the tool, and what has to follow from them."""
    r = random.Random(seed)
    real = r.choice(["dep", "low", "base_lib"])
    alias = real if r.random() < .5 else r.choice(["aka", "dep2", real + "_rust"])
    nsd = r.choice([None, None, "deps::low", "dd", "a::b::c"])
    nsl = r.choice([None, None, "top::lib", "user", "a::x"])
    NSD, NSL = nsd or real, nsl or "lib"
    files = {"lib": ("lib.rs", ()), "a": ("a.rs", ("a",)), "sub": ("sub/mod.rs", ("sub",)), "x": ("sub/x.rs", ("sub", "x")), "z": ("z.rs", ("z",))}
    files = {k: v for k, v in files.items() if k in ("lib", "a") or (k == "x") or r.random() < .8 or k == "sub"}
    ignored = set(r.sample([k for k in files if k != "lib"], r.choice([0, 1, 1, 2]))) if r.random() < .6 else set()
    text = {k: [] for k in files}
    tys, drv, probes, kinds = [], [], [], set()

    def cc(k, name): return "::".join([NSL, *files[k][1], name])
    D = Ty("D", None, f"{alias}::D", f"{NSD}::D")
    dep = "#![allow(warnings)]\n#[derive(Clone, Default)] pub struct D { pub v: u32, pub w: u8 }\nimpl D { pub fn new(v: u32) -> D { D { v, w: 7 } } pub fn get(&self) -> u32 { self.v } }\npub fn twice(x: u32) -> u32 { x.wrapping_mul(2) }\n"
    drv.append(f'ck("dep", {NSD}::twice(21), 42u);')
    for k in files:
        for i in range(r.randint(1, 2)):
            n = f"T{len(tys)}"
            t = Ty(n, k, "crate::" + "::".join([*files[k][1], n]), cc(k, n))
            tys.append(t)
            f2 = r.choice(["u8", "u16", "u64", "Option<u16>", "bool"])
            text[k].append(f"#[derive(Clone, Default)] pub struct {n} {{ pub v: u32, pub o: {f2} }}\nimpl {n} {{ pub fn new(v: u32) -> {n} {{ {n} {{ v, ..Default::default() }} }} pub fn get(&self) -> u32 {{ self.v.wrapping_add({i}) }} }}")
            bound = k not in ignored
            t.bound, t.i = bound, i
            if bound: drv.append(f'ck("{t.cc}", {t.cc}::new_(5).get(), {5 + i}u);')
            else: probes.append((f"{t.cc}* p = nullptr; (void)p;", False)); kinds.add("ignored type")
    D.bound, D.i = True, 0
    pool = tys + [D]
    uses_dep = False
    for k in files:
        for _ in range(r.randint(2, 4)):
            n, c = f"f{sum(len(t) for t in text.values())}", r.randrange(1, 1000)
            t, u = r.choice(pool), r.choice(pool)
            mkt, mku = f"{t.cc}::new_(3)", f"{u.cc}::new_(4)"
            shape = r.randrange(7)
            deps = [t]
            if shape == 0: src, call, want = f"pub fn {n}(x: &{t.path}, y: u32) -> u32 {{ x.v.wrapping_add(y * {c}) }}", f"{{}}({mkt}, 2)", 3 + 2 * c
            elif shape == 1: src, call, want = f"pub fn {n}(x: {t.path}) -> u32 {{ x.v + {c} }}", f"{{}}({mkt})", 3 + c
            elif shape == 2: src, call, want, deps = f"pub fn {n}(x: &{t.path}, y: {u.path}) -> {u.path} {{ {u.path} {{ v: x.v * {c} + y.v, ..Default::default() }} }}", f"{{}}({mkt}, {mku}).get()", 3 * c + 4 + u.i, [t, u]
            elif shape == 3: src, call, want = f"pub fn {n}(x: u32) -> {t.path} {{ {t.path}::new(x + {c}) }}", "{}(1).get()", 1 + c + t.i
            elif shape == 4: src, call, want = f"pub fn {n}(x: *const {t.path}) -> u32 {{ if x.is_null() {{ {c} }} else {{ 0 }} }}", "{}(nullptr)", c
            elif shape == 5: src, call, want, deps = f"pub fn {n}(x: u32) -> u32 {{ x.wrapping_mul({c}) }}", "{}(9)", 9 * c, []
            else: src, call, want, deps = f"pub const {n}: u32 = {c};", "{}", c, []
            text[k].append(src)
            q = cc(k, n)
            if k not in ignored and all(x.bound for x in deps):
                drv.append(f'ck("{q}", {call.format(q)}, {want}u);')
                if D in deps: uses_dep = True
            else:
                probes.append((f"(void)&{q};", False)); kinds.add("ignored function" if k in ignored else "uses an ignored type")
    if not uses_dep:
        text["lib"].append(f"pub fn dget(x: &{D.path}) -> u32 {{ x.v }}"); drv.append(f'ck("dget", {cc("lib", "dget")}({D.cc}::new_(8)), 8u);')
    # Other ways to reach what is in an ignored file.
    for t in tys:
        if r.random() < .3:
            n = f"A{t.name}"; text["lib"].append(r.choice([f"pub type {n} = {t.path};", f"pub use {t.path} as {n};"]).replace("pub use crate::" + t.name + " as", "pub type " + n + " = " + t.path + "; //"))
            if t.bound: drv.append(f'ck("{n}", {cc("lib", n)}::new_(2).get(), {2 + t.i}u);')
            else: probes.append((f"{cc('lib', n)}* p = nullptr; (void)p;", False)); kinds.add("alias of an ignored type")
        if r.random() < .3:
            n = f"H{t.name}"; text["lib"].append(f"#[derive(Clone, Default)] pub struct {n} {{ pub inner: {t.path}, pub k: u32 }}\nimpl {n} {{ pub fn new(k: u32) -> {n} {{ {n} {{ k, inner: {t.path}::new(6) }} }} pub fn sum(&self) -> u32 {{ self.k + self.inner.v }} pub fn take(&self) -> {t.path} {{ self.inner.clone() }} }}")
            q = cc("lib", n); drv.append(f'{{ auto h = {q}::new_(9); ck("{n}", h.sum(), 15u); ck("{n}.k", h.k, 9u); }}')
            if t.bound: drv.append(f'ck("{n}.inner", {q}::new_(1).inner.get(), {6 + t.i}u); ck("{n}.take", {q}::new_(1).take().get(), {6 + t.i}u);')
            else: probes.append((f"{q} h = {q}::new_(1); (void)h.take();", False)); kinds.add("a field of an ignored type")
    mods = "#![allow(warnings)]\n" + f"extern crate {alias};\n" + "".join(f"pub mod {k};\n" for k in ("a", "sub", "z") if k in files)
    src = {v[0]: ("pub mod x;\n" if k == "sub" else "") + "\n".join(text[k]) + "\n" for k, v in files.items()}
    src["lib.rs"] = mods + src["lib.rs"]
    src["dep.rs"] = dep

    # The options.
    opts = [["--crate-header", f"{alias}=dep.h"]]
    if alias != real: opts.append(["--crate-rename", f"{alias}={real}"]); kinds.add("crate-rename")
    if nsd: opts.append(["--crate-namespace", f"{real}={nsd}"]); kinds.add("crate-namespace of a dependency")
    if nsl: opts.append(["--crate-namespace", f"self={nsl}"]); kinds.add("crate-namespace")
    for k in sorted(ignored): opts.append(["--ignore-symbols-from-files", files[k][0]]); kinds.add("ignore-symbols-from-files")
    head, text_checks = [], []
    guard = None
    if r.random() < .5:
        guard = r.choice(["LIB_H_", "GUARD_lib_cc_api", "_X1", "crubit_lib_h"])
        opts.append(["--h-out-include-guard", guard]); kinds.add("h-out-include-guard")
        text_checks.append([r"^#ifndef " + guard + "$", 1, 1]); text_checks.append([r"^#define " + guard + "$", 1, 1]); text_checks.append(["#pragma once", 0, 0])
        head.append(f"#ifndef {guard}\n#error the guard is not defined\n#endif")
    else: text_checks.append([r"^#pragma once$", 1, 1])
    extra = []
    for i in range(r.choice([0, 0, 1, 2, 3])):
        p = r.choice(["", "inc/", "inc/more/"]) + f"ex{i}.h"
        extra.append(p); src[p] = f"#pragma once\nnamespace ex {{ inline constexpr unsigned k{i} = {i + 70}; }}\n"
        opts.append(["--extra-rs-srcs-include", p]); kinds.add("extra-rs-srcs-include")
        drv.append(f'ck("{p}", ex::k{i}, {i + 70}u);')
        text_checks.append([r'^#include "' + re.escape(p) + '" *// IWYU pragma: export$', 1, 1])
    for i in range(r.choice([0, 0, 1, 2])):
        p = f"second{i}.h"; src[p] = f"#pragma once\nnamespace ex {{ inline constexpr unsigned s{i} = {i + 30}; }}\n"
        opts.append(["--crate-header", f"{alias}={p}"]); kinds.add("several crate-headers")
        drv.append(f'ck("{p}", ex::s{i}, {i + 30}u);')
    if r.random() < .3: opts.append(["--clang-format-exe-path", "/usr/bin/clang-format"]); kinds.add("clang-format-exe-path")
    if r.random() < .3:
        opts.append(["--rustfmt-exe-path", "$SYSROOT/bin/rustfmt"]); kinds.add("rustfmt-exe-path")
        if r.random() < .5:
            src["fmt.toml"] = r.choice(["max_width = 60\n", "hard_tabs = true\n", "tab_spaces = 7\n"]); opts.append(["--rustfmt-config-path", "$D/fmt.toml"]); kinds.add("rustfmt-config-path")
    if r.random() < .3:
        f = r.choice(["[{line}] {path}", "{path}:{line}", "https://x/{ path }#L{line}", "{{{path}}}@{line}", "L{line}"])
        opts.append(["--crubit-debug-path-format", f]); kinds.add("crubit-debug-path-format")
        if "clang-format-exe-path" not in kinds: text_checks.append([r"^// Generated from: " + re.escape(f.replace(" path ", "path").replace("{path}", "\0").replace("{line}", "\1").replace("{{", "{").replace("}}", "}")).replace("\0", r"(lib|a|z|sub/mod|sub/x)\.rs").replace("\1", r"\d+") + "$", 3, None]); text_checks.append([r";l=\d", 0, 0])
    else: text_checks.append([r"Generated from: (lib|a|z|sub/mod|sub/x)\.rs;l=\d+$", 3, None])
    sup = "support"
    if r.random() < .4:
        sup = r.choice(["alt", "my/sup", "a/b/c"]); opts.append(["--crubit-support-path-format", r.choice(['<{}/{{header}}>', '"{}/{{header}}"']).format(sup)]); kinds.add("crubit-support-path-format")
        text_checks.append(["support/annot", 0 if sup != "support" else None, 0])
    else: opts.append(["--crubit-support-path-format", "<support/{header}>"])
    if r.random() < .3: opts.append(["--kythe-annotations"]); kinds.add("kythe-annotations")
    if r.random() < .3: opts.append(["--cpp-out", "$D/unused.cc"]); kinds.add("cpp-out")
    if r.random() < .3: opts.append(["--error-report-out", "$D/report.json"]); kinds.add("error-report-out")
    if r.random() < .3: opts.append(["--portable-abi-compatible"]); kinds.add("portable-abi-compatible")
    from_source = r.random() < .3
    if from_source: kinds.add("enable-rmeta-interface=false")
    opts += [["--h-out", "$D/out/lib.h"], ["--rs-out", "$D/lib_glue.rs"]]
    r.shuffle(opts)
    style = r.choice(["=", " ", "mixed"])
    flat = []
    for o in opts: flat += o if len(o) == 1 or style == " " or (style == "mixed" and r.random() < .5) else ["=".join(o)]
    return {"seed": str(seed), "files": src, "real": real, "alias": alias, "nsd": nsd, "opts": flat, "std_at": r.choice(["before", "after"]), "flagfile": r.random() < .3, "from_source": from_source, "guard": guard, "sup": sup,
            "drive": drv, "probes": {"head": '#include "lib.h"', "lines": probes} if probes else None, "head": head, "text": text_checks, "kinds": sorted(kinds), "nsl": NSL}


def sub(xs, base, d): return [x.replace("$D", d).replace("$SYSROOT", build.sysroot()) for x in xs]


def run_program(base, case, d):
    env = build.tool_env()
    for n, t in case["files"].items(): e2e.write(f"{d}/{n}", t)
    os.makedirs(f"{d}/out", exist_ok=True)
    os.makedirs(os.path.dirname(f"{d}/{case['sup']}"), exist_ok=True)
    if case["sup"] != "support": os.symlink(os.path.join(build.REPO, "support"), f"{d}/{case['sup']}")
    real, alias = case["real"], case["alias"]
    R = [build.rustc(), "--edition=2021", e2e.panic(base), "--cap-lints=allow", "--out-dir", d, "-L", d]
    for argv in ([*R, "--crate-type=rlib", "--emit=link,metadata", f"--crate-name={real}", "dep.rs"],
                 [*R, "--crate-type=rlib", "--emit=link,metadata", "--crate-name=lib", "lib.rs", "--extern", f"{alias}={d}/lib{real}.rlib"]):
        rc, out, err = e2e.sh(argv, d)
        if rc: return e2e.res("rust_input", None, err[-3000:])
    std = build.std_args()
    rc, out, err = e2e.sh([base["tool"], *build.SUPPORT_FMT, *std, "--source-crate-name", real, "--extern", f"{real}={d}/lib{real}.rmeta", "--h-out", f"{d}/out/dep.h", "--rs-out", f"{d}/dep_glue.rs",
                           *([f"--crate-namespace=self={case['nsd']}"] if case["nsd"] else [])], d, env)
    if rc: return e2e.res("generate", False, f"cc_bindings_from_rs exited {rc} on the dependency:\n{err[-2000:]}")
    opts = sub(case["opts"], base, d)
    if case["from_source"]:
        std = [a for a in std if not a.startswith("--extern=")]
        tail = ["--enable-rmeta-interface=false", "--", "--crate-type=lib", "--crate-name=lib", "--edition=2021", "lib.rs", e2e.panic(base), f"--sysroot={build.sysroot()}", "--extern", f"{alias}={d}/lib{real}.rmeta", "-L", d]
    else: tail = ["--source-crate-name", "lib", "--extern", f"lib={d}/liblib.rmeta", "--extern", f"{alias}={d}/lib{real}.rmeta", "-L", d]
    args = (std + opts if case["std_at"] == "before" else opts + std) + tail
    if case["flagfile"]:
        cut = len(args) // 2
        e2e.write(f"{d}/flags.txt", "\n".join(args[cut:]) + "\n"); args = args[:cut] + [f"@{d}/flags.txt"]
    rc, out, err = e2e.sh([base["tool"], *args], d, env)
    if rc: return e2e.res("generate", False, f"cc_bindings_from_rs exited {rc}:\n{err[-2500:]}")
    h, g = open(f"{d}/out/lib.h").read(), open(f"{d}/lib_glue.rs").read()
    for rx, lo, hi in case["text"]:
        n = len(re.findall(rx, h, re.M))
        if (lo is not None and n < lo) or (hi is not None and n > hi): return e2e.res("text", False, f"/{rx}/ matches {n} times in the header, want {lo} to {hi}")
    if "cpp-out" in case["kinds"] and (not os.path.exists(f"{d}/unused.cc") or open(f"{d}/unused.cc").read()): return e2e.res("text", False, "--cpp-out has to leave an empty file")
    if "error-report-out" in case["kinds"]:
        try: assert isinstance(json.load(open(f"{d}/report.json")), list)
        except Exception as x: return e2e.res("text", False, f"--error-report-out has to leave a list in JSON: {x}")
    for f in case["files"]:
        if open(f"{d}/{f}").read() != case["files"][f]: return e2e.res("text", False, f"{f} was changed")
    if "rustfmt-exe-path" in case["kinds"]:
        e2e.write(f"{d}/again.rs", g)
        # A second run of rustfmt with the same configuration leaves the file as it is.
        cfg = ["--config-path", f"{d}/fmt.toml"] if "fmt.toml" in case["files"] else ["--edition=2021", "--config=version=Two"]
        rc, out, err = e2e.sh([f"{build.sysroot()}/bin/rustfmt", *cfg, "--config=normalize_doc_attributes=true", "--config=wrap_comments=false", "--check", "again.rs"], d)
        if rc: return e2e.res("text", False, f"the glue is not formatted as --rustfmt-config-path says:\n{out[:600]}{err[:600]}")
    L = ["-L", base["libs"], "--extern", f"bridge_rust={base['libs']}/libbridge_rust.rlib", "--extern", f"dyn_erased_future={base['libs']}/libdyn_erased_future.rlib"]
    for n, argv in (("dep_cc_api", ["dep_glue.rs", "--extern", f"{real}={d}/lib{real}.rlib"]), ("lib_cc_api", ["lib_glue.rs", "--extern", f"lib={d}/liblib.rlib", "--extern", f"{alias}={d}/lib{real}.rlib"])):
        rc, out, err = e2e.sh([*R, "--crate-type=rlib", f"--crate-name={n}", *argv, *L], d)
        if rc: return e2e.res("rust_glue", False, f"generated Rust glue of {n} does not compile:\n{e2e.trim(err)}")
    alln = "".join(f"extern crate {x};\n" for x in ("core_cc_api", "alloc_cc_api", "std_cc_api", "dep_cc_api", "lib_cc_api"))
    main = "\n".join(['#include "lib.h"', *case["head"], '#include "out/lib.h"', "#include <cstdio>", "static void ck(const char* w, unsigned long long a, unsigned long long b) { if (a != b) printf(\"MISMATCH %s: %llu, want %llu\\n\", w, a, b); }",
                      "int main() {", *case["drive"], 'puts("DONE"); return 0; }', ""])
    c = {"crates": [{"name": "lib"}], "cxxflags": [f"-I{d}/out", f"-I{d}"]}
    if case["guard"]: c["tus"] = [f'#define {case["guard"]} 1\n#include "lib.h"\nnamespace {case["nsl"]} {{ int f0, T0, T1, f1; }}\n']   # the guard covers everything which is declared
    if case["probes"]:
        c["probes"] = dict(case["probes"], flags=["-w", f"-I{d}/out", f"-I{d}"]); p = e2e.start_probes(base, c, d)
    try: res = e2e.compile_and_run(base, c, d, c["crates"], {}, alln, main)
    finally:
        if case["probes"]: pout = p.communicate(timeout=e2e.CXX_TIMEOUT)[1].decode("utf-8", "replace")
    if res["ok"] and case["probes"]:
        bad = e2e.judge_probes(c, pout)
        if bad: return e2e.res("probes", False, bad)
    return res


# ---- relations between runs of the tool ----

NAMES = ["supported", "wrapper", "types", "experimental", "assume_lifetimes", "assume_this_lifetimes", "no_assume_lifetimes", "unsafe_view", "check_default_initialized", "leading_colons_for_cpp_type", "template_instantiation", "layout_compat_tuple",
         "always_specialize_generics_in_cpp_api_from_rust", "record_impl_debug", "ctor_plain_values", "reserve_standard_macros", "thunkless_accessors", "oo_casting", "async_fn_send_modulo_regions"]
NOT_ALL = {"no_assume_lifetimes", "layout_compat_tuple", "always_specialize_generics_in_cpp_api_from_rust", "oo_casting"}


def expand(names):
    out = set()
    for n in names: out |= set(NAMES) - NOT_ALL if n == "all" else {"supported", "types"} if n == "supported" else {n}
    return out


def relation(seed):
    r = random.Random(seed)
    src, k = c07.source(seed)
    kind = r.choice(["features", "features", "features", "spelling", "formats", "invalid", "invalid"])
    case = {"seed": str(seed), "src": src, "kind": kind}
    pick = lambda n: [r.choice(NAMES + ["all", "supported", "experimental"] * 2) for _ in range(n)]
    if kind == "features":
        dflt, mine, off = pick(r.choice([0, 1, 2])), pick(r.choice([0, 1, 2, 3])), pick(r.choice([0, 0, 1, 2]))
        eff = (expand(dflt) | expand(mine)) - expand(off)
        opts = ([[f"--default-features={','.join(dflt)}"]] if dflt else []) + [[f"--crate-feature=self={f}"] for f in mine] + [[f"--crate-disabled-feature=self={f}"] for f in off]
        r.shuffle(opts)
        case["a"] = [x for o in opts for x in o]
        order = sorted(eff); r.shuffle(order)
        # The same set, spelled feature by feature ("supported" alone would bring "types").
        case["b"] = [f"--crate-feature=self={f}" for f in order] + (["--crate-disabled-feature=self=types"] if "supported" in eff and "types" not in eff else []) + (["--crate-disabled-feature=self=all"] if not eff else [])
        case["features"] = sorted(eff)
    elif kind == "formats":
        case["sup"] = r.choice(["<x/{header}>", '"a b/{header}"', "<{header}>", "<z/{ header }/y>", '"{{}}/{header}"', '"{header}{header}"'])
        case["dbg"] = r.choice(["{line}:{path}", "{path}", "no names", "{{{line}}} {path}{line}", "{ path }?l={ line }"])
    elif kind == "invalid":
        bad = [["--crate-header=nothing"], ["--crate-header=dep="], ["--crate-header==x.h"], ["--crate-namespace=dep"], ["--crate-namespace==n"], ["--crate-namespace=self="], ["--crate-rename=a"], ["--crate-rename=a="], ["--crate-feature=self=nope"], ["--crate-feature=self"], ["--crate-feature==supported"],
               ["--crate-feature=self=supported,experimental"], ["--crate-disabled-feature=self=Supported"], ["--default-features=supported,,types"], ["--default-features=supported, types"], ["--default-features=bogus"], ["--crubit-debug-path-format={file}"], ["--crubit-debug-path-format={path"], ["--crubit-debug-path-format=path}"],
               ["--no-such-option"], ["--h-out=again.h"], ["--rs-out=again.rs"], ["stray.rs"], ["--kythe-annotations=maybe"], ["--source-crate-name=other"], ["--extern=other"], ["--extern==x"], ["--h-out-include-guard=a b"], ["--h-out-include-guard=1x"], ["--h-out-include-guard="], ["--h-out-include-guard=a-b"], ["--is-golden-test=1"],
               "-h-out", "-rs-out", "-crubit-support-path-format", "-source-crate-name", "nocrate", "badmeta", "badsup", "nodir", "norsdir", "noflagfile"]
        case["bad"] = r.choice(bad)
    return case


def run_relation(base, case, d):
    env = build.tool_env()
    c = {"name": "lib", "src": case["src"], "deps": [], "flags": []}
    rc, out, err = e2e.compile_rust(base, d, c, [c])
    if rc: return e2e.res("rust_input", None, err[-2000:])
    def tool(opts, tag, edit=lambda a: a):
        os.makedirs(f"{d}/{tag}", exist_ok=True)
        h, g = f"{d}/{tag}/h", f"{d}/{tag}/rs"
        argv = edit([a.replace(f"{d}/lib.h", h).replace(f"{d}/lib_cc_api.rs", g) for a in e2e.tool_argv(base, d, c, [c])]) + opts
        rc, out, err = e2e.sh(argv, d, env)
        return rc, err, [open(x).read() if os.path.exists(x) else None for x in (h, g)], argv
    def drop(a, o):
        i = a.index(o); return a[:i] + a[i + 2:]
    if case["kind"] == "features":
        rc, err, (h, g), _ = tool(case["a"], "a")
        if rc: return e2e.res("generate", False, f"{case['a']}: cc_bindings_from_rs exited {rc}:\n{err[-1500:]}")
        line = "// Features: " + (", ".join(case["features"]) or "<none>")
        if line not in h.split("\n")[:4]: return e2e.res("features", False, f"{case['a']}: the header says {h.split(chr(10))[2]!r}, want {line!r}")
        rc, err, (h2, g2), _ = tool(case["b"], "b")
        if rc: return e2e.res("generate", False, f"{case['b']}: cc_bindings_from_rs exited {rc}:\n{err[-1500:]}")
        for x, y, w in ((h, h2, "header"), (g, g2, "glue")):
            if x != y:
                i = next(i for i, (p, q) in enumerate(zip(x.split("\n") + [""], y.split("\n") + [""])) if p != q)
                return e2e.res("features", False, f"the {w} differs between two spellings of the same features, {case['a']} and {case['b']}, at line {i + 1}:\n- {x.split(chr(10))[i:i + 1]}\n+ {y.split(chr(10))[i:i + 1]}")
    elif case["kind"] == "formats":
        rc, err, (h, g), _ = tool([], "a")
        if rc: return e2e.res("generate", False, f"cc_bindings_from_rs exited {rc}:\n{err[-1500:]}")
        rc, err, (h2, g2), _ = tool(["--crubit-support-path-format", case["sup"], "--crubit-debug-path-format", case["dbg"]], "b", lambda a: drop(a, "--crubit-support-path-format"))
        if rc: return e2e.res("generate", False, f"{case['sup']!r}, {case['dbg']!r}: cc_bindings_from_rs exited {rc}:\n{err[-1500:]}")
        fmt = lambda f, m: re.sub(r"\{\{|\}\}|\{\s*(\w+)\s*\}", lambda x: m[x[1]] if x[1] else x[0][0], f)
        want = re.sub(r"lib\.rs;l=(\d+)", lambda m: fmt(case["dbg"], {"path": "lib.rs", "line": m[1]}), h)
        want = re.sub(r"(?m)^#include ?<support/([^>]*)>", lambda m: "#include " + fmt(case["sup"], {"header": m[1]}), want)
        norm = lambda t: sorted(re.sub(r"^#include ?(?=[<\"])", "#include ", l) for l in t.split("\n"))
        if norm(want) != norm(h2):
            a, b = norm(want), norm(h2)
            return e2e.res("formats", False, f"{case['sup']!r}, {case['dbg']!r}: the header misses {sorted(set(a) - set(b))[:3]}, has in their place {sorted(set(b) - set(a))[:3]}")
        strip = lambda t: [l for l in t.split("\n") if not l.startswith("#include")]
        if strip(want) != strip(h2): return e2e.res("formats", False, "the formats of paths change the order of the header")
        if g != g2: return e2e.res("formats", False, "the formats of paths change the Rust glue")
    elif case["kind"] == "spelling":
        rc, err, first, argv = tool([], "a")
        if rc: return e2e.res("generate", False, f"cc_bindings_from_rs exited {rc}:\n{err[-1500:]}")
        r = random.Random(case["seed"])
        def join(a):
            out, i = a[:1], 1
            while i < len(a):
                if a[i].startswith("--") and "=" not in a[i] and i + 1 < len(a) and not a[i + 1].startswith("-"):
                    out.append(a[i] + "=" + a[i + 1]); i += 2
                elif a[i].startswith("--") and "=" in a[i] and r.random() < .5:
                    out += a[i].split("=", 1); i += 1
                else: out.append(a[i]); i += 1
            return out
        def files(a):
            cuts = sorted(r.sample(range(1, len(a) + 1), min(3, len(a)))); out = a[:cuts[0]]
            for n, (x, y) in enumerate(zip(cuts, cuts[1:] + [len(a)])):
                if x == y: continue
                e2e.write(f"{d}/fl{n}", "\n".join(a[x:y]) + r.choice(["", "\n"])); out.append(f"@{d}/fl{n}" if r.random() < .5 else f"@fl{n}")
            return out
        for name, edit, opts in (("other spelling of the values", join, []), ("flag files", files, []), ("both", lambda a: files(join(a)), []), ("defaults in full", lambda a: a, ["--default-features=", "--enable-rmeta-interface", "--kythe-default-corpus=zzz"]),
                                 ("rmeta interface", lambda a: a, ["--enable-rmeta-interface=true"])):
            rc, err, got, argv = tool(opts, "b" + name.replace(" ", "_"), edit)
            if rc: return e2e.res("generate", False, f"{name}: cc_bindings_from_rs exited {rc}:\n{err[-1500:]}\n{argv}")
            if got != first: return e2e.res("spelling", False, f"{name}: the output differs\n{argv}")
    else:
        b = case["bad"]
        os.makedirs(f"{d}/a", exist_ok=True)
        for n in ("h", "rs"): e2e.write(f"{d}/a/{n}", "old " + n)
        edit, opts, env2 = (lambda a: a), [], env
        if isinstance(b, list):
            opts = b
            if b[0].startswith("--source-crate-name"): edit = lambda a: drop(a, "--source-crate-name")
        elif b.startswith("-"): edit = lambda a: drop(a, "-" + b)
        elif b == "nocrate": edit = lambda a: [x for x in a if not x.startswith("lib=")] if False else drop(a, "--extern")
        elif b == "badmeta": e2e.write(f"{d}/liblib.rmeta", "not metadata")
        elif b == "badsup": edit = lambda a: [("<support/{header}" + random.Random(case["seed"]).choice(["", "{x}>", "{>", "}>"])) if x == "<support/{header}>" else x for x in a]; case_ok = None
        elif b == "nodir": edit = lambda a: [x.replace("/a/h", "/none/h") for x in a]
        elif b == "norsdir": edit = lambda a: [x.replace("/a/rs", "/none/rs") for x in a]
        elif b == "noflagfile": opts = [f"@{d}/nosuchfile"]
        if b == "badsup": edit0 = edit; edit = lambda a: [x + "{x}" if x.startswith("<support/{header}") and x == "<support/{header}" else x for x in edit0(a)]
        rc, err, got, argv = tool(opts, "a", edit)
        if rc <= 0 or rc == 134 or "panicked at" in err or "internal compiler error" in err or not err.strip(): return e2e.res("invalid", False, f"{b}: has to be refused with an error; cc_bindings_from_rs exited {rc}:\n{err[-800:]}")
        if not err.strip(): return e2e.res("invalid", False, f"{b}: refused without a message")
        if got != ["old h", "old rs"] and b != "norsdir": return e2e.res("invalid", False, f"{b}: refused, but the output files were changed")
        left = [f for f in ("again.h", "again.rs") if os.path.exists(f"{d}/{f}")]
        if left: return e2e.res("invalid", False, f"{b}: refused, but wrote {left}")
    return e2e.res("done", True)


def run(base, case):
    with e2e.Workdir() as d: return run_program(base, case, d) if "drive" in case else run_relation(base, case, d)


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one generated crate with one generated command line; non-trivial: all, distinct by the seed which determines both"
    seeds = [(program, f"{ctx.seed}:{ctx.prop}:p{k}") for k in range(ctx.n(60, 2500))] + [(relation, f"{ctx.seed}:{ctx.prop}:r{k}") for k in range(ctx.n(120, 5000))]
    def one(x):
        case = x[0](x[1])
        return x[1], case, run(base, case)
    invalid = 0
    for seed, case, r in pmap(one, seeds, ctx.jobs):
        if r["ok"] is None:
            invalid += 1
            if invalid * 20 > len(seeds): raise build.BuildError(r["detail"])
            continue
        if not r["ok"]: raise Violation(f"seed {seed}: {r['stage']}: {r['detail']}", {"property": ctx.prop, "case": case, "detail": r["detail"][:3000]})
        ctx.count(1); ctx.note(case["seed"])
        for k in case.get("kinds") or [case["kind"]]: ctx.cls(k)
        ctx.sample({"options": case.get("opts") or case.get("a") or case.get("bad") or [case.get("sup"), case.get("dbg")], "checks": len(case.get("drive", ())) + len((case.get("probes") or {"lines": ()})["lines"])}, 12)


def replay(ctx, rep):
    r = run(build.e2e_base(), rep["case"])
    if not r["ok"]: raise Violation(r["detail"], rep)


if __name__ == "__main__":
    sys.exit(runner.main("C21", check, replay))
