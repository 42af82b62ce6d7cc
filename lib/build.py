"""Builds what the checks need from /repo's current working tree, into /verif/.build.

Everything is keyed on content (cargo's -Zchecksum-freshness, or hashes of the inputs), so a
check sees any change to /repo's sources, and costs nothing when there is none.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, contextlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TOOLCHAIN = "nightly-2026-08-20"


def base_env():
    env = dict(os.environ)
    for k in ("RUST_BACKTRACE", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_LOG",
              "RUST_LIB_BACKTRACE", "CRUBIT_LOG"):
        env.pop(k, None)
    env.update(
        RUSTUP_TOOLCHAIN=TOOLCHAIN, RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only", LANG="C.UTF-8", HOME=env.get("HOME", "/root"),
    )
    return env


class BuildError(Exception):
    """The machinery could not be built: an error of the check, never a violation."""


def run(argv, cwd=None, env=None, timeout=800, ok=True):
    p = subprocess.run(argv, cwd=cwd, env=env or base_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout)
    out, err = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    if ok and p.returncode != 0:
        raise BuildError(f"{' '.join(map(str, argv))[:400]} exited {p.returncode}\n{err[-6000:]}\n{out[-1500:]}")
    return p.returncode, out, err


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = run(["rustc", "--print", "sysroot"])[1].strip()
    return _sysroot


_rustc = None


def rustc():
    """Path of the real rustc binary (skips the rustup shim, ~40 ms per call)."""
    return os.path.join(sysroot(), "bin", "rustc")


def tool_env():
    env = base_env()
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    return env


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()


def file_sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        while True:
            b = f.read(1 << 20)
            if not b:
                break
            h.update(b)
    return h.hexdigest()


def tree_sha(root, exts, skip=("target", ".git")):
    """Content hash of the files below `root` with one of the extensions."""
    h = hashlib.sha256()
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in skip)
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + file_sha(p).encode())
    return h.hexdigest()


@contextlib.contextmanager
def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, f".lock.{name}"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def cargo_build(manifest, target_dir, args, cwd=None):
    env = base_env()
    env["CARGO_TARGET_DIR"] = target_dir
    run(["cargo", "build", "--offline", "-Zchecksum-freshness", "--manifest-path", manifest] + args,
        cwd=cwd or os.path.dirname(manifest), env=env)


def tool():
    """cc_bindings_from_rs built from the working tree: path to a copy of the binary."""
    with lock("tool"):
        tdir = os.path.join(BUILD, "target")
        cargo_build(os.path.join(REPO, "Cargo.toml"), tdir, ["-p", "cc_bindings_from_rs"], cwd=REPO)
        return os.path.join(tdir, "debug", "cc_bindings_from_rs")


def cargo_cpp_api_tool():
    with lock("tool"):
        tdir = os.path.join(BUILD, "target")
        cargo_build(os.path.join(REPO, "Cargo.toml"), tdir,
                    ["-p", "cc_bindings_from_rs", "-p", "cargo-cpp_api_from_rust"], cwd=REPO)
        return os.path.join(tdir, "debug", "cargo-cpp_api_from_rust")


def std_rmeta(name):
    (p,) = glob.glob(os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/lib", f"lib{name}-*.rmeta"))
    return p


SUPPORT_FMT = ["--crubit-support-path-format", "<support/{header}>"]


def std_args(upto=("core", "alloc", "std")):
    out = []
    for n in upto:
        out += [f"--extern={n}={std_rmeta(n)}", f"--crate-namespace={n}=rs::{n}",
                f"--crate-header={n}=crubit/{n}.h"]
    return out


def support_objects():
    """Non-test C++ sources of support/ that generated code links against -> object files."""
    srcs = ["support/internal/check_no_mutable_aliasing.cc", "support/rs_std/char.cc",
            "support/rs_std/waker.cc", "support/rs_std/cpp_waker.cc"]
    objs = []
    hdr = tree_sha(os.path.join(REPO, "support"), (".h", ".cc"))
    out = os.path.join(BUILD, "support", sha(hdr, CXX_KEY)[:16])
    for s in srcs:
        o = os.path.join(out, s.replace("/", "_") + ".o")
        objs.append(o)
        if not os.path.exists(o):
            os.makedirs(out, exist_ok=True)
            run(["clang++", *CXXFLAGS, "-c", os.path.join(REPO, s), "-o", o + ".tmp"])
            os.rename(o + ".tmp", o)
    return objs


CXXFLAGS = ["-std=c++20", f"-I{REPO}", "-Wno-nullability-completeness", "-Wno-invalid-offsetof", "-O0", "-fno-exceptions"]
CXX_KEY = "clang++18 " + " ".join(CXXFLAGS)


# Support crates for async functions, each one depending on those before it.
FUTURES = ("erased_future", "dyn_erased_future")


def e2e_base():
    """Everything an end-to-end case needs besides the case: returns a dict of paths.

    tool, std (include dir with crubit/{core,alloc,std}.h), rlibs for the std bindings and the
    bridge crate, support objects.
    """
    t = tool()
    with lock("e2e"):
        bridge = os.path.join(REPO, "support/crubit_bridge_rust/src/bridge.rs")
        futures = [os.path.join(REPO, f"support/rs_std/{n}.rs") for n in FUTURES]
        annotate = os.path.join(REPO, "support/crubit_annotate")
        key = sha(file_sha(t), tree_sha(os.path.join(REPO, "support/crubit_bridge_rust"), (".rs",)),
                  tree_sha(annotate, (".rs",)), *map(file_sha, futures),
                  tree_sha(os.path.join(REPO, "support"), (".h", ".cc")), CXX_KEY, file_sha(__file__))[:20]
        d = os.path.join(BUILD, "e2e", key)
        info = os.path.join(d, "info.json")
        if not os.path.exists(info):
            shutil.rmtree(d, ignore_errors=True)
            # Keep at most a few old variants.
            old = sorted(glob.glob(os.path.join(BUILD, "e2e", "*")), key=os.path.getmtime)
            for o in old[:-3]:
                shutil.rmtree(o, ignore_errors=True)
            os.makedirs(os.path.join(d, "std/crubit"))
            _build_e2e_base(t, d, bridge, annotate)
            with open(info, "w") as f:
                json.dump({"key": key}, f)
        return {
            "dir": d, "tool": os.path.join(d, "cc_bindings_from_rs"), "std": os.path.join(d, "std"),
            "libs": d, "support": support_objects(), "pch": os.path.join(d, "pch.h"),
        }


def _build_e2e_base(t, d, bridge, annotate):
    env = tool_env()
    tool_copy = os.path.join(d, "cc_bindings_from_rs")
    shutil.copy2(t, tool_copy)
    procs = []
    for i, n in enumerate(("core", "alloc", "std")):
        deps = ("core", "alloc", "std")[:i]
        argv = [tool_copy, *SUPPORT_FMT, f"--source-crate-name={n}", f"--h-out={d}/std/crubit/{n}.h",
                f"--rs-out={d}/{n}_cc_api.rs", f"--extern={n}={std_rmeta(n)}",
                f"--crate-namespace=self=rs::{n}", f"--crate-namespace={n}=rs::{n}", *std_args(deps)]
        procs.append((n, subprocess.Popen(argv, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for n, p in procs:
        out, _ = p.communicate(timeout=300)
        if p.returncode != 0:
            raise StdBindingsError(f"generating bindings of `{n}` failed ({p.returncode}):\n{out.decode('utf-8','replace')[-4000:]}")
    R = rustc()
    run([R, "--edition=2024", "-Cpanic=abort", "--crate-type=rlib", "--crate-name=bridge_rust", bridge,
         "--out-dir", d, "--cap-lints=allow"])
    for k, n in enumerate(FUTURES):
        run([R, "--edition=2024", "-Cpanic=abort", "--crate-type=rlib", f"--crate-name={n}", os.path.join(REPO, f"support/rs_std/{n}.rs"),
             "--out-dir", d, "--cap-lints=allow", *[x for m in FUTURES[:k] for x in ("--extern", f"{m}={d}/lib{m}.rlib")]])
    for n in ("core", "alloc", "std"):
        rc, out, err = run([R, "--edition=2021", "-Cpanic=abort", "--crate-type=rlib", f"--crate-name={n}_cc_api",
                            f"{d}/{n}_cc_api.rs", "--out-dir", d, "--cap-lints=allow", "--extern",
                            f"bridge_rust={d}/libbridge_rust.rlib"], ok=False)
        if rc != 0:
            raise StdBindingsError(f"Rust half of the bindings of `{n}` does not compile:\n{err[-4000:]}")
    with open(os.path.join(d, "pch.h"), "w") as f:
        f.write(PCH)
    run(["clang++", *CXXFLAGS, f"-I{d}/std", "-x", "c++-header", f"{d}/pch.h", "-o", f"{d}/pch.h.pch"])


def e2e_unwind_base():
    """Like e2e_base(), for crates whose panics unwind and C++ with exceptions."""
    base = e2e_base()
    d = os.path.join(base["dir"], "unwind")
    flags = [f for f in CXXFLAGS if f != "-fno-exceptions"] + ["-fexceptions"]
    with lock("e2e-unwind"):
        if not os.path.exists(os.path.join(d, "done")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            R, U = [rustc(), "--cap-lints=allow", "-Cpanic=unwind", "--crate-type=rlib", "--out-dir", d], base["dir"]
            run([*R, "--edition=2024", "--crate-name=bridge_rust", os.path.join(REPO, "support/crubit_bridge_rust/src/bridge.rs")])
            for k, n in enumerate(FUTURES):
                run([*R, "--edition=2024", f"--crate-name={n}", os.path.join(REPO, f"support/rs_std/{n}.rs"), *[x for m in FUTURES[:k] for x in ("--extern", f"{m}={d}/lib{m}.rlib")]])
            for n in ("core", "alloc", "std"):
                run([*R, "--edition=2021", f"--crate-name={n}_cc_api", f"{U}/{n}_cc_api.rs", "--extern", f"bridge_rust={d}/libbridge_rust.rlib"])
            shutil.copy2(os.path.join(U, "pch.h"), os.path.join(d, "pch.h"))
            run(["clang++", *flags, f"-I{U}/std", "-x", "c++-header", f"{d}/pch.h", "-o", f"{d}/pch.h.pch"])
            with open(os.path.join(d, "done"), "w"): pass
    return {**base, "libs": d, "pch": os.path.join(d, "pch.h"), "panic": "-Cpanic=unwind", "cxxflags": flags}


class StdBindingsError(Exception):
    """The tool cannot produce working bindings of the standard library (an input like any other)."""


# Only C++ standard headers: what support/ or generated headers must include themselves is not
# hidden by more than the standard library (a separate check compiles headers alone without it).
PCH = "".join(f"#include <{h}>\n" for h in (
    "algorithm", "array", "compare", "concepts", "cstddef", "cstdint", "cstdio", "cstdlib", "cstring",
    "functional", "initializer_list", "iterator", "limits", "memory", "new", "optional", "ostream",
    "iostream", "sstream", "span", "string", "string_view", "tuple", "type_traits", "utility", "variant", "vector"))
