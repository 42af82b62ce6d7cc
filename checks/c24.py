#!/usr/bin/env python3
"""C24: the Kythe metadata of a header ties each name it declares to the Rust identifier it comes from."""
import base64, json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, e2e, runner
from runner import Violation, pmap

WORDS = ["alpha", "beta", "gamma", "delta", "kappa", "sigma", "omega", "theta", "rho", "tau"]
TYS = ["u8", "i32", "u64", "bool", "f64", "Option<u16>", "(u8, i64)", "&'static str", "String", "Vec<u8>", "char", "[u8; 3]"]
KEYWORDS = ["new", "delete", "class", "operator", "template", "int", "namespace", "register", "switch", "typename", "this", "private", "signed"]


class G:
    def __init__(self, seed):
        self.r, self.n, self.want, self.kinds = random.Random(seed), 0, {}, set()
        self.gen_doc = self.r.random() < .7

    def name(self, short=False):
        """Names do not repeat, so a name identifies its item; many are short and occur in other text."""
        r = self.r; self.n += 1
        if short and r.random() < .3: return r.choice("abcdefghijklmnopqrstuvwxyz") + str(self.n)
        return r.choice(WORDS) + r.choice(["", "_of", "_x"]) + str(self.n)

    def camel(self): self.n += 1; return self.r.choice(WORDS).title() + str(self.n)

    def doc(self, name, ind=""):
        r = self.r
        if not self.gen_doc or r.random() < .5: return ""
        text = r.choice([f"{name}", f"Calls {name}, then {name} again.", "Nothing to see.", f"`{name}`: é ü 漢字 {name}", "a b c d e f g", f"See {name}.\n\n{name} is not {name}x.", "// Generated by hand", "Long " + "words and more words " * r.randint(3, 12) + name, f"Use `{name}()` /* or {name} */ ", f"\"{name}\"", "\\ backslash " + name, "Generated from: " + name, name + "\\"])
        self.kinds.add("doc comment")
        if name in text: self.kinds.add("doc comment which names the item")
        return "".join(f"{ind}/// {l}\n" for l in text.split("\n"))

    def item(self, name, cpp=None, must=True): self.want[name] = (cpp or name, must)

    def fn(self, ind="", self_=None, vis="pub "):
        r = self.r; n = self.name(True)
        ps = ", ".join(([self_] if self_ else []) + [f"{self.name(True)}: {r.choice(TYS)}" for _ in range(r.randint(0, 4))])
        ret = r.choice(["", "", " -> u32", " -> Option<u8>", " -> (u8, u16)"])
        self.item(n); self.kinds.add("method" if self_ else "function")
        return f"{self.doc(n, ind)}{ind}{vis}fn {n}({ps}){ret} {{ todo!() }}\n"

    def keyword_fn(self, ind):
        n = self.r.choice([k for k in KEYWORDS if k not in self.want])
        self.item(n, n + "_"); self.kinds.add("escaped name")
        return f"{self.doc(n, ind)}{ind}pub fn r#{n}(&self) {{}}\n" if n not in ("new", "delete", "class", "operator", "template", "int", "namespace", "register", "switch", "signed", "private") else f"{self.doc(n, ind)}{ind}pub fn {n}(&self) {{}}\n"

    def struct(self):
        r = self.r; n = self.camel(); self.item(n); self.kinds.add("struct")
        out = self.doc(n) + r.choice(["", "", "#[derive(Clone, Default)] ", "#[derive(Clone, Copy)] #[repr(C)] "])
        tys = ["u8", "i32", "u64", "bool"] if "Copy" in out else [t for t in TYS if t not in ("&'static str", "[u8; 3]") or "Default" not in out]
        if r.random() < .15:
            m = r.randint(1, 3); out += f"pub struct {n}({', '.join('pub ' + r.choice(tys) for _ in range(m))});\n"; self.kinds.add("tuple struct")
        else:
            fs = []
            for _ in range(r.randint(0, 4)):
                f = self.name(True); p = r.random() < .8
                fs.append(f"{self.doc(f, '    ')}    {'pub ' if p else ''}{f}: {r.choice(tys)},\n")
                self.item(f, None, True if p else None)
                if p: self.kinds.add("field")
            out += f"pub struct {n} {{\n{''.join(fs)}}}\n"
        for _ in range(r.choice([0, 1, 1, 2])):
            ms = "".join(self.fn("    ", r.choice(["&self", "&mut self", "self", None])) for _ in range(r.randint(1, 3)))
            if r.random() < .2 and len(self.want) < 200: ms += self.keyword_fn("    ")
            out += f"impl {n} {{\n{ms}}}\n"
        return out

    def union(self):
        n, a, b = self.camel(), self.name(True), self.name(True)
        for x in (n, a, b): self.item(x)
        self.kinds.add("union")
        return f"{self.doc(n)}#[repr(C)] pub union {n} {{ pub {a}: u32,\n{self.doc(b, '    ')} pub {b}: u8 }}\n"

    def enum(self):
        n = self.camel(); self.item(n); self.kinds.add("enum"); vs = [self.camel() for _ in range(self.r.randint(1, 4))]
        for v in vs: self.want[v] = (v, None)
        return f"{self.doc(n)}pub enum {n} {{ {', '.join(v + self.r.choice(['', '(u8)', ' { k: u32 }']) for v in vs)} }}\n"

    def const(self):
        n = self.name().upper(); self.item(n, None, False); self.kinds.add("const")
        return f"{self.doc(n)}pub const {n}: {self.r.choice(['u32 = 7', 'i64 = -9', 'bool = true'])};\n"

    def alias(self):
        n = self.camel(); self.item(n, None, False); self.kinds.add("alias")
        return f"{self.doc(n)}pub type {n} = {self.r.choice(['u32', 'i64', 'f32'])};\n"

    def bad(self):
        n = self.name(); self.kinds.add("unsupported item"); self.item(n, None, None)
        return self.r.choice([f"pub fn {n}<T>(t: T) {{}}\n", f"pub fn {n}(x: &'static [&'static dyn Fn()]) {{}}\n", f"{self.doc(n)}pub struct {n}<T>(pub T);\n"])

    def macro(self):
        n = self.name(); self.item(n); self.kinds.add("item of a macro")
        return f"macro_rules! mk{n} {{ ($n:ident) => {{ pub fn $n() -> u8 {{ 1 }} }} }}\nmk{n}!({n});\n"

    def trait(self):
        r = self.r; t, n = self.camel(), self.camel(); self.item(t, None, False); self.item(n); self.kinds.add("trait implementation")
        ms = [(self.name(True), r.choice(["&self", "&mut self", "self"])) for _ in range(r.randint(1, 3))]
        for m, _ in ms: self.item(m, None, None)
        return (f"{self.doc(t)}pub trait {t} {{\n{''.join(f'    fn {m}({s}) -> u8;' + chr(10) for m, s in ms)}}}\n{self.doc(n)}#[derive(Clone, Default)] pub struct {n} {{ pub {self.pubname()}: u8 }}\n"
                f"impl {t} for {n} {{\n{''.join(self.doc(m, '    ') + f'    fn {m}({s}) -> u8 {{ 3 }}' + chr(10) for m, s in ms)}}}\n")

    def pubname(self):
        n = self.name(True); self.item(n); return n

    def module(self, depth):
        r = self.r; out = []
        for _ in range(r.randint(2, 6)):
            out.append(r.choice([self.fn, self.fn, self.struct, self.struct, self.struct, self.union, self.enum, self.const, self.alias, self.bad, self.macro, self.trait])())
        if depth < 2:
            for _ in range(r.choice([0, 0, 1, 2])):
                m = "m" + str(len(self.want)) + "_"; out.append(f"pub mod {m} {{\n{self.module(depth + 1)}}}\n")
        r.shuffle(out)
        return "\n".join(out) if r.random() < .8 else "".join(x.replace("\n", "\n\n", 1) for x in out)


def gen(seed):
    g = G(seed); r = g.r
    src = {"lib.rs": "#![allow(warnings)]\n" + g.module(0)}
    if r.random() < .5: src["part.rs"] = g.module(1); src["lib.rs"] = "#![allow(warnings)]\npub mod part;\n" + src["lib.rs"].split("\n", 1)[1]; g.kinds.add("two files")
    if r.random() < .5: src["lib.rs"] = "// é漢\n" + src["lib.rs"]
    for f in list(src):
        k = r.random()
        if k < .15: src[f] = src[f].replace("\n", "\r\n"); g.kinds.add("CRLF")
        elif k < .25: src[f] = "\ufeff" + src[f]; g.kinds.add("byte order mark")
    flags = ["--kythe-annotations"]
    if r.random() < .4: flags += ["--clang-format-exe-path=/usr/bin/clang-format"]; g.kinds.add("clang-format")
    if r.random() < .4: flags += [f"--kythe-default-corpus={r.choice(['github.com/a/b', 'x', 'corpus two'])}"]
    if r.random() < .4: flags += ["--h-out-include-guard=GUARD_X_"]
    if r.random() < .3: flags += ["--crubit-debug-path-format=https://cs/{path}#L{line}"]; g.kinds.add("crubit-debug-path-format")
    if r.random() < .3: flags += ["--is-golden-test"] if False else ["--extra-rs-srcs-include=some/file.h"]
    return {"seed": str(seed), "files": src, "flags": flags, "want": g.want, "kinds": sorted(g.kinds)}


def blank(text):
    """The text with comments and string literals blanked, same length in bytes."""
    def w(m): return re.sub(r"[^\n]", lambda c: " " * len(c[0].encode()), m[0])
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', w, text, flags=re.S)


def run(base, case):
    with e2e.Workdir() as d:
        for n, t in case["files"].items(): open(f"{d}/{n}", "w", newline="").write(t)
        c = {"name": "lib", "src": case["files"]["lib.rs"], "deps": [], "flags": case["flags"]}
        rc, out, err = e2e.sh([build.rustc(), "--crate-type=rlib", "--edition=2021", e2e.panic(base), "--emit=metadata", "--crate-name=lib", "lib.rs", "--out-dir", d, "--cap-lints=allow"], d)
        if rc: return e2e.res("rust_input", None, err[-2500:])
        rc, out, err = e2e.sh(e2e.tool_argv(base, d, c, [c]), d, build.tool_env())
        if rc: return e2e.res("generate", False, f"cc_bindings_from_rs exited {rc}:\n{err[-2500:]}")
        h = open(f"{d}/lib.h", newline="").read()
        last = [l for l in h.rstrip("\n").split("\n")][-1]
        m = re.fullmatch(r"// This file contains Kythe metadata\. (\S+)", last)
        if not m: return e2e.res("kythe", False, f"the header does not end with the metadata: {last[:200]!r}")
        meta = json.loads(base64.b64decode(m[1], validate=True))
        if meta.get("type") != "kythe0": return e2e.res("kythe", False, f"type of the metadata: {meta.get('type')}")
        corpus = next((f.split("=", 1)[1] for f in case["flags"] if "corpus" in f), "corpus")
        hb, code = h.encode(), blank(h).encode()
        assert len(hb) == len(code)
        src = {f: t.encode() for f, t in case["files"].items()}
        seen = {}
        idc = rb"[A-Za-z0-9_]"
        for x in meta["meta"]:
            v, tb, te, sb, se = x["source_vname"], x["target_begin"], x["target_end"], x["source_begin"], x["source_end"]
            what = f"rule {x}: "
            if x["type"] != "anchor_anchor" or x["edge"] != "/kythe/edge/imputes" or v["language"] != "rust" or v["corpus"] != corpus: return e2e.res("kythe", False, what + "unexpected fields")
            if v["path"] not in src: return e2e.res("kythe", False, what + "no such file")
            t, s = code[tb:te].decode("utf-8", "replace"), src[v["path"]][sb:se].decode("utf-8", "replace")
            around = hb[max(0, tb - 70):te + 20].decode("utf-8", "replace")
            if re.match(idc, code[te:te + 1]) or re.match(idc, code[tb - 1:tb]) or not t.strip(): return e2e.res("kythe", False, f"{what}the target is not an identifier of the header's code, but {hb[tb:te]!r} in ...{around!r}")
            s = s[2:] if s.startswith("r#") else s
            if s not in case["want"]:
                if re.fullmatch(r"\d+|__field\d+|[A-Z]\w*|\w+: .*|pub .*|\S+", s) and t.startswith("__field"): continue
                return e2e.res("kythe", False, f"{what}the source is {src[v['path']][sb:se]!r}, which is not the name of an item; the target is {t!r}")
            cpp = case["want"][s][0]
            if t not in (cpp, "Make" + cpp): return e2e.res("kythe", False, f"{what}ties {t!r} of the header (in ...{around!r}) to `{s}` of {v['path']}")
            if s in seen: return e2e.res("kythe", False, f"{what}a second rule for `{s}`")
            seen[s] = x
        for s, (cpp, must) in case["want"].items():
            if must and s not in seen and re.search(rf"(?<![A-Za-z0-9_]){re.escape(cpp)}(?![A-Za-z0-9_])", code.decode()): return e2e.res("kythe", False, f"no rule for `{s}`, which the header declares")
        return e2e.res("done", True, out=str(len(seen)))


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one name which the metadata of a generated header has to tie to its place; non-trivial: all, distinct by crate and name"
    seeds = [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(ctx.n(150, 6000))]
    def one(seed):
        case = gen(seed); return seed, case, run(base, case)
    invalid = 0
    for seed, case, r in pmap(one, seeds, ctx.jobs):
        if r["ok"] is None:
            invalid += 1
            if invalid * 10 > len(seeds): raise build.BuildError(r["detail"])
            continue
        if not r["ok"]: raise Violation(f"seed {seed}: {r['detail']}", {"property": ctx.prop, "case": case, "detail": r["detail"][:3000]})
        ctx.count(int(r["out"]))
        for s in case["want"]: ctx.note(f"{seed} {s}")
        for k in case["kinds"]: ctx.cls(k)
        ctx.sample({"flags": case["flags"], "names": r["out"], "kinds": case["kinds"]}, 8)


def replay(ctx, rep):
    r = run(build.e2e_base(), rep["case"])
    if not r["ok"]: raise Violation(r["detail"], rep)


if __name__ == "__main__":
    sys.exit(runner.main("C24", check, replay))
