#!/usr/bin/env python3
"""C23: documentation, source locations and attributes of Rust items arrive intact in C++, whatever their text."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, runner, sweep, topic
from topic import TI
from gen_items import q

HOSTILE = ["*/", "/*", "//", "#define f int", "#include <none>", "??/", '"', "'", 'R"(', "__NEWLINE__", "__COMMENT__", "__HASH_TOKEN__", "__SPACE__", "{", "}", "};", "%s %n", "$x", "\u00e9\u0301", "\U0001f980", "\u202e", "\u200b", "\u2028x", "\x0bx", "\x0cx",
           "C:\\temp\\", "\\u0041", "\\", "#[doc]", "`code`", "<b>", "]]", "[[x]]", ");", "namespace lib {", "static_assert(false);", "\ttab", "   ", "#error no", "__CAPTURE_BEGIN__", "a  b", "R\"x(", "\\\\", "@param x", "\\param", "///", "//!", "***"]
CR = ["a\rstatic_assert(false);", "a\r\nstatic_assert(false);", "\r"]


def rs(s):
    return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else {'"': '\\"', "\\": "\\\\"}.get(c, "\\u{%x}" % ord(c)) for c in s) + '"'


class G:
    def __init__(self, r):
        self.r, self.n, self.items = r, 0, []
        self.mods = [()]
        for _ in range(r.choice([0, 1, 2])): self.mods.append(r.choice(self.mods) + (self.name("m"),))

        # The namespace of a deprecated module and the functions of a deprecated impl block are deprecated.
        self.depmods = {m for m in self.mods if m and r.random() < .25}

    def name(self, k): self.n += 1; return f"{k}{self.n}"

    def doc(self):
        """Rust doc attributes (each on its own lines) and the text they stand for; both empty for one in four."""
        r = self.r
        if r.random() < .2: return "", ""
        mark = self.name("dox")
        lines, text = [], []
        l, t = r.choice([(f"/// {mark}", f" {mark}"), (f"///{mark}", mark), (f'#[doc = "{mark}"]', mark), (f"/** {mark} */", f" {mark}")])
        lines.append(l); text.append(t)
        for _ in range(r.choice([0, 0, 1, 2, 3, 6])):
            t = " ".join(r.choice(HOSTILE + ["word", "another word", ""]) for _ in range(r.randint(0, 3)))
            k = r.random()
            if k < .15: t = r.choice(CR) if r.random() < .4 else "\n".join(r.choice(HOSTILE) for _ in range(r.randint(1, 3)))
            plain = all(c == "\t" or ord(c) >= 32 for c in t) and "\u202e" not in t
            if k >= .15 and plain and r.random() < .6 and not t.startswith("/"): lines.append("///" + t)
            else: lines.append(f"#[doc = {rs(t)}]")
            text.append(t)
        return "\n".join(lines) + "\n", "\n".join(text)

    def attr(self, what):
        """Attributes; returns Rust text and what C++ has to see: (deprecated, note, must_use, reason)."""
        r = self.r
        dep, note, mu, reason, out = False, None, False, None, []
        msg = lambda: self.name("nt") + " " + r.choice(["use the other", 'say "no"', "back\\slash", "100% %s", "a; b } {", "\u00e9\U0001f980", "\ttab", "two\nlines", "__NEWLINE__ x", "??/ ??=", "<T>", "'q'", "R\"(x)\"", "//x", "/* x", "\x01\x7f", "#x", "__COMMENT__"])
        if r.random() < .35:
            dep = True
            if r.random() < .7:
                note = msg()
                out.append(r.choice([f"#[deprecated(note = {rs(note)})]", f'#[deprecated(since = "1.0", note = {rs(note)})]', f"#[deprecated = {rs(note)}]"]))
            else: out.append(r.choice(["#[deprecated]", '#[deprecated(since = "0.1")]']))
        if what in ("fn", "type") and r.random() < .35:
            mu = True
            if r.random() < .6: reason = msg(); out.append(f"#[must_use = {rs(reason)}]")
            else: out.append("#[must_use]")
        if r.random() < .3: out.append(r.choice(["#[allow(unused)]", "#[cfg(all())]", "#[cfg_attr(all(), allow(dead_code))]"] + (["#[inline]", "#[cold]"] if what == "fn" else [])))
        r.shuffle(out)
        return "".join(o + "\n" for o in out), (dep, note, mu, reason)

    def block(self, decl, what, attrs=True):
        """Docs, attributes (in any order) and the declaration: text, line offset of the declaration, docs, attrs."""
        d, text = self.doc()
        a, sem = self.attr(what) if attrs else ("", (False, None, False, None))
        pre = d + a if self.r.random() < .7 else a + d
        # A `///` comment may not follow on the line of something else; all of these end in a newline.
        return pre + decl, pre.count("\n"), text, sem

    def add(self, n, mod, text, at, facts, **kw):
        it = TI(n, text, mod, **kw)
        it.depmods = sorted(self.depmods)
        # So is their namespace.
        if any(tuple(mod[:k]) in self.depmods for k in range(len(mod) + 1)): it.probes = [(p[0], False, "deprecated") for p in it.probes]
        it.facts = facts  # [(line offset, regex of the declaration, doc text, what)]
        self.items.append(it)

    def probes(self, use, sem, ok_use=None):
        dep, note, mu, reason = sem
        out = []
        tok = lambda s: s.split(" ")[0]
        if dep: out.append((use if not mu else ok_use, False, "deprecated" + (": " if note else "")) if not note else (use if not mu else ok_use, False, tok(note)))
        elif mu: out += [(use, False, tok(reason) if reason else "nodiscard"), (ok_use, True)]
        else: out.append((use, True))
        return out

    def fn(self):
        r = self.r; m = r.choice(self.mods); n = self.name("ffn"); k = r.randint(0, 10**6)
        never = r.random() < .1
        sig = f"pub fn {n}(a: u32) -> u64 {{ a as u64 + {k} }}" if not never else f"pub fn {n}(a: u32) -> ! {{ loop {{}} }}"
        if r.random() < .3: sig = sig.replace("(a: u32)", "(\n    a: u32\n)")
        t, off, doc, sem = self.block(sig, "fn")
        if never: sem = (sem[0], sem[1], False, None); t = re.sub(r"#\[must_use.*\]\n", lambda x: "\n", t)
        p = [(f"[]() -> int {{ {q(m, n)}(1); }}();", not sem[0])] if never else self.probes(f"{q(m, n)}(1);", sem, f"(void){q(m, n)}(1);")
        cc = "" if never else f'tst::check("{n}", tst::ser({q(m, n)}(7)), "{7 + k}");'
        self.add(n, m, t, off, [(off, rf"^(?!//|inline|namespace).*\b{n}\(", doc, "function")], probes=p, cc=cc, kinds={"fn"} | ({"noreturn"} if never else set()) | ({"in a deprecated module"} if m in self.depmods else set()))

    def adt(self):
        r = self.r; m = r.choice(self.mods); n = self.name("Adt"); kind = r.choice(["struct", "struct", "enum", "enum", "renum", "union"])
        t, off, doc, sem = self.block(f"pub {'enum' if kind == 'renum' else kind} {n} {{", "type" if kind != "union" else "union")
        if kind == "renum": t = "#[repr(C)]\n" + t; off += 1
        if kind == "union": t = "#[repr(C)]\n#[derive(Clone, Copy)]\n" + t; off += 2
        facts = [(off, rf"^(struct|union|class) .*\b{n} final", doc, kind)]
        line = off + 1; probes, cc = [], []
        if kind in ("struct", "union"):
            for j in range(r.randint(1, 3)):
                f = self.name("fld"); ft, fo, fd, fs = self.block(f"pub {f}: u32,", "field", attrs=False)
                facts.append((line + fo, rf"^(?!//|inline|namespace).*\b{f};", fd, "field")); t += "\n" + ft; line += fo + 1
                last = f
            t += "\n}"; line += 1
            mk = self.name("mk")
            v = r.randint(0, 2**32 - 1)
            init = f"{n} {{ {last}: x }}" if kind == "union" else f"{n} {{ " + ", ".join(f"{x}: x" for x in re.findall(r"pub (fld\d+):", t)) + " }"
            t += f"\npub fn {mk}(x: u32) -> {n} {{ {init} }}"; line += 1
            cc.append(f'{{ auto s = {q(m, mk)}({v}u); tst::check("{n}.{last}", tst::ser(s.{last}), "{v}"); }}')
            if sem[2]: probes.append((f"{q(m, mk)}(1);", False, sem[3].split(" ")[0] if sem[3] else "nodiscard") if not sem[0] else (f"(void)sizeof({q(m, n)}*);", False))
        else:
            vs = []
            for j in range(r.randint(2, 4)):
                w = self.name("Var"); pay = r.random() < .5
                vt, vo, vd, _ = self.block(f"{w}(u16)," if pay else f"{w},", "variant", attrs=False)
                facts.append((line + vo, rf"^(?!//|inline|namespace).*\bMake{w}\(", vd, "variant")); t += "\n" + vt; line += vo + 1
                vs.append(w)
            t += "\n}"; line += 1
            if sem[2]: probes.append((f"{q(m, n)}::Make{vs[0]}({'1' if 'u16' in [l for l in t.split(chr(10)) if l.startswith(vs[0])][0] else ''});", False, sem[3].split(" ")[0] if sem[3] else "nodiscard") if not sem[0] else (f"(void)sizeof({q(m, n)}*);", False))
        probes.append((f"(void)sizeof({q(m, n)});", not sem[0], *([(sem[1] or " ").split(" ")[0] or "deprecated"] if sem[0] else [])))
        # Methods
        idep = r.random() < .25; inote = self.name("nt") if r.random() < .5 else None
        t += "\n" + ((f'#[deprecated(note = "{inote}")] ' if inote else "#[deprecated] ") if idep else "") + f"impl {n} {{"; line += 1
        for j in range(r.randint(0, 3)):
            f = self.name("mth"); k = r.randint(0, 10**6)
            recv = r.choice(["&self", "&self", ""])
            ft, fo, fd, fs = self.block(f"pub fn {f}({recv}) -> u32 {{ {k} }}", "fn")
            facts.append((line + fo, rf"^(?!//|inline|namespace).*\b{f}\(", fd, "method")); t += "\n" + ft; line += fo + 1
            if idep: fs = (True, None if fs[0] else inote, *fs[2:])
            if not sem[0]:
                call = f"{q(m, n)}::{f}()" if not recv else f"static_cast<const {q(m, n)}*>(nullptr)->{f}()"
                probes += self.probes(call + ";", fs, f"(void){call};")
            if not recv: cc.append(f'tst::check("{n}::{f}", tst::ser({q(m, n)}::{f}()), "{k}");')
        t += "\n}"
        self.add(n, m, t, off, facts, probes=probes, cc="\n".join(cc), kinds={kind} | ({"deprecated impl block"} if idep else set()))

    def alias(self):
        r = self.r; m = r.choice(self.mods); n = self.name("Als")
        t, off, doc, sem = self.block(f"pub type {n} = u16;", "alias")
        self.add(n, m, t, off, [(off, rf"^using {n}\b", doc, "alias")], kinds={"alias"}, cc=f"static_assert(std::is_same_v<{q(m, n)}, std::uint16_t>);",
                 probes=[(f"(void)sizeof({q(m, n)});", not sem[0], *([(sem[1] or " ").split(" ")[0] or "deprecated"] if sem[0] else []))])

    def trait(self):
        r = self.r; m = r.choice(self.mods); n = self.name("Trt")
        t, off, doc, sem = self.block(f"pub trait {n} {{ fn q(&self) -> u32; }}", "trait", attrs=False)
        self.add(n, m, t, off, [(off, rf"^struct .*\b{n}\{{", doc, "trait")], kinds={"trait"})


def gen(seed):
    g = G(random.Random(seed))
    for _ in range(26): g.r.choice([g.fn, g.fn, g.adt, g.adt, g.adt, g.alias, g.trait])()
    return g.items


def render(items):
    dm = {m for i in items for m in i.depmods}
    return topic.render(items, attrs=lambda path: "#[deprecated] " if path in dm else "", probe_flags=["-Wno-everything", "-Wdeprecated-declarations", "-Werror=deprecated-declarations", "-Wunused-result", "-Werror=unused-result", "-Wreturn-type", "-Werror=return-type"],
                        case_extra={"inspect": True, "facts": facts_of(items)})


def facts_of(items):
    items2 = topic.order(items)
    body, at = topic.modules(items2)
    pre = "#![allow(warnings)]\n" + (topic.PRELUDE_RS.replace("pub fn next(", "pub fn count(f: usize) -> usize { CNT[f].load(SeqCst) }\n    pub fn next(") + "\n")
    off = pre.count("\n")
    return [[at[i.id] + off + o, rx, doc, what] for i in items2 for o, rx, doc, what in i.facts]


def norm(s):
    """The lines of a text, without the space at their ends."""
    # A line that would end in a backslash may get something harmless behind it.
    ls = [re.sub(r"(?<=\\)[\s/.]*$", "", l) for l in re.split(r"\r\n|[\r\n]", s)]
    return [l.rstrip(" \t") for l in ls]


def judge(case, res):
    """Each declaration follows the comment with its documentation and the line of its definition."""
    lines = res["headers"]["lib"].split("\n")
    for line, rx, doc, what in case["facts"]:
        hits = [k for k, l in enumerate(lines) if re.search(rx, l)]
        if not hits: return f"no declaration like /{rx}/ in the header ({what})"
        k = hits[0]; got = []
        while k > 0 and lines[k - 1].startswith("//"):
            k -= 1; got.insert(0, lines[k][2:])
        loc = f"Generated from: lib.rs;l={line}"
        want = norm(doc)
        g = [x for l in got for x in norm(l[1:] if l[:1] == " " else l)]
        while want and not want[-1]: want.pop()
        tail = g.pop().replace(": ./lib.rs", ": lib.rs") if g else ""
        while g and not g[-1]: g.pop()
        if tail != loc or (g != want and not (not doc and not any("Generated from" in x for x in g))):
            return f"{what} /{rx}/ of line {line}: documentation in the header is {got!r}, want the text {doc!r} and line {line}"
        mark = re.match(r" ?(dox\d+)\b", doc)
        if mark and len(re.findall(rf"\b{mark[1]}\b", res["headers"]["lib"])) != 1: return f"documentation {mark[1]} of {what} is in the header more than once"
    return None


def verify(items, case, res): return judge(case, res)


def replay(ctx, rep):
    base = build.e2e_base()
    res = sweep.run_one(base, rep["case"])
    bad = judge(rep["case"], res) if res["ok"] else res["detail"]
    if bad: raise runner.Violation(bad, rep)


def check(ctx):
    base = build.e2e_base()
    ctx.rule = "a case is one documented or attributed item of a generated crate (hostile texts, every attribute form, nested modules); non-trivial: an item with documentation or attributes, distinct by its text"
    def classify(items, case, res):
        for i in items:
            ctx.count(len(i.facts) + len(i.probes))
            for k in i.kinds: ctx.cls(k)
            if "dox" in i.rust or "deprecated" in i.rust or "must_use" in i.rust: ctx.note(i.rust); ctx.sample(i.rust, 8)
    n = ctx.n(24, 700)
    sweep.sweep(ctx, base, [f"{ctx.seed}:{ctx.prop}:{k}" for k in range(n)], gen, render, classify, verify)


if __name__ == "__main__":
    sys.exit(runner.main("C23", check, replay))
