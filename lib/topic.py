"""Cases made of independent items in (nested) modules: each has Rust text, a C++ driver body, probes
(C++ lines which have to be accepted or refused) and expectations about the generated text."""
from gen_core import Item, order
from model import PRELUDE_CC, PRELUDE_RS

INC = ['#include "crubit/core.h"', '#include "crubit/alloc.h"', '#include "crubit/std.h"', '#include "support/rs_std/char.h"', '#include "support/rs_std/str_ref.h"',
       '#include "support/rs_std/slice_ref.h"', '#include "support/rs_std/option.h"', '#include "support/rs_std/result.h"', '#include "support/rs_std/tuple.h"',
       '#include "support/rs_std/unit.h"', '#include "support/rs_std/vec.h"', '#include "support/rs_std/traits.h"', '#include "support/rs_std/iterator_adapter.h"', "#include <cstdio>", "#include <type_traits>"]


class TI(Item):
    """An item in module `mod` (a tuple of names) of crate number `crate`."""
    def __init__(self, id, rust, mod=(), deps=(), cc_decl="", cc="", probes=(), expect=(), kinds=(), desc="", crate=0):
        super().__init__(id, deps, rust, cc_decl, cc, kinds, desc)
        self.mod, self.probes, self.expect, self.crate = tuple(mod), list(probes), list(expect), crate


def modules(items, vis=lambda path: "pub ", attrs=lambda path: ""):
    """Rust text of the items in their modules. Returns text and the line at which each item starts."""
    lines, at = [], {}
    def emit(text): lines.extend(text.split("\n"))
    def go(path):
        here = [i for i in items if i.mod == path]
        subs = sorted({i.mod[:len(path) + 1] for i in items if len(i.mod) > len(path) and i.mod[:len(path)] == path})
        for i in here:
            at[i.id] = len(lines) + 1
            emit(i.rust)
        for s in subs:
            emit(f"{attrs(s)}{vis(s)}mod {s[-1]} {{")
            go(s)
            emit("}")
    go(())
    return "\n".join(lines), at


def render(items, head="#![allow(warnings)]\n", name="lib", flags=(), vis=lambda path: "pub ", attrs=lambda path: "", prelude=True, edition="2021", inspect=False,
           expect=None, report=False, live=True, ns="lib", extra_inc=(), case_extra=None, probe_flags=None):
    items = order(items)
    body, at = modules(items, vis, attrs)
    pre = head + (PRELUDE_RS.replace("pub fn next(", "pub fn count(f: usize) -> usize { CNT[f].load(SeqCst) }\n    pub fn next(") + "\n" if prelude else "")
    off = pre.count("\n")
    crate = {"name": name, "src": pre + body + "\n", "deps": [], "flags": list(flags), "edition": edition, "report": report}
    main = [*INC, f'#include "{name}.h"', *extra_inc, PRELUDE_CC] + [i.cc_decl for i in items if i.cc_decl]
    fns, calls = [], []
    for k, i in enumerate(items):
        if i.cc_main:
            fns.append(f"static void t_{k}() {{\n{i.cc_main}\n}}")
            calls.append(f"t_{k}();" + (f' tst::check_true("values alive after `{i.id}`", {ns}::tst_live() == 0);' if live and prelude else ""))
    main += fns + ["int main() {\n  setvbuf(stdout, nullptr, _IOLBF, 0);\n  " + "\n  ".join(calls) + (f"\n  {ns}::tst_flush();" if prelude else "") + ' puts("DONE");\n  return 0;\n}\n']
    case = {"crates": [crate], "main": "\n".join(main)}
    probes = [p for i in items for p in i.probes]
    if probes: case["probes"] = {"head": "\n".join([*INC, f'#include "{name}.h"', *extra_inc]), "lines": [list(p) for p in probes], **({"flags": probe_flags} if probe_flags else {})}
    ex = [tuple(e) for i in items for e in i.expect]
    # `@LINE(id)` stands for the line at which item `id` starts.
    import re
    ex = [(w, re.sub(r"@LINE\((\w+)(?:\+(\d+))?\)", lambda m: str(at[m[1]] + off + int(m[2] or 0)), rx), lo, hi, why) for w, rx, lo, hi, why in ex]
    if expect: ex += expect(items)
    if ex: case["expect"] = [list(e) for e in ex]
    if case_extra: case.update(case_extra)
    return case
