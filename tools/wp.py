"""Helper: writes one tools/props/<ID>.json. Used as `from wp import P` by ad-hoc scripts."""
import json, os
D = os.path.dirname(os.path.abspath(__file__)) + "/props/"
def P(id, title, statement, over, text, why, files, mechanism, observe_at, technique, note, **kw):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=[observe_at] if isinstance(observe_at, str) else observe_at))
    d["check"] = dict(technique=technique, note=note, **kw)
    json.dump(d, open(D + id + ".json", "w"), indent=0)
