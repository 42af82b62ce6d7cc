"""What every check shares: seed and tier, evidence, replay files, known findings, shrinking."""
import hashlib, json, os, random, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor, as_completed

import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")


class Violation(Exception):
    def __init__(self, detail, replay):
        super().__init__(detail)
        self.detail, self.replay = detail, replay


class Ctx:
    def __init__(self, prop, replay=None):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.t0 = time.time()
        self.replay = replay
        self.samples, self.extra = [], {}
        self.evaluations, self.nontrivial, self.classes = 0, set(), {}
        self.rule = ""
        self.jobs = int(os.environ.get("VERIF_JOBS", "8"))

    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def rng(self, *salt):
        return random.Random(f"{self.seed}:{self.prop}:" + ":".join(map(str, salt)))

    def count(self, k=1):
        self.evaluations += k

    def note(self, key):
        """A distinct non-trivial case."""
        self.nontrivial.add(hashlib.sha256(key.encode()).digest()[:12] if isinstance(key, str) else key)

    def cls(self, name, k=1):
        self.classes[name] = self.classes.get(name, 0) + k

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s if not isinstance(s, str) else s[:1500])

    def known(self):
        try:
            k = json.load(open(KNOWN))
        except FileNotFoundError:
            return []
        return [f for f in k.get("findings", []) if f["property"] == self.prop]

    def write_evidence(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.nontrivial), "rule": self.rule,
               "samples": self.samples, "classes": dict(sorted(self.classes.items()))}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2)}
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)

    def report(self, v):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        body = json.dumps(v.replay, indent=1, sort_keys=True)
        path = os.path.join(VERIF, "replays", f"{self.prop}-{hashlib.sha256(body.encode()).hexdigest()[:12]}.json")
        with open(path, "w") as f:
            f.write(body)
        print(v.detail)
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)


def main(prop, fn, replay_fn=None):
    replay = None
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        replay = json.load(open(sys.argv[2]))
    ctx = Ctx(prop, replay)
    try:
        for f in ctx.known():
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
        if replay is not None and replay_fn is not None:
            replay_fn(ctx, replay)
            print("the replayed case passes")
            return 0
        fn(ctx)
        ctx.write_evidence()
        print(f"{prop}: held on {ctx.evaluations} evaluations ({len(ctx.nontrivial)} distinct non-trivial) in {time.time() - ctx.t0:.1f} s")
        return 0
    except Violation as v:
        ctx.write_evidence()
        ctx.report(v)
        return 1
    except build.StdBindingsError as e:
        # The bindings of core/alloc/std can't be generated or compiled: no crate gets bindings.
        ctx.write_evidence()
        ctx.report(Violation(f"bindings of the standard library are broken: {e}", {"property": prop, "kind": "std", "detail": str(e)[:4000]}))
        return 1
    except build.BuildError as e:
        print(f"BUILD ERROR: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


def pmap(fn, xs, jobs=8):
    """Ordered parallel map which stops submitting after the first exception."""
    xs = list(xs)
    with ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(fn, x) for x in xs]
        try:
            for f in futs:
                yield f.result()
        except BaseException:
            for f in futs: f.cancel()
            raise
