"""Common part of all checks: verdicts, known findings, evidence, replay files."""
import json, os, random, sys, time, traceback, fnmatch

from . import build, driver
from .driver import Crash, hx, un, counters

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Inconclusive(Exception):
    pass


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def short(x, n=1500):
    """x with its long strings cut, for the evidence"""
    if isinstance(x, (str, bytes)):
        return x if len(x) <= n else "%s... (%d)" % (x[:n] if isinstance(x, str) else repr(x[:n]), len(x))
    if isinstance(x, dict):
        return {k: short(v, n) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [short(v, n) for v in x[:300]] + (["... (%d)" % len(x)] if len(x) > 300 else [])
    return x


class Check:
    def __init__(self, pid, level="exploration"):
        self.pid = pid
        self.level = level
        self.tier = tier()
        self.seed = seed()
        self.r = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.viol = {}            # key -> dict
        self.evals = 0
        self.distinct = set()
        self.ndistinct = 0
        self.samples = []
        self.cov = {}
        self.rule = ""
        self.assumptions = []
        self.trees = {}

    # ---- workload size
    def n(self, quick, thorough=None):
        if self.tier == "thorough":
            return thorough if thorough is not None else quick * 8
        return quick

    def tree(self, variant):
        if variant not in self.trees:
            self.trees[variant] = build.build(variant)
        return self.trees[variant]

    # ---- coverage book-keeping
    def saw(self, ident=None, nontrivial=True):
        """one evaluation; ident identifies the case for the distinct count"""
        self.evals += 1
        if nontrivial:
            if ident is None:
                self.ndistinct += 1
            else:
                self.distinct.add(hash(ident))

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    # ---- verdicts
    def violation(self, key, what, **replay):
        """key: stable identity of the failure (matched against the known findings)"""
        if key in self.viol:
            self.viol[key]["count"] += 1
            return
        self.viol[key] = dict(key=key, what=what, count=1, replay=replay)

    def crash(self, c, what, **replay):
        if c.kind == "skipped":
            return
        if c.kind.startswith("exit") or c.kind == "?":
            # the driver itself gave up: not a statement about the repository unless it was killed
            pass
        self.violation("crash:" + c.key, "%s: %s\n%s" % (c.key, what, c.log[-6000:]), **replay)

    def run(self, variant, cases, **kw):
        t = self.tree(variant)
        return driver.run_cases(t, cases, **kw)

    # ---- end of the run
    def finish(self):
        known = {}
        if os.path.exists(KNOWN):
            for ln in open(KNOWN):
                ln = ln.strip()
                if not ln:
                    continue
                e = json.loads(ln)
                if e.get("property") == self.pid and e.get("status") == "known":
                    known[e["key"]] = e
        bad = []
        for k, v in self.viol.items():
            m = None
            for kk, e in known.items():
                if k == kk or fnmatch.fnmatchcase(k, kk):
                    m = e
                    break
            if m:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, m["what"]))
            else:
                bad.append(v)
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct) + self.ndistinct,
                   rule=self.rule, samples=self.samples)
        cov.update(self.cov)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(bad))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(short(ev), f, indent=1, default=str)
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        for i, v in enumerate(bad[:20]):
            p = os.path.join(VERIF, "replay", "%s-%d.json" % (self.pid, i))
            with open(p, "w") as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, **v), f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  [%s] x%d %s" % (v["key"], v["count"], v["what"][:1500]))
        if driver.state["late"] and not bad:
            raise Inconclusive("too slow: %d cases were given up after %d s" % (driver.state["late"], driver.DEADLINE_S))
        if self.evals == 0 or not (self.distinct or self.ndistinct):
            if not bad:
                raise Inconclusive("nothing was observed")
        print("%s: %d evaluations, %d distinct, %d violations, %.1fs" %
              (self.pid, self.evals, len(self.distinct) + self.ndistinct, len(bad), time.time() - self.t0))
        return 1 if bad else 0


def main(pid, fn, level="exploration"):
    ck = Check(pid, level)
    try:
        fn(ck)
        rc = ck.finish()
    except build.BuildError as e:
        print("INCONCLUSIVE %s: %s" % (pid, e))
        rc = 2
    except Inconclusive as e:
        print("INCONCLUSIVE %s: %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        # a violation seen before the harness failed is still a violation
        rc = 2
        if ck.viol:
            try:
                rc = ck.finish() or 2
            except Exception:
                rc = 2
    sys.stdout.flush()
    sys.exit(rc)
