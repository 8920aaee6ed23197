"""Check context, verdicts, evidence and known findings."""
import json
import os
import time
import traceback

from . import clock, dump, mir
from .decide import Undecided
from .values import Unsupported

ROOT = dump.ROOT
PUBLIC_ROOTS = ("lunify::unify",)


class Violation:
    def __init__(self, key, where, rule, msg, detail=None):
        self.key = key          # stable: no line numbers
        self.where = where      # file:line / function
        self.rule = rule
        self.msg = msg
        self.detail = detail


class Anchor(Exception):
    """the code no longer has a construct the check needs: fail closed"""


class Ctx:
    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self._progs = {}
        self.cache = {}

    def prog(self, features=""):
        p = self._progs.get(features)
        if p is None:
            p = mir.Program(dump.dump(features), features or "default")
            self._progs[features] = p
        return p


class Result:
    def __init__(self, explanation, rule):
        self.explanation = explanation
        self.rule = rule
        self.coverage = {}
        self.violations = []
        self.assumptions = []
        self.samples = []
        self.obligations = 0
        self.discharged = 0
        self.undec = []

    def undecided(self, key, where, why):
        """the analysis does not decide this obligation on this code: reported, never an alarm"""
        self.undec.append((key, where, why))

    def ob(self, ok, key=None, where="", rule="", msg="", detail=None):
        """count an obligation; record a violation if it does not hold"""
        self.obligations += 1
        if ok:
            self.discharged += 1
        else:
            self.violations.append(Violation(key or rule, where, rule, msg, detail))
        return ok

    def bad(self, key, where, rule, msg, detail=None):
        self.violations.append(Violation(key, where, rule, msg, detail))

    def floor(self, name, got, want):
        """instances analysed must not fall below what was confirmed by hand"""
        self.coverage[name] = got
        if got < want:
            self.bad(f"floor:{name}", "-", "coverage floor", f"only {got} instances of '{name}' found, expected at least {want}: the analysis lost its anchors")


def known_findings():
    out = {}
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("status") == "finding":
                        out[(d["property"], d["key"])] = d
    return out


def run(pid, fn, tier, seed):
    t0 = time.time()
    ctx = Ctx(tier, seed)
    clock.start(tier)
    try:
        with clock.limited(whole=True):
            res = fn(ctx)
    except Anchor as e:
        res = Result("analysis stopped: a required anchor is missing", "fail closed")
        res.bad("anchor:" + str(e).split(":")[0], "-", "missing anchor", str(e))
    except dump.DumpError:
        raise
    except Exception as e:
        # the analysis could not be carried out on this code: no verdict, and no alarm
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res = Result("the analysis could not be carried out on this code", "none")
        res.undecided("analysis", f"{os.path.basename(tb.filename)}:{tb.lineno}", f"{type(e).__name__}: {e}")
    finally:
        dump.cleanup()
    kf = known_findings()
    new, known = [], []
    seen = set()
    for v in res.violations:
        if v.key in seen:
            continue
        seen.add(v.key)
        (known if (pid, v.key) in kf else new).append(v)
    for v in known:
        print(f"KNOWN-FINDING: property={pid} {kf[(pid, v.key)]['what']}")
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    cov = {"explanation": res.explanation, "rule": res.rule, "obligations": res.obligations, "discharged": res.discharged}
    cov.update(res.coverage)
    cov["undecided"] = [f"{k} ({w}): {y}"[:300] for k, w, y in res.undec[:40]]
    if res.samples:
        cov["samples"] = res.samples[:12]
    if known:
        cov["known_findings"] = [v.key for v in known]
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
        "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1, default=str)
    rep = os.path.join(ev, pid + ".report.txt")
    if new:
        with open(rep, "w") as f:
            for v in new:
                f.write(f"[{v.rule}] {v.where}: {v.msg}\n    key: {v.key}\n")
                if v.detail:
                    f.write("    " + str(v.detail).replace("\n", "\n    ") + "\n")
        for v in new[:40]:
            print(f"  [{v.rule}] {v.where}: {v.msg}")
        print(f"VIOLATION property={pid} replay=evidence/{pid}.report.txt")
        return 1
    for k, w, y in res.undec[:20]:
        print(f"  UNDECIDED {k} ({w}): {y[:200]}")
    if os.path.exists(rep):
        os.remove(rep)
    print(f"OK property={pid}: {res.discharged}/{res.obligations} obligations discharged ({doc['wall_s']} s)")
    return 0
