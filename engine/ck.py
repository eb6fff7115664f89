"""Common frame of the checks: obligations, findings, evidence, exit codes."""
import json, os, sys, time, traceback
from terms import *
import terms, dump, roots
from interp import Inconclusive

VERIF = dump.VERIF

def short(t, n=240):
    s = show(t) if isinstance(t, T) else str(t)
    return s if len(s) <= n else s[:n] + "…"

class Col:
    """what one query collected; plain data, so that it crosses process boundaries"""
    def __init__(self):
        self.findings = {}       # key -> text
        self.notes = {}          # key -> text (could not be decided)
        self.nob = 0
        self.nok = 0
        self.counts = {}
        self.samples = []
        self.data = {}

    def ob(self, ok, key, text="", sample=None):
        """one obligation: True discharged, False violated, None undecided"""
        self.nob += 1
        if ok:
            self.nok += 1
            if sample and len(self.samples) < 4:
                self.samples.append(sample)
        elif ok is False:
            self.findings.setdefault(key, text)
        else:
            self.notes.setdefault(key, text)
        return ok

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def put(self, k, v):
        self.data.setdefault(k, []).append(v)

    def merge(self, o):
        for k, v in o.findings.items():
            self.findings.setdefault(k, v)
        for k, v in o.notes.items():
            self.notes.setdefault(k, v)
        self.nob += o.nob
        self.nok += o.nok
        for k, v in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.samples = (self.samples + o.samples)[:8]
        for k, v in o.data.items():
            self.data.setdefault(k, []).extend(v)

    def floor(self, what, n, text):
        """the analysis must have met at least n of something it knows to exist: nothing may pass
        because nothing was looked at"""
        if self.counts.get(what, 0) < n:
            self.notes["floor:" + what] = "expected at least %d %s, met %d: %s" % (n, what, self.counts.get(what, 0), text)
            return False
        return True

TRUSTED = ["rustc nightly MIR construction and trait resolution (driver/)", "library models in engine/models.py",
           "the abstract interpreter in engine/ (terms, facts, interp, loops)"]

def known(pid):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                out.append(l.split(" ", 2)[2])
    return out

def report(pid, col, tier, t0, rule, assumptions=(), extra=None):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    evd = os.environ.get("YULE_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    kn = known(pid)
    viol = {}
    for k, v in col.findings.items():
        m = [x for x in kn if x.split(" ")[0] == k]
        if m:
            print("KNOWN-FINDING: property=%s %s" % (pid, m[0]))
        else:
            viol[k] = v
    cov = {"explanation": rule, "obligations": col.nob, "discharged": col.nok, "undecided": len(col.notes), "samples": col.samples[:8]}
    cov.update({k.replace(" ", "_"): v for k, v in sorted(col.counts.items())})
    if extra:
        cov.update(extra)
    if col.notes:
        cov["undecided_detail"] = {k: str(v)[:400] for k, v in list(col.notes.items())[:20]}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": list(assumptions) + TRUSTED,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d violated, %d undecided (%.1f s)" % (pid, col.nob, col.nok, len(viol), len(col.notes), time.time() - t0))
    for k, v in list(col.notes.items())[:12]:
        print("  undecided: %s: %s" % (k, str(v)[:300]))
    if viol:
        rp = os.path.join(VERIF, "build", "replay")
        os.makedirs(rp, exist_ok=True)
        rp = os.path.join(rp, pid + ".txt")
        with open(rp, "w") as f:
            f.write("property %s\nrule: %s\n" % (pid, rule))
            for k, v in viol.items():
                f.write("\n[%s]\n%s\n" % (k, v))
        for k, v in list(viol.items())[:10]:
            print("  [%s] %s" % (k, str(v)[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
