"""Shared check runner: evidence file, known findings, exit codes."""
import json, os, sys, time, traceback
VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from facts import AnalysisError

class Result:
    def __init__(self):
        self.violations = []     # dicts: key, where, what, path(list)
        self.obligations = 0; self.discharged = 0
        self.coverage = {}; self.samples = []; self.assumptions = []
    def violate(self, key, where, what, path=()):
        if any(v["key"] == key and v["what"] == what for v in self.violations): return
        self.violations.append({"key": key, "where": where, "what": what, "path": list(path)})
    def oblige(self, n=1, ok=True):
        self.obligations += n
        if ok: self.discharged += n

def known():
    f = os.path.join(VERIF, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else {"findings": [], "fixed": []}

def run(pid, analyse, rule, trusted, minimum, level="proof"):
    """analyse(program, Result, thorough); minimum: smallest number of obligations that counts as analysed"""
    t0 = time.time(); tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try:
        import facts, ir
        prog = ir.Program(facts.build())
        res = Result()
        analyse(prog, res, tier == "thorough")
        if res.obligations < minimum:
            raise AnalysisError("only %d obligations found, expected at least %d: the rule no longer matches this code" % (res.obligations, minimum))
    except AnalysisError as e:
        print("ANALYSIS ERROR: %s" % e); sys.exit(3)
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.exit(4)
    kf = [k for k in known()["findings"] if k["property"] == pid]
    new = []; listed = []
    for v in res.violations:
        m = [k for k in kf if k["key"] == v["key"]]
        (listed if m else new).append((v, m[0] if m else None))
    for v, k in listed: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": {"obligations": res.obligations, "discharged": res.discharged,
                       "checker_cmd": "python3 checks/%s.py" % pid, "trusted_base": trusted, "rule": rule,
                       "samples": res.samples[:12], **res.coverage,
                       "known_findings": [v["key"] for v, _ in listed],
                       "reported": [v for v, _ in new][:50]},
          "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d violation(s), %d known, %.1fs" % (pid, res.obligations, res.discharged, len(new), len(listed), time.time() - t0))
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for v, _ in new:
                f.write("%s: %s\n  rule instance: %s\n" % (v["where"], v["what"], v["key"]))
                for l in v["path"]: f.write("    %s\n" % l)
        for v, _ in new: print("  %s: %s [%s]" % (v["where"], v["what"], v["key"]))
        for v, _ in new[:1]:
            for l in v["path"]: print("      " + str(l))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    sys.exit(0)
