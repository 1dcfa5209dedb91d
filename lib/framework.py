"""Common driver of the checks: obligations, findings, evidence, exit codes."""
import sys, os, json, time, traceback
import tree
ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))

class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.obligations = 0
        self.rules = {}       # rule -> number of instances
        self.fails = {}       # key -> message
        self.samples = []
        self.analysed = {}
        self.t0 = time.time()
    thorough = property(lambda s: s.tier == "thorough")
    def ob(self, rule, what, ok=True, msg=None, where=None):
        """One obligation of a rule; `what` identifies the construct it is about (stable across unrelated edits)."""
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if len([s for s in self.samples if s.startswith(rule)]) < 3: self.samples.append("%s: %s" % (rule, what))
        if not ok: self.fail(rule, what, msg or "does not hold", where)
        return ok
    def fail(self, rule, what, msg, where=None):
        key = "%s %s" % (rule, what)
        self.fails.setdefault(key, "%s%s: %s" % (key, " at " + where if where else "", msg))
    def need(self, n, rule, least):
        """Fewer instances than confirmed by hand: the analysis lost its anchors."""
        if n < least: raise tree.AnalysisError("%s: %s: only %d instances, expected at least %d" % (self.prop, rule, n, least))

def known(prop):
    """Known findings of a property: key -> description. Lines: known: property=<id> <key> :: <description>"""
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                k, d = l[len("known: property=%s " % prop):].rstrip("\n").split(" :: ", 1)
                out[k] = d
    return out

def main(prop, fn, level="other", trusted=(), explain=""):
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    ctx = Ctx(prop, tier)
    try: fn(ctx)
    except tree.AnalysisError as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e)); sys.exit(3)
    except Exception:
        traceback.print_exc(); print("ANALYSIS-BROKEN property=%s internal error" % prop); sys.exit(3)
    kn = known(prop)
    new = {k: m for k, m in ctx.fails.items() if k not in kn}
    for k in ctx.fails:
        if k in kn: print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, kn[k]))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cov = {"explanation": explain, "obligations": ctx.obligations, "discharged": ctx.obligations - len(ctx.fails), "instances_per_rule": ctx.rules, "analysed": ctx.analysed,
           "samples": ctx.samples[:40], "known_findings": [k for k in ctx.fails if k in kn], "checker_cmd": "python3 checks/%s.py%s" % (prop, " --thorough" if ctx.thorough else ""), "trusted_base": list(trusted)}
    ev = {"property": prop, "tier": tier, "seed": ctx.seed, "level": level, "coverage": cov, "violations": len(new), "wall_s": round(time.time() - ctx.t0, 2),
          "assumptions": list(trusted)}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    rp = os.path.join(ROOT, "evidence", prop + ".replay.txt")
    if new:
        with open(rp, "w") as f:
            for m in new.values(): f.write(m + "\n")
        for m in list(new.values())[:20]: print(m)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if os.path.exists(rp): os.remove(rp)
    print("OK property=%s obligations=%d wall=%.1fs" % (prop, ctx.obligations, time.time() - ctx.t0))
    sys.exit(0)
