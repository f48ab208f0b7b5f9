"""Check runner: obligations, verdict, evidence, known findings."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "rules"))
import front
from front import AnalysisError, VERIF

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obs = []          # (rule, instance, ok, where, detail)
        self.counts = {}
        self.notes = []
        self.cov = {}

    # one obligation decided by the analysis
    def ob(self, rule, inst, ok, where="", detail=""):
        self.obs.append((rule, str(inst), bool(ok), str(where), str(detail)))
        return ok

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def need(self, cond, what):
        """an anchor of the analysis: its absence is an error, not a verdict"""
        if not cond:
            raise AnalysisError("anchor not found: " + what)

    def at_least(self, rule, n):
        k = sum(1 for o in self.obs if o[0] == rule)
        if k < n:
            raise AnalysisError("rule %s matched %d sites, at least %d expected" % (rule, k, n))


def known():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            # finding: property=<id> key=<rule>|<instance> :: text
            head, _, text = l.partition(" :: ")
            p = head.split("property=")[1].split()[0]
            k = head.split("key=", 1)[1].strip()
            out[(p, k)] = text
    return out


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier)
    err = None
    try:
        mod = importlib.import_module(prop.lower())
        mod.run(ctx)
        if not ctx.obs:
            raise AnalysisError("no obligation was generated")
    except AnalysisError as e:
        err = e
        print("ANALYSIS-ERROR property=%s %s" % (prop, e))
    except Exception as e:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % prop)
        err = e
    # obligations are per rule instance; merge duplicates found in several configurations
    seen, viol, kf = {}, [], []
    for r, i, ok, w, d in ctx.obs:
        k = r + "|" + i
        if k not in seen or (seen[k][0] and not ok):
            seen[k] = (ok, w, d)
    kn = known()
    for k, (ok, w, d) in sorted(seen.items()):
        if ok:
            continue
        if (prop, k) in kn:
            kf.append((k, w, d))
        else:
            viol.append((k, w, d))
    rules = {}
    for k, (ok, w, d) in seen.items():
        r = rules.setdefault(k.split("|")[0], [0, 0])
        r[0] += 1
        r[1] += ok
    samples = []
    for k, (ok, w, d) in sorted(seen.items()):
        if len(samples) < 40:
            samples.append({"obligation": k, "holds": ok, "where": w, "detail": d[:300]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"),
          "coverage": {"explanation": (mod.__doc__ or "").strip(),
                       "obligations": len(seen), "discharged": sum(1 for v in seen.values() if v[0]),
                       "per_rule": {r: {"instances": a, "hold": b} for r, (a, b) in sorted(rules.items())},
                       "analysed": ctx.counts, "samples": samples},
          "assumptions": getattr(mod, "ASSUMES", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    if ctx.notes:
        ev["coverage"]["notes"] = ctx.notes[:50]
    ev["coverage"].update(ctx.cov)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if err is not None and not viol:
        return 2        # definite violations found before the analysis got stuck still count
    print("%s: %d obligations in %d rules, %d hold; analysed %s; %.1fs" % (
        prop, len(seen), len(rules), ev["coverage"]["discharged"],
        ", ".join("%s=%s" % kv for kv in sorted(ctx.counts.items())), ev["wall_s"]))
    for k, w, d in kf:
        print("KNOWN-FINDING: property=%s %s (%s) %s" % (prop, k, w, d))
    if viol:
        rep = os.path.join(VERIF, "evidence", prop + ".report.txt")
        with open(rep, "w") as f:
            for k, w, d in viol:
                f.write("property %s\nrule|instance: %s\nat: %s\nwhy: %s\n\n" % (prop, k, w, d))
                print("  %s\n    at %s\n    %s" % (k, w, d))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return 0
