#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property from the source of /repo's current working tree (override: CGMF_REPO).
exit 0: no violation in what could be decided (UNDECIDED lines and the evidence name what could not);
exit 1: VIOLATION line printed; exit 2: nothing could be decided (the tree does not compile, the anchors are gone).
"""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)
from cg.ctx import Ctx
from cg.ir import AnalysisBroken, REPO


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obls = []          # (id, status, text)
        self.counts = {}
        self.units = set()
        self.assumptions = []
        self.viol = []          # (key, where, text)
        self.explanation = ""

    def ok(self, oid, text=""):
        self.obls.append((oid, "holds", text))

    def bad(self, key, where, text):
        self.obls.append((key, "violated", text))
        self.viol.append((key, where, text))

    def undecided(self, oid, text):
        self.obls.append((oid, "undecided", text))

    def decide(self, oid, good, where, text, expl=""):
        """good: True / False / None (undecided)"""
        if good is True:
            self.ok(oid, text)
        elif good is False:
            self.bad(oid, where, text + (": " + expl if expl else ""))
        else:
            self.undecided(oid, text + (": " + expl if expl else ""))

    def part(self, name, f, *a, **k):
        """run one part of a rule; an anchor it needs that is gone, or a shape it cannot handle, leaves that part
        undecided without hiding what the other parts find"""
        try:
            return f(*a, **k)
        except AnalysisBroken as e:
            self.undecided(name, "not analysed: %s" % e)
        except Exception as e:
            traceback.print_exc()
            self.undecided(name, "not analysed: internal error %r" % e)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n):
        if self.counts.get(name, 0) < n:
            raise AnalysisBroken("%s: only %d instances of '%s' (at least %d expected)" % (self.prop, self.counts.get(name, 0), name, n))


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    ctx = Ctx(prop)
    rep = Report(prop)
    rc = 0
    try:
        mod = importlib.import_module("props." + prop.lower())
        mod.run(ctx, rep, tier)
    except Exception as e:
        if not isinstance(e, AnalysisBroken):
            traceback.print_exc()
        why = str(e) if isinstance(e, AnalysisBroken) else "internal error %r" % e
        if any(o[1] != "undecided" for o in rep.obls):
            rep.undecided(prop + ":rest", "the rest of the rule could not be applied: " + why)
        else:
            print("ANALYSIS-BROKEN property=%s %s" % (prop, why))
            rc = 2
    finally:
        ctx.close()
    kf = {d["key"]: d for d in known(prop)}
    new = []
    seen = set()
    for k, w, t in rep.viol:
        if k in kf:
            if k not in seen:
                print("KNOWN-FINDING: property=%s %s (%s)" % (prop, kf[k]["what"], w))
            seen.add(k)
        else:
            new.append((k, w, t))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    nob = len(rep.obls)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
          "coverage": {"explanation": rep.explanation or (sys.modules.get("props." + prop.lower()).__doc__ if ("props." + prop.lower()) in sys.modules else ""),
                       "obligations": nob,
                       "discharged": sum(1 for o in rep.obls if o[1] == "holds"),
                       "undecided": [o[0] + ": " + o[2] for o in rep.obls if o[1] == "undecided"],
                       "known_findings": sorted(seen),
                       "functions_analysed": len(ctx.analysed) + len(rep.units),
                       "translation_units": len(ctx.sources),
                       "counts": rep.counts,
                       "samples": [list(o) for o in rep.obls[:40]],
                       "functions": sorted(ctx.analysed | rep.units)[:200]},
          "assumptions": rep.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if rc == 0:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for o in rep.obls:
        if o[1] == "undecided":
            print("UNDECIDED %s %s" % (o[0], o[2]))
    if new:
        path = os.path.join(HERE, "evidence", prop + ".violation.txt")
        with open(path, "w") as f:
            for k, w, t in new:
                f.write("%s\n  at %s\n  %s\n" % (k, w, t))
        for k, w, t in new[:30]:
            print("  %s  [%s] %s" % (w, k, t))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if rc == 0 and not ev["coverage"]["discharged"] and not seen:
        print("ANALYSIS-BROKEN property=%s nothing could be decided" % prop)
        return 2
    if rc == 0:
        print("property=%s: %d obligations, %d discharged, %d undecided, %d known findings; %.1f s" %
              (prop, nob, ev["coverage"]["discharged"], len(ev["coverage"]["undecided"]), len(seen), time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
