"""Obligations, violations, known findings, evidence."""
import json, os, sys, time
import build
from build import AnalysisBroken, VERIF


class Ctx:
    """what one check run analysed and found"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obl = []          # (rule, instance, ok, detail)
        self.assumptions = []
        self.rules = {}
        self.fns = set()
        self.paths = 0
        self.t0 = time.time()
        self.notes = []

    def rule(self, rid, text):
        self.rules[rid] = {"rule": text, "obligations": 0, "violations": 0}

    def ok(self, rid, inst):
        self.obl.append((rid, inst, True, ""))

    def bad(self, rid, inst, where, why):
        """inst: stable key of the instance (no line numbers); where: file:line; why: report text"""
        self.obl.append((rid, inst, False, (where, why)))

    def check(self, cond, rid, inst, where, why):
        if cond:
            self.ok(rid, inst)
        else:
            self.bad(rid, inst, where, why)

    def floor(self, rid, n):
        """analysis is broken when a rule matched fewer instances than were confirmed by hand"""
        c = sum(1 for o in self.obl if o[0] == rid)
        if c < n:
            raise AnalysisBroken("rule %s matched %d instances, at least %d expected" % (rid, c, n))

    def saw(self, *fns):
        for f in fns:
            self.fns.add(str(f))

    def fork(self, jobs, workers=8):
        """run jobs (callables taking a Ctx) in forked processes and merge what they found, in order"""
        import multiprocessing as mp
        global _jobs
        _jobs = (self, jobs)
        with mp.get_context("fork").Pool(min(workers, len(jobs))) as pool:
            res = pool.map(_job, range(len(jobs)), chunksize=1)
        for r in res:
            if r[0] == "broken":
                raise AnalysisBroken(r[1])
            if r[0] == "error":
                raise RuntimeError(r[1])
        for _, obl, fns, paths, extra in res:
            self.obl += obl
            self.fns |= fns
            self.paths += paths
        return [r[4] for r in res]

    def engine(self, eng):
        for f in eng.fns_seen:
            self.fns.add(str(f))
        self.paths += eng.npaths


_jobs = None


def _job(i):
    import traceback
    parent, jobs = _jobs
    c = Ctx(parent.prop, parent.tier, parent.seed)
    try:
        extra = jobs[i](c)
    except AnalysisBroken as e:
        return ("broken", str(e))
    except Exception:
        return ("error", traceback.format_exc())
    return ("ok", c.obl, c.fns, c.paths, extra)


def known():
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def finish(ctx, level):
    kf = [k for k in known()["findings"] if k["property"] == ctx.prop]
    seen_known, viol, dup = {}, [], set()
    for rid, inst, ok, d in ctx.obl:
        r = ctx.rules.setdefault(rid, {"rule": "", "obligations": 0, "violations": 0})
        r["obligations"] += 1
        if ok:
            continue
        hit = [k for k in kf if k["rule"] == rid and k["instance"] == inst]
        if hit:
            seen_known[(rid, inst)] = (hit[0], d)
            continue
        r["violations"] += 1
        if (rid, inst, d[0]) in dup:
            continue
        dup.add((rid, inst, d[0]))
        viol.append((rid, inst, d))
    for (rid, inst), (k, d) in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s %s (%s): %s" % (ctx.prop, rid, inst, d[0], k["what"]))
    ev = os.environ.get("CXY_VERIF_EV", os.path.join(VERIF, "evidence"))
    os.makedirs(ev, exist_ok=True)
    total = len(ctx.obl)
    bad = sum(1 for o in ctx.obl if not o[2])
    cov = {
        "explanation": "Static analysis of /repo's current sources (clang AST extraction + the rules below); "
                       "an obligation is one instance of a rule, discharged when the analysed construct satisfies it.",
        "obligations": total, "discharged": total - bad,
        "known_findings": len(seen_known),
        "functions_analysed": len(ctx.fns), "paths_explored": ctx.paths,
        "rules": ctx.rules,
        "samples": ["%s: %s" % (o[0], o[1]) for o in ctx.obl[:: max(1, total // 12)]][:14],
        "functions": sorted(ctx.fns)[:80],
    }
    if ctx.notes:
        cov["notes"] = ctx.notes
    out = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
           "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(viol)}
    if level == "proof":
        cov["checker_cmd"] = "python3 /verif/check.py %s --tier %s" % (ctx.prop, ctx.tier)
        cov["trusted_base"] = TRUSTED
    with open(os.path.join(ev, ctx.prop + ".json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
    rp = os.path.join(ev, ctx.prop + ".violations.txt")
    if viol:
        with open(rp, "w") as f:
            for rid, inst, (where, why) in viol:
                t = "%s: [%s %s] %s\n    rule: %s\n    %s\n" % (where, ctx.prop, rid, inst, ctx.rules[rid]["rule"], why)
                f.write(t)
                sys.stdout.write(t)
        print("VIOLATION property=%s replay=%s" % (ctx.prop, rp))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    print("%s: %d obligations, %d discharged, %d known findings, %d functions, %.1fs" %
          (ctx.prop, total, total - bad, len(seen_known), len(ctx.fns), time.time() - ctx.t0))
    return 0


TRUSTED = ["clang 18 front end (parsing, type checking, macro expansion)", "extract/extract.cpp",
           "lib/prog.py, lib/absint.py", "the rule module's oracle tables"]
