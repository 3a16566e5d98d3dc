"""P01: a failed compilation is reported as failed, and nothing is built from it."""
import prog
from prog import walk, callee_name
from absint import Engine, Policy, Ev, show
from build import AnalysisBroken

LEVEL = "other"
STAGES = ("ccsParse", "ccsPreprocess", "ccsShake", "ccsBind", "ccsTypeCheck", "ccsSimplify", "ccsMemoryMgmt", "ccsCodegen",
          "ccsCompile")
WORK_NOISE = {"printStatus", "compilerStatsSnapshot", "compilerStatsRecord", "getCompilerStageName"}


def fresh(name):
    def m(eng, st, fr, args, node):
        st.nid += 1
        res = ("call", name, (), st.nid)
        eng.record(st, Ev("call", name, args, fr.fn.loc(node[1]), res, fr.fn.name, node))
        return [(st, res)]
    return m


def forked(name):
    """both outcomes of a call returning bool"""
    def m(eng, st, fr, args, node):
        st.nid += 1
        res = ("call", name, (), st.nid)
        eng.record(st, Ev("call", name, args, fr.fn.loc(node[1]), res, fr.fn.name, node))
        out = []
        for v in (0, 1):
            s = st.copy()
            eng.assume(s, res, bool(v))
            out.append((s, v))
        return out
    return m


def engine(P, ctx, f, opaque=(), only=None, init=None, args=None, **kw):
    pol = Policy()
    pol.opaque = frozenset(opaque)
    pol.only = only
    pol.models = {"hasErrors": fresh("hasErrors")}
    pol.models.update(kw.pop("models", {}))
    pol.max_depth = 4
    for k, v in kw.items():
        setattr(pol, k, v)
    e = Engine(P, pol)
    ps = e.run(f, init, args)
    ctx.engine(e)
    return ps, e


def zero(p, e, t):
    """True/False/None: is term t zero on path p"""
    if t is None:
        return None
    v = e.truth(p.st, t)
    return None if v is None else not v


def run(ctx):
    P = prog.full()
    ctx.rule("R1-exit", "the process exits with success exactly when option parsing, initialisation and every compilation succeeded")
    ctx.rule("R2-pipeline", "a stage that fails ends the compilation as failed, no later stage runs, the stages run in pipeline order")
    ctx.rule("R3-stage", "a stage succeeds only after checking that no error has been logged since it did its work")
    ctx.rule("R4-count", "every logged error is counted and the count is never lowered")
    ctx.rule("R5-backend", "a failing C compiler or test run is a failure")
    ctx.rule("R6-module", "a module import succeeds only if the module was found, parsed, compiled and exports what is imported; a failed one is diagnosed")
    exit_rule(P, ctx)
    pipeline(P, ctx)
    stages(P, ctx)
    count(P, ctx)
    backend(P, ctx)
    module(P, ctx)


def exit_rule(P, ctx):
    f = P.need("main", "driver/main.c")
    gates = {"parseCommandLineOptions", "initCompilerDriver", "compileFile"}
    lf = {g for g in gates}
    ps, e = engine(P, ctx, f, opaque=gates | {"newLog", "newMemPool", "newStrPool", "deinitCompilerDriver", "freeLog",
                                             "freeStrPool", "freeMemPool", "writeFormatState", "newFormatState",
                                             "freeFormatState", "isColorSupported"}, only=None, models={g: forked(g) for g in gates})
    seen = set()
    n = 0
    for p in ps:
        ev = [x for x in p.events if x.name in lf]
        seen |= {x.name for x in ev}
        failed = [x.name for x in ev if zero(p, e, x.res) is True]
        unk = [x.name for x in ev if zero(p, e, x.res) is None]
        key = "main: %s" % ", ".join("%s%s" % ("!" if zero(p, e, x.res) else "", x.name) for x in ev)
        n += 1
        if failed:
            ctx.check(isinstance(p.ret, int) and p.ret != 0, "R1-exit", key, f.loc(),
                      "%s failed but the process returns %s" % (failed, show(p.ret)))
            i = [j for j, x in enumerate(ev) if zero(p, e, x.res) is True][0]
            ctx.check(i == len(ev) - 1,
                      "R1-exit", key + " stops", f.loc(), "work goes on after %s failed" % failed[0])
        else:
            # success may only be unknown if the result is what decides the exit status
            if p.ret == 0:
                ctx.check(not unk, "R1-exit", key, f.loc(),
                          "returns success without testing the result of %s" % unk)
            else:
                ctx.check(isinstance(p.ret, tuple), "R1-exit", key, f.loc(), "returns failure although nothing failed")
    if seen != lf:
        raise AnalysisBroken("main() does not call %s" % (lf - seen))
    f = P.need("compileFile", "driver/driver.c")
    ps, e = engine(P, ctx, f, opaque={"compileProgram", "parseFile", "configureDriverSourceDir"})
    for p in ps:
        ev = {x.name: x for x in p.events}
        key = "compileFile: " + ", ".join(n for n in ev if n in ("compileProgram", "parseFile", "configureDriverSourceDir"))
        ok = zero(p, e, p.ret) is True or ("compileProgram" in ev and p.ret == ev["compileProgram"].res)
        if isinstance(p.ret, int) and p.ret:
            ok = "compileProgram" in ev and zero(p, e, ev["compileProgram"].res) is False
        ctx.check(ok, "R1-exit", key, f.loc(), "compileFile returns %s without a successful compilation" % show(p.ret))
        if "compileProgram" in ev:
            ctx.check("parseFile" in ev and zero(p, e, ev["parseFile"].res) is False, "R1-exit", key + " (parsed)", f.loc(),
                      "a program that failed to parse is compiled")
    f = P.need("initCompilerDriver", "driver/driver.c")
    ps, e = engine(P, ctx, f, only=frozenset())
    for p in ps:
        ev = {x.name: x for x in p.events}
        if "compileBuiltin" in ev:
            ctx.check(p.ret == ev["compileBuiltin"].res or zero(p, e, p.ret) is True or
                      zero(p, e, ev["compileBuiltin"].res) is False, "R1-exit",
                      "initCompilerDriver: builtins", f.loc(), "failure of the builtins module is ignored")


def pipeline(P, ctx):
    f = P.need("compileProgram", "driver/driver.c")
    order = ["ccsPreprocess", "ccsShake", "ccsBind", "ccsTypeCheck", "ccsSimplify", "ccsMemoryMgmt", "ccsCodegen", "ccsCompile"]
    vals = [P.enum(x) for x in order]
    ctx.check(vals == sorted(vals), "R2-pipeline", "stage order", f.loc(),
              "the stage enumerators are not in pipeline order: %s" % list(zip(order, vals)))

    def model_stage(eng, st, fr, args, node):
        st.nid += 1
        res = ("call", "executeCompilerStage", (args[1],), st.nid)
        eng.record(st, Ev("call", "executeCompilerStage", args, fr.fn.loc(node[1]), res, fr.fn.name, node))
        out = []
        for v in (0, 1):
            s = st.copy()
            eng.assume(s, res, bool(v))
            out.append((s, 0 if v == 0 else res))
        return out
    pol = Policy()
    pol.only = frozenset(x for x in ("hasDumpEnable",))
    pol.models = {"executeCompilerStage": model_stage, "hasErrors": fresh("hasErrors")}
    pol.loop_bound = 20
    e = Engine(P, pol)
    full = 0
    ps = e.run(f)
    ctx.engine(e)
    need = P.enum("ccsTypeCheck")
    for p in ps:
        ev = [x for x in p.events if x.name == "executeCompilerStage"]
        st = [x.args[1] for x in ev]
        failed = [i for i, x in enumerate(ev) if e.truth(p.st, x.res) is False]
        key = "compileProgram stages %s%s" % (st, " fails at %s" % st[failed[0]] if failed else "")
        loop = [s for s in st if isinstance(s, int)]
        dump = [s for s in loop if s in (P.enum("ccs_Dump"), P.enum("ccs_DumpIR"))]
        main = [s for s in loop if s not in dump]
        if failed:
            ctx.check(failed == [len(ev) - 1], "R2-pipeline", key + " (stops)", f.loc(),
                      "another stage runs after stage %s failed" % st[failed[0]])
            ctx.check(zero(p, e, p.ret) is True, "R2-pipeline", key + " (fails)", f.loc(),
                      "stage %s failed but compileProgram returns %s" % (st[failed[0]], show(p.ret)))
            ctx.check(not p.calls("compilerBackendExecuteTestCase"), "R2-pipeline", key + " (no test run)", f.loc(),
                      "test cases run although stage %s failed" % st[failed[0]])
        else:
            ctx.check(main == list(range(P.enum("ccsParse") + 1, P.enum("ccsParse") + 1 + len(main))), "R2-pipeline", key + " (order)",
                      f.loc(), "stages run in the order %s" % main)
            full = max(full, len(main))
        for x in p.calls("compilerBackendExecuteTestCase"):
            ctx.check(p.ret == x.res or (zero(p, e, p.ret) is not None and zero(p, e, p.ret) == zero(p, e, x.res)),
                      "R2-pipeline", key + " (tests)", f.loc(), "the outcome of the test run is ignored")
    if full < P.enum("ccsCompile") - P.enum("ccsParse"):
        raise AnalysisBroken("compileProgram was not explored through all the stages (%d)" % full)


def stages(P, ctx):
    f = P.need("executeCompilerStage", "driver/stages.c")
    ps, e = engine(P, ctx, f, only=frozenset())
    ran = 0
    outer = True
    for p in ps:
        ev = [x for x in p.events if x.name in ("<indirect>", "hasErrors")]
        ind = [i for i, x in enumerate(ev) if x.name == "<indirect>"]
        if not ind:
            continue
        ran += 1
        succ = zero(p, e, p.ret) is not True
        if succ:
            ok = any(x.name == "hasErrors" and zero(p, e, x.res) is True for x in ev[ind[-1] + 1:])
            outer = outer and ok
            ctx.check(p.ret == ev[ind[-1]].res, "R3-stage", "executeCompilerStage result", f.loc(),
                      "the stage's own result (which may be a failure) is replaced by %s" % show(p.ret))
    if outer:
        ctx.ok("R3-stage", "executeCompilerStage checks for errors after every stage")
    if not ran:
        raise AnalysisBroken("executeCompilerStage never runs an executor")
    # every registered executor
    tab = [g for g in P.globals.get("compilerStageExecutors", [])]
    if not tab:
        raise AnalysisBroken("compilerStageExecutors not found")
    done = {}
    for k, x in tab[0]["init"][3]:
        if x[0] == "ref" and x[4] == "f":
            done[k] = x[3]
    req = {"ccsShake": "ccsPreprocess", "ccsBind": "ccsShake", "ccsTypeCheck": "ccsBind", "ccsSimplify": "ccsTypeCheck",
           "ccsCodegen": "ccsSimplify", "ccsCompile": "ccsCodegen", "ccsPreprocess": None, "ccsMemoryMgmt": "ccsSimplify"}
    for stage, pre in req.items():
        v = P.enum(stage)
        if v not in done:
            ctx.bad("R3-stage", "%s has an executor" % stage, "src/cxy/driver/stages.c:1", "stage %s has no executor" % stage)
            continue
        g = P.need(done[v], "driver/stages.c")
        ps, e = engine(P, ctx, g, only=frozenset(), models={"hasErrors": fresh("hasErrors")}, record_fields=frozenset({"stages"}))
        worked = False
        for p in ps:
            ev = [x for x in p.events if x.kind == "call" and x.name not in ("logError", "builtinLoc")]
            work = [i for i, x in enumerate(ev) if x.name not in ("hasErrors", "newFormatState", "freeFormatState", "hasFlag")
                    and x.name not in WORK_NOISE]
            succ = zero(p, e, p.ret) is not True
            if not work:
                continue
            worked = True
            if succ:
                ok = any(x.name == "hasErrors" and zero(p, e, x.res) is True for x in ev[work[-1] + 1:])
                ctx.check(ok or outer, "R3-stage", "%s: no error after %s" % (g.name, ev[work[-1]].name), g.loc(),
                          "neither the stage nor executeCompilerStage checks for errors: it succeeds without checking for errors logged by %s()" % ev[work[-1]].name)
            for i in work:
                if ev[i].name == "compilerBackendMakeExecutable":
                    if succ:
                        ctx.check(zero(p, e, ev[i].res) is False, "R3-stage", "%s: executable built" % g.name, g.loc(),
                                  "the stage succeeds although building the executable failed")
            if succ:
                own = 1 << v
                wr = [x for x in p.events if x.kind not in ("call",) and x.name == "stages"]
                ctx.check(any(mentions_bit(a, own) for x in wr for a in x.args), "R3-stage", "%s marks its stage" % g.name,
                          g.loc(), "the stage does not record that it completed")
        if not worked:
            raise AnalysisBroken("%s does no work" % g.name)
        if pre:
            lvs = {x.args[0] for p in ps for x in p.events if x.kind == "write" and x.name == "stages"}
            if len(lvs) != 1:
                raise AnalysisBroken("%s: no single stage record" % g.name)
            lv = lvs.pop()
            full = sum(1 << P.enum(x) for x in STAGES if P.enum(x) < v)
            for val, may in ((full & ~(1 << P.enum(pre)), False), (full, True)):
                def init(eng, st):
                    eng.write(st, lv, val)
                qs, e = engine(P, ctx, g, only=frozenset(), init=init, record_fields=frozenset({"stages"}))
                for p in qs:
                    w = [x.name for x in p.events if x.kind == "call" and x.name not in ("logError", "builtinLoc", "hasErrors")]
                    if not may:
                        idle = not p.calls("logError") and p.ret == ("p", 1) and not any(x.name == "stages" for x in p.events)
                        ctx.check(not w and (idle or (zero(p, e, p.ret) is True and p.calls("logError"))), "R3-stage",
                                  "%s requires %s" % (g.name, pre), g.loc(),
                                  "the stage works (%s) on an AST that has not passed %s" % (w, pre))
                if may and not any(zero(p, e, p.ret) is not True for p in qs):
                    ctx.bad("R3-stage", "%s accepts" % g.name, g.loc(), "the stage can never succeed")


def mentions_bit(t, bit):
    from absint import subterms
    if isinstance(t, int):
        return t == bit
    return any(isinstance(x, tuple) and bit in x for x in subterms(t))


def count(P, ctx):
    f = P.need("logError", "core/log.c")
    pol = Policy()
    pol.opaque = frozenset({"format", "printDiagnostic", "newFormatState", "writeFormatState", "freeFormatState", "printFileLine"})
    pol.record_fields = frozenset({"errorCount", "warningCount"})
    pol.max_size = 3000

    def run1(fn):
        e = Engine(P, pol)
        h = ("fld", ("*", ("p", 0)), "handler")

        def init(eng, st):
            eng.write(st, h, 0)
        ps = e.run(fn, init)
        ctx.engine(e)
        return ps, e
    ps, e = run1(f)
    for p in ps:
        w = [x for x in p.events if x.name == "errorCount"]
        ok = len(w) == 1 and "errorCount" in str(w[0].args) and inc_by_one(w[0])
        ctx.check(ok, "R4-count", "logError counts", f.loc(),
                  "an error can be logged without being counted once (writes: %s)" % [[show(a) for a in x.args] for x in w])
    # warnings are not errors, and do not lower the count
    for nm in ("logWarning", "logNote"):
        g = P.need(nm, "core/log.c")
        ps, e = run1(g)
        for p in ps:
            w = [x for x in p.events if x.name == "errorCount"]
            ctx.check(not w, "R4-count", "%s leaves the error count alone" % nm, g.loc(), "%s changes the error count" % nm)
    # who may write the counter
    n = 0
    for g in P.all_fns("src/cxy/"):
        for x in walk(g.body):
            t = None
            if x[0] == "asg":
                t = x[4]
                up = x[3] == "+="
            elif x[0] == "un" and x[3] in ("++", "p++", "--", "p--"):
                t = x[4]
                up = "+" in x[3]
            if t is not None and t[0] == "mem" and t[4] == "errorCount":
                n += 1
                ctx.check(up, "R4-count", "%s writes the error count" % g.name, g.loc(x[1]),
                          "the number of logged errors is overwritten or lowered")
            # a Log must not be replaced by a saved copy
            if x[0] == "asg" and x[3] == "=":
                tt = g.tu.types[x[4][2]]
                if tt.get("rec") == "Log" and x[4][0] != "ref":
                    ctx.bad("R4-count", "%s overwrites the log" % g.name, g.loc(x[1]), "the log (and its error count) is overwritten")
    if not n:
        raise AnalysisBroken("no write of errorCount found")
    hf = P.need("hasErrors")
    e = Engine(P, Policy())
    for p in e.run(hf):
        pass
    pol2 = Policy()
    e = Engine(P, pol2)
    for v, want in ((0, 0), (1, 1), (7, 1)):
        def init(eng, st):
            eng.write(st, ("fld", ("*", ("p", 0)), "errorCount"), v)
        for p in e.run(hf, init):
            ctx.check(p.ret == want, "R4-count", "hasErrors with %d errors" % v, hf.loc(), "hasErrors returns %s" % show(p.ret))


def inc_by_one(ev):
    for a in ev.args:
        if isinstance(a, tuple) and a[0] == "+" and 1 in a[1:]:
            return True
    return "+" in str(ev.args) and "1" in str(ev.args)


def backend(P, ctx):
    for nm, what in (("compilerBackendMakeExecutable", "the C compiler"), ("compilerBackendExecuteTestCase", "the test program")):
        f = P.need(nm, "backend/c/generate.c")
        ps, e = engine(P, ctx, f, only=frozenset(), max_states=40000, loop_bound=1,
                       keep=lambda t: isinstance(t, tuple) and t[0] == "call" and t[1] == "system",
                       record_calls={"system", "logError"})
        n = 0
        for p in ps:
            s = p.calls("system")
            if not s:
                continue
            n += 1
            z = zero(p, e, s[-1].res)
            rz = zero(p, e, p.ret)
            if z is None:
                # the return value itself must be (system() == 0)
                z2 = e.simp(p.st, ("==", s[-1].res, 0))
                ctx.check(p.ret == z2, "R5-backend", nm, f.loc(), "the exit status of %s is not what decides success" % what)
            else:
                ctx.check(rz == (not z), "R5-backend", nm + (" ok" if z else " fails"), f.loc(),
                          "%s %s but the function returns %s" % (what, "succeeded" if z else "failed", show(p.ret)))
        if not n:
            raise AnalysisBroken("%s does not run a command" % nm)


def module(P, ctx):
    f = P.need("compileModule", "driver/driver.c")
    ps, e = engine(P, ctx, f, only=frozenset(), loop_bound=1)
    gates = ("parseFile", "compileProgram", "importCHeader", "getModuleLocation")
    n = 0
    for p in ps:
        ev = [x for x in p.events if x.name in gates + ("access", "findModuleMember", "hasErrors", "addCachedModule")]
        failed = [x for x in ev if x.name in gates and zero(p, e, x.res) is True]
        key = "compileModule " + ",".join("%s%s" % ("!" if zero(p, e, x.res) is True else "", x.name) for x in ev)
        n += 1
        if failed:
            ctx.check(zero(p, e, p.ret) is True, "R6-module", key, f.loc(),
                      "%s failed but a module type is returned" % failed[0].name)
        miss = [x for x in ev if x.name == "findModuleMember" and zero(p, e, x.res) is True]
        if miss:
            ctx.check(bool(p.calls("logError")), "R6-module", key + " (missing entity)", f.loc(),
                      "importing a name the module does not export is not diagnosed")
        if zero(p, e, p.ret) is not True:
            i = max([j for j, x in enumerate(ev) if x.name in gates + ("findModuleMember",)] or [-1])
            ctx.check(any(x.name == "hasErrors" and zero(p, e, x.res) is True for x in ev[i + 1:]), "R6-module", key + " (errors)",
                      f.loc(), "the module is used without checking for errors")
    if n < 4:
        raise AnalysisBroken("compileModule: only %d paths" % n)
    # the importer diagnoses failure
    for g in P.all_fns("src/cxy/"):
        if any(nm == "compileModule" for nm, _ in P.calls(g)):
            relevant = {h for h in P.callers_closure({"logError"})}
            ps, e = engine(P, ctx, g, opaque={"compileModule"}, only=frozenset({"parserError", "parserFail"}), max_depth=3)
            k = 0
            for p in ps:
                for x in p.calls("compileModule"):
                    if zero(p, e, x.res) is True:
                        k += 1
                        ctx.check(bool(p.calls("logError")), "R6-module", "%s diagnoses a failed import" % g.name, g.loc(),
                                  "a failed import is not diagnosed")
                    elif zero(p, e, x.res) is None:
                        ctx.bad("R6-module", "%s tests the import" % g.name, g.loc(), "the result of the import is not tested")
            for st, nm, loc in e.noret:
                evs = st.events()
                for x in evs:
                    if x.kind == "call" and x.name == "compileModule":
                        k += 1
                        ctx.check(any(y.name == "logError" for y in evs), "R6-module",
                                  "%s diagnoses a failed import" % g.name, g.loc(), "a failed import is not diagnosed")
