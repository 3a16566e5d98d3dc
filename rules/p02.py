"""P02: nothing is rejected without a diagnostic.

Every path through a function of the type checker and of the compile-time evaluator that marks a node as erroneous (the
error type, the error tag) needs a reason on the same path: an error that is logged, a part that is erroneous already, or
a call that failed and itself reports why (summaries over the call graph, to a fixpoint)."""
import re
from absint import Engine, Policy, Limit
from build import AnalysisBroken
from prog import walk

LEVEL = "other"
TYPEMAKER = re.compile(r"make\w*Type$|getPrimitiveType$")
ERRT = ("&", ("h", "error type"))
LOGS = frozenset({"logError", "logErrorWithId"})
DIRS = ("/middle/sema/", "/middle/eval/", "/middle/preprocess/")
CHECK = {"checkType", "checkTypeShallow", "evalType"}       # give a node a type: no type is never a failure of its own
FAIL = {"evaluate"}                             # fails exactly when the evaluated node is marked as erroneous


def known(st, t):
    lo, hi, ne = st.facts.get(t, (None, None, frozenset()))
    if isinstance(t, int):
        return bool(t)
    if lo is not None and lo == hi:
        return bool(lo)
    if 0 in ne or lo is not None and lo > 0 or hi is not None and hi < 0:
        return True
    return None


def fork_on(st, t):
    k = known(st, t)
    if k is not None:
        return [(st, int(k))]
    r = []
    for v in (0, 1):
        s = st.copy()
        s.facts = dict(s.facts)
        s.facts[t] = (v, v, frozenset())
        r.append((s, v))
    return r


def policy(P, names, small=frozenset()):
    tE, aE = P.enum("typError"), P.enum("astError")

    def type_is(eng, st, fr, args, node):
        x, t = args[0], args[1]
        if x == ERRT:
            return [(st, int(t == tE))]
        if x == 0:
            return [(st, 0)]
        return fork_on(st, ("iserr", x)) if t == tE else None

    def node_is(eng, st, fr, args, node):
        if args[1] != aE or args[0] == 0:
            return None
        tag = eng.load(st, ("fld", ("*", args[0]), "tag")) if hasattr(eng, "load") else None
        if tag == aE:
            return [(st, 1)]
        return fork_on(st, ("iserr", args[0]))

    class Pol(Policy):
        recursive = False
        max_states, loop_bound, join_at = 60000, 1, 40
        only = frozenset({"hasFlag"}) | small
        models = {"typeIs_": type_is, "nodeIs_": node_is, "makeErrorType": lambda eng, st, fr, args, node: [(st, ERRT)]}
        record_calls = LOGS | (names - small)

        @staticmethod
        def keep(t):
            return t[0] in ("iserr", "call", "p", "v", "==", "!=", "fld")
    return Pol()


def nonnull(st, v):
    """a value that passed typeIs_/nodeIs_/hasFlag-like kind tests exists"""
    return any(k[0] == "call" and k[1] in ("typeIs_", "nodeIs_") and k[2][0] == v and known(st, k) for k in st.facts)


def const_of(st, a):
    """what is known of an argument: an int, 'nz', or None"""
    if isinstance(a, int):
        return a
    if isinstance(a, tuple) and a[0] in ("&", "str", "fn"):
        return "nz"
    k = known(st, a)
    return 0 if k is False else "nz" if k else a if isinstance(a, tuple) and a[0] == "p" else None


class Way:
    """one path of a function, as far as errors are concerned"""
    __slots__ = ("err", "ret", "why", "calls", "params", "fwd", "events", "text")


def summarise(P, fn, names, made, small):
    aE = P.enum("astError")
    e = Engine(P, policy(P, names, small))
    e.noret = []
    out = []
    logs = [i for i, p in enumerate(fn.params) if (fn.tu.types[p[2]].get("k") == "ptr" and fn.tu.types[fn.tu.types[p[2]]["e"]].get("rec") == "Log")]
    for p in e.run(fn):
        w = Way()
        st = p.st
        fs = st.facts
        if any(known(st, ("p", i)) is False for i in logs):
            continue
        if any(k[0] == "call" and known(st, k) is False and (k[1] in made or TYPEMAKER.match(k[1]) or nonnull(st, k)) for k in fs):
            continue
        w.err = p.ret == ERRT or any((v == ERRT and k[0] == "fld") or (v == aE and k[0] == "fld" and k[2] == "tag") for k, v in st.mem.items())
        w.why = any(x.name in LOGS for x in p.events) or any(
            k[0] == "iserr" and v[0] == 1 or k[0] == "==" and ERRT in k and v[0] == 1 or k[0] == "fld" and k[2] == "tag" and v[0] == v[1] == aE
            for k, v in fs.items())
        w.calls = sorted({(k[1], bool(known(st, k)), tuple(const_of(st, a) for a in k[2])) for k in fs if k[0] == "call" and known(st, k) is not None}, key=str)
        w.params = tuple((k[1], v) for k, v in fs.items() if k[0] == "p")
        w.events = sorted({(x.name, tuple(const_of(st, a) for a in x.args)) for x in p.events if x.name not in LOGS}, key=str)
        w.fwd = None
        k = known(st, p.ret) if p.ret is not None else None
        w.ret = "void" if p.ret is None else "z" if k is False else "nz" if k else "?"
        if w.ret == "?" and (nonnull(st, p.ret) or isinstance(p.ret, tuple) and p.ret[0] == "call" and p.ret[1] in made):
            w.ret = "nz"
        if w.ret == "?" and isinstance(p.ret, tuple) and p.ret[0] == "call":
            w.fwd = (p.ret[1], tuple(const_of(st, a) for a in p.ret[2]))
        w.text = p.describe(6)
        out.append(w)
    return out, e


class Summaries:
    def __init__(self, P, ways):
        self.P, self.ways = P, ways         # name -> [Way]
        self.silent = {n: {} for n in ways}  # name -> {(ret, params)}: returns that no reason precedes
        self.quiet = {n: set() for n in ways}   # name -> params of the paths that neither report nor fail in a part
        self.solve()

    def fails(self, name, nonzero, args):
        """does this outcome of a call mean that an error was reported?"""
        if name in FAIL:
            return not nonzero
        if name in CHECK:
            return not nonzero
        if name == "<indirect>":
            return not nonzero
        if name not in self.ways:
            return False
        want = "nz" if nonzero else "z"
        return not any(r == want and self.feasible(ps, args) for r, ps in self.silent[name])

    def feasible(self, params, args):
        for i, (lo, hi, ne) in params:
            a = args[i] if i < len(args) else None
            if isinstance(a, int):
                if lo is not None and a < lo or hi is not None and a > hi or a in ne:
                    return False
            elif a == "nz" and lo == 0 and hi == 0:
                return False
        return True

    def forwarded(self, w, ret):
        """the conditions on the parameters under which the path has no reason: its own, and those under which the calls
        that it forwards parameters to have none"""
        out = [w.params]
        for name, nonzero, args in w.calls + ([(w.fwd[0], ret == "nz", w.fwd[1])] if w.fwd else []):
            if name not in self.ways:
                continue
            want = "nz" if nonzero else "z"
            ws = [ps for r, ps in self.silent[name] if r == want and self.feasible(ps, args)]
            alts = []
            for ps in ws:
                alts.append(tuple((args[i][1], f) for i, f in ps if i < len(args) and isinstance(args[i], tuple)))
            if alts and all(alts):
                out = [tuple(sorted(set(o + a), key=str)) for o in out for a in alts]
        return out

    def reasoned(self, w, extra=None):
        if w.why or any(self.fails(*c) for c in w.calls) or extra and self.fails(*extra):
            return True
        return any(n in self.ways and not any(self.feasible(ps, args) for ps in self.quiet[n]) for n, args in w.events)

    def solve(self):
        change = True
        while change:
            change = False
            for n, ws in self.ways.items():
                for w in ws:
                    r = self.reasoned(w)
                    if not r and w.params not in self.quiet[n]:
                        self.quiet[n].add(w.params)
                        change = True
                    for out in ("z", "nz"):
                        if w.ret not in (out, "?"):
                            continue
                        ok = r or w.err and out == "nz" or w.fwd and self.fails(w.fwd[0], out == "nz", w.fwd[1])
                        if ok:
                            continue
                        for ps in self.forwarded(w, out):
                            if (out, ps) not in self.silent[n]:
                                self.silent[n][(out, ps)] = change = True


def run(ctx):
    import prog
    P = prog.full()
    ctx.rule("R1-error", "a node is marked as erroneous only after an error was reported, a part was erroneous, or a call failed that reports its failure")
    ctx.rule("R2-macro", "a builtin macro that gives no node reported why")
    fs = sorted({f for L in P.fns.values() for f in L if any(d in str(f.file) for d in DIRS)}, key=lambda f: (str(f.file), f.name))
    if len(fs) < 300:
        raise AnalysisBroken("only %d functions in the type checker and the evaluator" % len(fs))
    names = frozenset(f.name for f in fs if any(nm in LOGS for nm, _ in P.calls(f)))
    if len(names) < 120:
        raise AnalysisBroken("only %d functions report errors" % len(names))
    made = makers(P)
    if len(made) < 100:
        raise AnalysisBroken("only %d functions make nodes and types" % len(made))
    small = frozenset(f.name for f in fs if f.static and f.name in names and not str(f.file).endswith(".h") and P.fn(f.name, tu=f.tu).tu.types[f.ret].get("k") == "ptr" and sum(1 for _ in walk(f.body)) < 140)
    res = parallel(P, fs, names, made, small)
    ways = {}
    for f, (ws, paths) in zip(fs, res):
        ways.setdefault(f.name, [])
        ways[f.name] += ws
        ctx.saw(f)
        ctx.paths += paths
    S = Summaries(P, ways)
    for f, (ws, _) in zip(fs, res):
        errs = [w for w in ws if w.err]
        if errs:
            bad = [w for w in errs if not S.reasoned(w)]
            ctx.check(not bad, "R1-error", f.name, f.loc(), describe(bad))
        if f.name in MACROS(P):
            bad = [w for w in ws if w.ret == "z" and not S.reasoned(w)]
            ctx.check(not bad, "R2-macro", f.name, f.loc(), describe(bad, "gives no node"))
    ctx.floor("R1-error", 110)


def makers(P):
    """functions that never return null: every return gives the address of something, an allocation, or what another such
    function gives, directly or through local variables that only hold such values"""
    good = {"mallocOrDie", "callocOrDie", "reallocOrDie", "allocFromMemPool", "callocFromMemPool", "allocFromCacheOrPool"}
    cand = []
    for f in P.all_fns():
        if f.name in good or f.tu.types[f.ret].get("k") != "ptr":
            continue
        rets = [n[2] for n in walk(f.body) if n[0] == "ret" and n[2]]
        if not rets:
            continue
        defs = {}
        for n in walk(f.body):
            if n[0] == "decl":
                for v in n[2]:
                    defs.setdefault(v[0], []).append(v[3])
            elif n[0] == "asg" and n[4][0] == "ref":
                defs.setdefault(n[4][3], []).append(n[5] if n[3] == "=" else None)
            elif n[0] == "un" and n[3] in ("&", "++", "--", "++p", "p++") and n[4][0] == "ref":
                defs.setdefault(n[4][3], []).append(None)
        cand.append((f.name, rets, defs))

    def ok(e, defs, seen):
        while e[0] in ("cast", "paren"):
            e = e[-1]
        if e[0] == "un":
            return e[3] == "&"
        if e[0] == "call":
            return e[3][0] == "ref" and e[3][4] == "f" and e[3][3] in good
        if e[0] == "cond":
            return ok(e[4], defs, seen) and ok(e[5], defs, seen)
        if e[0] == "ref" and e[3] in defs and e[4] != "p":
            return e[3] in seen or all(d and ok(d, defs, seen | {e[3]}) for d in defs[e[3]])
        return False
    change = True
    while change:
        change = False
        for n, rets, defs in cand:
            if n not in good and all(ok(r, defs, frozenset()) for r in rets):
                good.add(n)
                change = True
    return frozenset(good)


def describe(bad, what="marks a node as erroneous"):
    if not bad:
        return ""
    w = min(bad, key=lambda w: len(w.text))
    return "a path %s without reporting an error: %s" % (what, w.text or "unconditionally")


_m = {}


def MACROS(P):
    if not _m:
        for f in P.all_fns("src/cxy/lang/middle/eval/macro.c"):
            t = f.tu.types[f.ret] if hasattr(f, "ret") else None
            if len(f.params) == 4 or len(f.params) == 3:
                _m[f.name] = f
    return _m


def parallel(P, fs, names, made, small):
    import multiprocessing as mp
    global _job
    _job = (P, fs, names, made, small)
    with mp.get_context("fork").Pool(8) as pool:
        res = pool.map(work, range(len(fs)), chunksize=1)
    for r in res:
        if isinstance(r, str):
            raise AnalysisBroken(r)
    return res


def work(i):
    P, fs, names, made, small = _job
    try:
        ws, e = summarise(P, fs[i], names, made, small)
    except (Limit, AnalysisBroken, RecursionError) as x:
        return "%s: %s" % (fs[i].name, x)
    return [w for w in ws], e.npaths
