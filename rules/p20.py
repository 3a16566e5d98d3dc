"""P20: syntax errors are reported, recovered from, and never escape the parser."""
import types
import prog, flow
from prog import walk, callee_name
from flow import Flow, Ctl, key_of, const, analyse
from build import AnalysisBroken

LEVEL = "other"
THROW = ("e4c_throw", "e4c_throw_ctx")


def strip(e):
    while e[0] == "cast":
        e = e[3]
    return e


def exc_name(e):
    e = strip(e)
    if e[0] == "un" and e[3] == "&":
        e = strip(e[4])
        if e[0] == "ref":
            return e[3]
    return None


class Types:
    def __init__(self, P):
        self.sup = {}
        for name, gs in P.globals.items():
            for g in gs:
                i = g.get("init")
                if i and i[0] == "init":
                    for k, x in i[3]:
                        if k == "supertype":
                            self.sup[name] = exc_name(x)
        if not self.sup:
            raise AnalysisBroken("no exception types found")

    def caught(self, t, types):
        seen = set()
        while t and t not in seen:
            if t in types:
                return True
            seen.add(t)
            t = self.sup.get(t)
        return False


def tries(fn):
    """e4c_try call node -> (the try statement, exception types its catches name, names caught)"""
    out = {}
    for s in walk(fn.body):
        if s[0] != "if":
            continue
        t = [n for n in walk(s[2]) if n[0] == "call" and callee_name(n) == "e4c_try"]
        if len(t) != 1:
            continue
        types = set()
        # catches of this try, not of a try nested in it
        st = [s[3]]
        while st:
            x = st.pop()
            if not isinstance(x, list):
                continue
            if x and x[0] == "if" and any(n[0] == "call" and callee_name(n) == "e4c_try" for n in walk(x[2])):
                continue
            if x and x[0] == "bin" and x[3] == "==" and strip(x[4])[0] == "mem" and strip(x[4])[4] == "type":
                t2 = exc_name(x[5])
                if t2:
                    types.add(t2)
            st.extend(c for c in x if isinstance(c, list))
        out[id(t[0])] = (s, types)
    return out


class Frames:
    """core = (stack of (try id, phase), logged)"""

    def __init__(self, an, fn):
        self.an, self.fn = an, fn
        self.tries = tries(fn)
        self.reentered = set()
        self.thrown = []          # (node, type set, core)

    def e4c(self, name, node, core):
        stack, logged = core
        if name == "e4c_try":
            if any(t == id(node) for t, _ in stack):
                self.reentered.add(id(node))
                return [(core, "nz")]
            return [((stack + ((id(node), "0"),), logged), "nz")]
        if name in ("setjmp", "_setjmp", "__sigsetjmp"):
            return [(core, 0)]
        if name == "e4c_hook":
            if not stack:
                return [(core, 0)]
            tid, ph = stack[-1]
            rest = stack[:-1]
            if node[4] and const(node[4][0]):
                return [((rest + ((tid, "caught"),), logged), "nz")]
            if ph == "0":
                return [((rest + ((tid, "try"),), logged), "nz"), ((rest + ((tid, "catch"),), logged), "nz")]
            if ph in ("try", "caught"):
                return [((rest, logged), 0)]
            return []
        return None

    def call(self, flow, name, node, core):
        r = self.e4c(name, node, core)
        if r is not None:
            return r
        an = self.an
        if name in THROW:
            t = exc_name(node[4][0])
            self.thrown.append((node, {t}, core))
            return []
        if name == "logError":
            return [((core[0], True), None)]
        g = an.P.fn(name, tu=flow.fn.tu) if name else None
        if name is None:
            u = an.indirect()
        else:
            u = an.unc.get(g, ()) if g is not None else ()
        if u:
            self.thrown.append((node, set(u), core))
        if g is not None:
            if an.never.get(g):
                return []
            if an.logsum and g in an.loggers and not core[1] and self.fn in an.direct:
                out = []
                for lg, v in an.summary(g):
                    out.append(((core[0], lg), v))
                return out or None
        return None


class FrameFlow(Flow):
    """Flow that knows the stage of the current try frame"""

    def ev(self, e, S):
        r = super().ev(e, S)
        if e[0] == "mem" and e[4] == "stage" and any(n[0] == "ref" and n[3] == "e4c" for n in walk(e[3])):
            st = self.client.an.stage
            return {(s, st.get(s[0][0][-1][1]) if s[0][0] else None) for s, _ in r}
        return r


class Analysis:
    def __init__(self, P):
        self.P = P
        self.types = Types(P)
        self.unc = {}
        self.never = {}
        self.logsum = {}
        self.direct = set()
        self.loggers = P.callers_closure({"logError"})
        self.addr = set()
        T, C = P.enum("e4c_trying"), P.enum("e4c_catching")
        self.stage = {"try": T, "catch": C, "caught": C}
        rel = set(P.callers_closure(set(THROW)))
        for f in P.all_fns("src/cxy/"):
            callee_ids = {id(n[3]) for _, n in P.calls(f)}
            for n in walk(f.body):
                if n[0] == "ref" and n[4] == "f" and id(n) not in callee_ids:
                    g = P.fn(n[3], tu=f.tu)
                    if g is not None:
                        self.addr.add(g)
        self.direct = {f for f in rel if any(nm in THROW for nm, _ in P.calls(f)) and not f.file.endswith("e4c.c")}
        # closure including indirect calls inside throwing files
        ch = True
        cand = {f for f in rel if not f.file.endswith("e4c.c")}
        while ch:
            ch = False
            names = {f.name for f in cand}
            addrthrow = bool(self.addr & cand)
            files = {f.file for f in cand}
            for f in P.all_fns("src/cxy/"):
                if f in cand or f.file.endswith("e4c.c"):
                    continue
                for nm, _ in P.calls(f):
                    g = P.fn(nm, tu=f.tu) if nm else None
                    if g in cand or (nm is None and addrthrow and f.file in files):
                        cand.add(f)
                        ch = True
                        break
        self.cand = cand
        if not self.direct:
            raise AnalysisBroken("no throwing function found")
        # functions that never return (they throw on every path) and uncaught exception types: fixpoint
        for f in cand:
            self.unc[f] = frozenset()
            self.never[f] = False
        self.flows = {}
        work = set(cand)
        callers = {}
        for f in cand:
            for nm, _ in P.calls(f):
                g = P.fn(nm, tu=f.tu) if nm else None
                if g in cand:
                    callers.setdefault(g, set()).add(f)
                if nm is None:
                    callers.setdefault(None, set()).add(f)
        n = 0
        while work:
            f = work.pop()
            n += 1
            u, nv = self.analyse(f)
            if u != self.unc[f] or nv != self.never[f]:
                self.unc[f], self.never[f] = u, nv
                work |= callers.get(f, set())
                if f in self.addr:
                    work |= callers.get(None, set())
        self.rounds = n

    def indirect(self):
        u = set()
        for f in self.addr:
            u |= set(self.unc.get(f, ()))
        return u

    def flow(self, f, core):
        c = Frames(self, f)
        track = bool(c.tries) or f in self.direct
        fl = analyse(self.P, f, c, core, track=track, cls=FrameFlow)
        return c, fl

    def analyse(self, f):
        c = Frames(self, f)
        if not c.tries and f not in self.direct:
            # no try here: everything thrown by the callees passes through
            u = set()
            for nm, n in self.P.calls(f):
                if nm is None:
                    u |= self.indirect()
                else:
                    g = self.P.fn(nm, tu=f.tu)
                    u |= set(self.unc.get(g, ()))
            return frozenset(u), False
        c, fl = self.flow(f, ((), False))
        self.flows[f] = (c, fl)
        u = set()
        for node, ts, core in c.thrown:
            for t in ts:
                if not any(ph == "try" and self.types.caught(t, c.tries[tid][1]) for tid, ph in core[0]):
                    u.add(t)
        return frozenset(u), not fl.exits

    def summary(self, g):
        """(logged, value) pairs with which g can return"""
        if g not in self.logsum:
            self.logsum[g] = {(False, None)}
            c = LogClient(self)
            try:
                fl = analyse(self.P, g, c, False)
                self.logsum[g] = {(core, v) for _, core, v in fl.exits}
            except flow.Blowup:
                pass
        return self.logsum[g]


class LogClient:
    def __init__(self, an):
        self.an = an

    def call(self, flow, name, node, core):
        if name == "logError":
            return [(True, None)]
        if name is None:
            return None
        g = self.an.P.fn(name, tu=flow.fn.tu)
        if name == "makeString" or name == "makeStringSized":
            return [(core, "nz")]      # interning a non-null string gives a string
        if g is not None and g in self.an.loggers and not core:
            return [(core or lg, v) for lg, v in self.an.summary(g)] or None
        return None


def clobbered(P, f, c):
    """non-volatile locals assigned inside a try body and used after an exception"""
    out = []
    addr = set()
    for n in walk(f.body):
        if n[0] == "un" and n[3] == "&":
            b = strip(n[4])
            while b[0] in ("mem", "idx") and not (b[0] == "mem" and b[5]):
                b = strip(b[3])
            if b[0] == "ref":
                addr.add(b[5])
    for tid, (s, types) in c.tries.items():
        inner = {v[1] for d in walk(s) if d[0] == "decl" for v in d[2]}
        asg = {}
        body = None
        for n in walk(s[3]):
            # the guarded block: `if (stage == e4c_trying) BODY`
            if n[0] == "if" and any(m[0] == "enum" and m[3] == "e4c_trying" for m in walk(n[2])):
                body = n[3]
                break
        if body is None:
            continue
        inbody = {id(n) for n in walk(body)}
        written = set()
        for n in walk(body):
            t = None
            if n[0] == "asg":
                t = strip(n[4])
            elif n[0] == "un" and n[3] in ("++", "--", "p++", "p--"):
                t = strip(n[4])
            if t is not None:
                while t[0] in ("mem", "idx") and not (t[0] == "mem" and t[5]):
                    t = strip(t[3])
                if t[0] == "ref" and t[4] in ("v", "p") and t[5] not in inner:
                    if "volatile" in f.tu.types[t[2]].get("c", ""):
                        continue
                    if t[5] not in addr:
                        asg[t[5]] = t
                    written.add(id(t))
        # is it read anywhere outside the try body?
        lhs = {id(strip(n[4])) for n in walk(f.body) if n[0] == "asg" and n[3] == "="}
        for did, t in asg.items():
            reads = [n for n in walk(f.body) if n[0] == "ref" and n[5] == did and id(n) not in inbody and id(n) not in lhs]
            if reads:
                out.append((t, reads[0]))
    return out


def run(ctx):
    P = prog.full()
    ctx.rule("R1-balance", "no try block is left by return, break, continue or goto: its frame would never be released")
    ctx.rule("R2-logged", "an error has been logged on every path before an exception is thrown")
    ctx.rule("R3-caught", "every exception a parser entry point can raise is caught before it returns to its caller")
    ctx.rule("R4-volatile", "locals modified inside a try block and used after an exception are volatile or in memory")
    ctx.rule("R5-runtime", "the exception runtime unwinds one frame per completed try and refuses to overflow its frame stack")
    an = Analysis(P)
    ctx.saw(*an.cand)
    nt = 0
    for f in sorted(an.flows, key=lambda x: (x.file, x.line)):
        c, fl = an.flows[f]
        for tid, (s, types) in c.tries.items():
            nt += 1
            bad = {n[1] if n else f.line for n, core, v in fl.exits if any(t == tid for t, _ in core[0])}
            ctx.check(not bad, "R1-balance", "%s: try at its %s catches" % (f.name, "/".join(sorted(types))), f.loc(s[1]),
                      "the try block is left without releasing its frame (line %s)" % sorted(bad))
            ctx.check(tid not in c.reentered, "R1-balance", "%s: try at its %s catches (again)" % (f.name, "/".join(sorted(types))), f.loc(s[1]),
                      "the try block is entered again while its frame is still open: an iteration left it without releasing the frame")
            ctx.check(bool(types), "R1-balance", "%s: try has a catch" % f.name, f.loc(s[1]), "the try block catches nothing")
        for t, r in clobbered(P, f, c):
            ctx.bad("R4-volatile", "%s: %s" % (f.name, t[3]), f.loc(t[1]),
                    "'%s' is modified inside the try block and read at line %d, where its value is indeterminate after longjmp"
                    % (t[3], r[1]))
        if c.tries:
            ctx.ok("R4-volatile", f.name)
    if nt < 3:
        raise AnalysisBroken("only %d try blocks found" % nt)
    # R2
    roots = {f for f in an.direct if not f.static or f in an.addr or any(
        f in [P.fn(nm, tu=g.tu) for nm, _ in P.calls(g) if nm == f.name] for g in P.all_fns("src/cxy/"))}
    an.logsum = {}
    an.logsum[None] = set()
    nthrow = 0
    for f in sorted(roots, key=lambda x: x.line):
        c, fl = an.flow(f, ((), False))
        for node, ts, core in c.thrown:
            if callee_name(node) not in THROW:
                continue
            nthrow += 1
            ctx.check(core[1], "R2-logged", "%s throws %s" % (f.name, "/".join(str(t) for t in ts)), f.loc(node[1]),
                      "the exception is thrown without an error having been logged: the input would be accepted silently")
    if nthrow < 2:
        raise AnalysisBroken("only %d throw sites found" % nthrow)
    # R3
    entries = set()
    for f in an.cand:
        for g in P.all_fns("src/cxy/"):
            if g.file != f.file and any(P.fn(nm, tu=g.tu) is f for nm, _ in P.calls(g) if nm):
                entries.add(f)
    if not any(f.file.endswith("parser.c") for f in entries):
        raise AnalysisBroken("no parser entry point is called from elsewhere")
    for f in sorted(entries, key=lambda x: (x.file, x.line)):
        u = sorted(str(x) for x in an.unc.get(f, ()))
        ctx.check(not u, "R3-caught", f.name, f.loc(), "%s can leave %s(): nothing catches it there, the compiler is aborted" % (u, f.name))
    runtime(P, ctx)


def runtime(P, ctx):
    """the frame state machine: e4c_try opens a frame within bounds, e4c_hook moves it through its stages and closes it"""
    from absint import Engine, Policy
    t = P.need("e4c_try", "core/e4c.c")
    h = P.need("e4c_hook", "core/e4c.c")
    th = P.need("e4c_throw_ctx", "core/e4c.c")
    E4 = Engine(P, Policy()).glv("e4c", False, types.SimpleNamespace(fn=t))
    FR = ("fld", E4, "frames")
    rec = P.records.get("e4c_context")
    cap = None
    for name, ty in (rec or {}).get("fields", []):
        if name == "jump":
            cap = rec["tu"].types[ty].get("n")
    if not cap:
        raise AnalysisBroken("e4c_context.jump has no known size")

    def fld(n, name):
        return ("fld", ("idx", ("fld", E4, "frame"), n), name)

    def go(f, init, args=None, **kw):
        pol = Policy()
        pol.only = frozenset()
        e = Engine(P, pol)
        ps = e.run(f, init, args)
        ctx.engine(e)
        return ps, e

    for n in (0, 1, cap - 1, cap):
        def init(eng, st):
            eng.write(st, FR, n)
        ps, e = go(t, init)
        opened = [p for p in ps if not any(p.calls(x) for x in THROW)]
        if n < cap:
            ok = len(opened) == len(ps) and ps
            for p in ps:
                ok = ok and e.read(p.st, FR) == n + 1 and e.read(p.st, fld(n + 1, "stage")) == P.enum("e4c_beginning") \
                    and e.read(p.st, fld(n + 1, "uncaught")) == 0 and p.ret not in (0, None)
            ctx.check(ok, "R5-runtime", "e4c_try opens frame %d" % (n + 1), t.loc(),
                      "the frame is not opened: frames=%s" % [e.read(p.st, FR) for p in ps])
        else:
            ctx.check(not opened, "R5-runtime", "e4c_try refuses frame %d" % (n + 1), t.loc(),
                      "a frame is opened beyond the %d available" % cap)
    B, T, C, F = (P.enum("e4c_" + x) for x in ("beginning", "trying", "catching", "finalizing"))
    want = {(B, 0): (T, 2, 1), (B, 1): (T, 2, 1), (T, 0): (F, 2, 1), (T, 1): (C, 2, 1), (C, 0): (F, 2, 1), (C, 1): (F, 2, 1),
            (F, 0): (None, 1, 0), (F, 1): (None, 1, "propagate")}
    for (stg, unc), (ns, nf, ret) in want.items():
        def init(eng, st):
            eng.write(st, FR, 2)
            eng.write(st, fld(2, "stage"), stg)
            eng.write(st, fld(2, "uncaught"), unc)
            eng.write(st, ("p", 0), 0)
        ps, e = go(h, init, [0])
        ok = bool(ps)
        got = []
        for p in ps:
            prop = bool(p.calls("e4c_propagate"))
            got.append((e.read(p.st, fld(2, "stage")), e.read(p.st, FR), p.ret, prop))
            ok = ok and e.read(p.st, FR) == nf and (ns is None or e.read(p.st, fld(2, "stage")) == ns)
            ok = ok and (prop if ret == "propagate" else (not prop and p.ret == ret))
        ctx.check(ok, "R5-runtime", "e4c_hook from stage %d%s" % (stg, " with a pending exception" if unc else ""), h.loc(),
                  "(stage, frames, result, propagates) is %s, expected %s" % (got, (ns, nf, ret)))

    def init(eng, st):
        eng.write(st, FR, 2)
        eng.write(st, fld(2, "uncaught"), 1)
    ps, e = go(h, init, [1])
    ctx.check(ps and all(e.read(p.st, fld(2, "uncaught")) == 0 and p.ret == 1 and e.read(p.st, FR) == 2 for p in ps),
              "R5-runtime", "e4c_hook marks a caught exception", h.loc(), "a caught exception stays pending")
    ps, e = go(th, None)
    ctx.check(ps and all(p.calls("e4c_propagate") and e.read(p.st, ("fld", ("fld", E4, "err"), "type")) in
                         ((("p", 0),) if e.truth(p.st, ("p", 0)) is not False else (None,)) + tuple(
                             x for x in [e.read(p.st, ("fld", ("fld", E4, "err"), "type"))] if e.truth(p.st, ("p", 0)) is False and x != ("p", 0))
                         and e.read(p.st, ("fld", ("fld", E4, "err"), "ctx")) == ("p", 4) for p in ps),
              "R5-runtime", "e4c_throw_ctx records the exception", th.loc(), "the exception's type or context is not recorded")
