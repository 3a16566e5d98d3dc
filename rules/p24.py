"""P24: every name means the innermost declaration that is visible where it is written.

The scopes are a stack of symbol tables; the rules check the operations on that stack (what a lookup finds, what a definition changes), then
for every construct of the language that it pushes its scope around exactly the parts that see its names, with names defined
before the parts that use them, and last how a path, `this`, `super`, `break`, `continue`, `return` and `defer` find what they refer to.
Scopes, symbols and the nodes of one construct are preset objects, and a symbol table is a set of named cells."""
from absint import Engine, Ev, Frame, Policy, deref, show, subterms
from build import AnalysisBroken
from heap import Heap, name_of

LEVEL = "other"
L, VIS = ("&", ("h", "log")), ("&", ("h", "visitor"))
FIND = "findInHashTable"


def nm(x):
    return ("&", ("h", "'%s'" % x))


def cell(eng, st, table, name):
    return ("fld", table[1] if table[0] == "&" else ("*", table), "$" + name_of(name))


def m_find(eng, st, fr, args, node):
    n = eng.read(st, ("fld", deref(args[1]), "name"))
    return [(st, st.mem.get(cell(eng, st, args[0], n), 0))]


def m_insert(eng, st, fr, args, node):
    n = eng.read(st, ("fld", deref(args[1]), "name"))
    c = cell(eng, st, args[0], n)
    if st.mem.get(c, 0):
        return [(st, 0)]
    st = st.copy()
    st.nid += 1
    o = ("h", "symbol%d" % st.nid)
    for f in ("name", "node", "index", "last"):
        st.mem[("fld", o, f)] = eng.read(st, ("fld", deref(args[1]), f))
    st.mem[c] = ("&", o)
    return [(st, 1)]


def m_clear(eng, st, fr, args, node):
    t = args[0][1]
    st = st.copy()
    for k in [k for k in st.mem if k[0] == "fld" and k[1] == t and k[2].startswith("$")]:
        del st.mem[k]
    return [(st, 0)]


def m_alloc(eng, st, fr, args, node):
    st = st.copy()
    st.nid += 1
    o = ("h", "new%d" % st.nid)
    st.mem[("fld", o, "@")] = 0
    return [(st, ("&", o))]


class W:
    def __init__(self, P):
        self.P = P
        self.scope_file = P.need("findSymbol").file
        self.bind_files = {self.scope_file, P.need("bindAstPhase2").file, P.need("bindAstPhase1").file, P.need("bindAst").file}
        self.scope_fns = {f.name for f in P.all_fns() if f.file == self.scope_file}
        self.bind_fns = {f.name for f in P.all_fns() if f.file in self.bind_files}
        self.ast_fns = {"hasFlag", "hasFlags", "nodeIs_", "underlyingDeclaration", "getDeclarationName", "findMemberByName", "isClassOrStructAstNode", "setForwardDeclDefinition",
                        "isClassDeclaration", "isStructDeclaration", "resolvePath", "isIgnoreVar", "insertAstNode", "integerLiteralValue", "isClassOrStructDeclaration"}

    def heap(self):
        h = Heap(self.P)
        h.obj("log")
        self.n = 0
        return h

    def node(self, h, name, tag, flags=(), **f):
        fl = 0
        for x in flags:
            fl |= self.P.flag("flg" + x)
        f.setdefault("attrs", 0)
        f.setdefault("parentScope", 0)
        f.setdefault("type", 0)
        return h.obj(name, tag=self.P.enum("ast" + tag), flags=fl, **dict({"next": 0}, **f))

    def chain(self, h, *nodes):
        for a, b in zip(nodes, nodes[1:]):
            h.set(a, next=b)
        return nodes[0] if nodes else 0

    def env(self, h, *scopes, spare=False):
        """scopes: (node, {name: node}) outermost first"""
        prev = 0
        ps = []
        for i, (n, syms) in enumerate(scopes):
            s = h.obj("scope%d" % i, prev=prev, node=n, level=i, next=0)
            if prev:
                h.set(prev, next=s)
            for k, v in syms.items():
                self.symbol(h, s, k, v)
            prev = s
            ps.append(s)
        if spare:
            s = h.obj("spare", prev=prev, node=nm("stale"), level=len(scopes), next=0)
            h.set(prev, next=s)
        e = h.obj("env", first=ps[0] if ps else 0, scope=prev)
        return e, ps

    def symbol(self, h, s, k, v, index=1):
        self.n += 1
        y = h.obj("sym%d" % self.n, name=nm(k), node=v, index=index, last=v)
        h.mem[("fld", ("fld", s[1], "symbols"), "$'%s'" % k)] = y
        return y

    def context(self, h, env, **f):
        c = h.obj("ctx", L=L, pool=nm("pool"), strings=nm("strings"), env=env,
                  **dict(dict(isComptimeContext=0, inTestCase=0, isConstFunc=0, currentClosure=0), **f))
        h.obj("visitor", context=c)
        return c


def engine(w, h, models=None, only=(), bound=6):
    def ignore(eng, st, fr, args, node):
        return [(st, int(args[0] == nm("_")))]

    def enc(st, name):
        return int(st.mem.get(("fld", ("h", "env?"), name), 0))
    ms = dict(findInHashTable=m_find, insertInHashTable=m_insert, clearHashTable=m_clear, mallocOrDie=m_alloc, isIgnoreVar=ignore,
              hashPtr=lambda e, s, f, a, n: [(s, ("hash", a[1]))], hashInit=lambda e, s, f, a, n: [(s, 0)],
              newHashTable=lambda e, s, f, a, n: [(s, ("emptytable",))],
              suggestSimilarSymbol=lambda e, s, f, a, n: [(s, 0)],
              makeString=lambda e, s, f, a, n: [(s, a[1])])
    for k, v in (models or {}).items():
        ms[k] = v

    class Pol(Policy):
        max_states, loop_bound, max_depth = 20000, bound, 12
        only_ = frozenset((w.bind_fns | w.ast_fns | set(only)) - set(ms))
        record_calls = frozenset({"logError", "addClosureCapture", "setForwardDeclDefinition"})
    Pol.only = Pol.only_
    Pol.models = ms
    return Engine(w.P, Pol())


def start(h, fn):
    def init(eng, st):
        h.install(eng, st)
        for n in ("S_this", "S_super", "S_This"):
            st.mem[eng.glv(n, False, Frame(fn, 0, 0, ()))] = nm(n)
    return init


def runs(ctx, w, fn, h, args, **kw):
    e = engine(w, h, **kw)
    ps = e.run(fn, start(h, fn), args)
    ctx.engine(e)
    return e, ps


def errors(p):
    return len(p.calls("logError"))


def got(e, p, o, *path):
    lv = o[1]
    for f in path:
        lv = ("fld", lv, f)
    return e.read(p.st, lv)


def one(ctx, rid, inst, fn, ps):
    if len(ps) != 1:
        ctx.bad(rid, inst, fn.loc(), "the outcome depends on more than the declarations in scope: " + "; ".join(p.describe(2) for p in ps[:3])[:200])
        return None
    return ps[0]


# ------------------------------------------------------------------ R1: the stack of scopes

def lookups(ctx, w):
    P = w.P
    fn = P.need("findSymbol")
    for mask in range(8):
        for ini, bi in ((0, None), (1, None), (1, "private"), (1, "public"), (0, "public")):
            for log in (1, 0):
                h = w.heap()
                d = [w.node(h, "decl%d" % i, "VarDecl") for i in range(3)]
                sc = [w.node(h, "block%d" % i, "BlockStmt") for i in range(3)]
                env, ss = w.env(h, *[(sc[i], {"x": d[i]} if mask >> i & 1 else {"y": d[i]}) for i in range(3)])
                b = w.node(h, "builtin", "FuncDecl", ("Public",) if bi == "public" else ()) if bi else 0
                e, ps = runs(ctx, w, fn, h, [env, L if log else 0, nm("x"), nm("loc")],
                            models=dict(isBuiltinsInitialized=lambda E, s, f, a, n: [(s, ini)], findBuiltinDecl=lambda E, s, f, a, n: [(s, b if a[0] == nm("x") else 0)]))
                want = next((d[i] for i in (2, 1, 0) if mask >> i & 1), 0) or (b if ini and bi == "public" else 0)
                inst = "lookup with a declaration in %s, %s builtin%s%s" % (
                    "+".join(s for i, s in enumerate(("outer", "middle", "inner")) if mask >> i & 1) or "no scope", bi or "no", "" if ini else " before builtins", "" if log else ", quiet")
                p = one(ctx, "R1-lookup", inst, fn, ps)
                if p:
                    ctx.check(p.ret == want, "R1-lookup", inst, fn.loc(), "found %s instead of %s" % (show(p.ret), show(want)))
                    ctx.check(errors(p) == int(not want and log), "R1-lookup", inst + ": error", fn.loc(),
                              "%d errors are reported, %d expected" % (errors(p), int(not want and log)))


def defines(ctx, w):
    P = w.P
    for name in ("defineSymbol", "defineForwardDeclarable", "updateSymbol", "defineFunctionDecl"):
        fn = P.need(name)
        for prev in (None, "var", "forward", "func", "func2"):
            for log in ((1, 0) if name != "updateSymbol" else (1,)):
                for ign in (0, 1):
                    h = w.heap()
                    n = "_" if ign else "x"
                    outer = w.node(h, "outer", "FuncDecl")
                    new = w.node(h, "new", "FuncDecl", list__link=0, list__first=0, funcDecl__name=nm(n), funcDecl__index=0)
                    old, second = 0, None
                    if prev:
                        old = w.node(h, "old", "FuncDecl" if prev in ("func", "func2", "forward") else "VarDecl", ("ForwardDecl",) if prev == "forward" else (), list__link=0)
                        h.set(old, list__first=old, funcDecl__definition=0, funcDecl__index=0)
                    b = [w.node(h, "block%d" % i, "BlockStmt") for i in range(2)]
                    env, ss = w.env(h, (b[0], {n: outer}), (b[1], {n: old} if prev else {}))
                    if prev == "func2":
                        second = w.node(h, "second", "FuncDecl", list__link=0, list__first=old, funcDecl__index=1)
                        h.set(old, list__link=second)
                        y = h.mem[("fld", ("fld", ss[1][1], "symbols"), "$'%s'" % n)]
                        h.set(y, last=second, index=2)
                    args = [env, nm(n), new] if name == "updateSymbol" else [env, L if log else 0, nm(n), new]
                    e, ps = runs(ctx, w, fn, h, args)
                    inst = "%s %s%s over %s" % (name, "'_'" if ign else "a name", "" if log else ", quiet", {None: "nothing", "var": "a variable", "forward": "a forward declaration", "func": "a function", "func2": "two overloads"}[prev])
                    p = one(ctx, "R1-define", inst, fn, ps)
                    if not p:
                        continue
                    key = lambda s: p.st.mem.get(("fld", ("fld", s[1], "symbols"), "$'%s'" % n), 0)
                    node = lambda s: got(e, p, key(s), "node") if key(s) else 0
                    bad = None
                    fdef = name == "defineFunctionDecl"
                    taken = bool(prev) and (name == "defineSymbol" or name == "defineForwardDeclarable" and prev != "forward" or fdef and prev == "var")
                    want = (old if prev else 0) if ign else new if not prev or name == "updateSymbol" or name == "defineForwardDeclarable" and prev == "forward" else old
                    if node(ss[0]) != outer:
                        bad = "the declaration of the enclosing scope is changed"
                    elif node(ss[1]) != want:
                        bad = "the name means %s afterwards instead of %s" % (show(node(ss[1])), show(want))
                    elif errors(p) != int(taken and log and not ign):
                        bad = "%d errors are reported, %d expected" % (errors(p), int(taken and log and not ign))
                    elif fdef and not ign and not taken:
                        first, x, seq = (old or new), old or new, []
                        while isinstance(x, tuple) and x[0] == "&" and len(seq) < 5:
                            seq.append(x)
                            x = got(e, p, x, "list", "link")
                        if seq != [y for y in (old, second, new) if y]:
                            bad = "the overloads of the name are %s" % ", ".join(name_of(y) for y in seq)
                        elif got(e, p, new, "list", "first") != first:
                            bad = "the new overload is not attached to the first"
                        elif got(e, p, new, "funcDecl", "index") != len(seq) - 1 or got(e, p, key(ss[1]), "index") != len(seq):
                            bad = "overloads do not get consecutive numbers"
                        elif got(e, p, key(ss[1]), "last") != new:
                            bad = "the next overload is appended to the wrong function"
                    elif name == "defineSymbol" and p.ret != int(not taken and not ign):
                        bad = "the outcome of the definition is reported as %s" % show(p.ret)
                    elif name == "defineForwardDeclarable" and prev == "forward" and not ign and got(e, p, old, "funcDecl", "definition") != new:
                        bad = "the forward declaration does not get its definition"
                    ctx.check(bad is None, "R1-define", inst, fn.loc(), bad)


def stack(ctx, w):
    P = w.P
    push, pop, init = P.need("pushScope"), P.need("popScope"), P.need("environmentInit")
    for spare in (0, 1):
        h = w.heap()
        b = [w.node(h, "block%d" % i, "BlockStmt") for i in range(3)]
        d = [w.node(h, "decl%d" % i, "VarDecl") for i in range(2)]
        env, ss = w.env(h, (b[0], {"x": d[0]}), (b[1], {"x": d[1]}), spare=spare)
        inst = "push onto a %s scope" % ("reused" if spare else "new")
        e, ps = runs(ctx, w, push, h, [env, b[2]])
        p = one(ctx, "R1-stack", inst, push, ps)
        if p:
            s = got(e, p, env, "scope")
            ok = isinstance(s, tuple) and s[0] == "&" and s not in ss
            bad = None if ok else "no new scope is entered"
            if ok and got(e, p, s, "prev") != ss[1]:
                bad = "the new scope is not nested in the current one"
            elif ok and got(e, p, s, "node") != b[2]:
                bad = "the scope does not belong to its construct"
            elif ok and (got(e, p, ss[1], "next") != s or got(e, p, s, "next") != 0):
                bad = "the scopes are not linked: the next one is lost or left over"
            elif any(k[0] == "fld" and k[1] == ("fld", s[1], "symbols") and str(k[2]).startswith("$") for k in p.st.mem):
                bad = "the new scope already has names"
            elif not spare and got(e, p, s, "symbols") != ("emptytable",):
                bad = "the symbols of the new scope are not set up"
            ctx.check(bad is None, "R1-stack", inst, push.loc(), bad)
    h = w.heap()
    b = [w.node(h, "block%d" % i, "BlockStmt") for i in range(2)]
    d = [w.node(h, "decl%d" % i, "VarDecl") for i in range(3)]
    env, ss = w.env(h, (b[0], {"x": d[0]}), (b[1], {"x": d[1], "y": d[2]}))
    e, ps = runs(ctx, w, pop, h, [env], models={"clearHashTable": lambda E, s, f, a, n: m_clear(E, s, f, a, n)})
    p = one(ctx, "R1-stack", "pop", pop, ps)
    if p:
        left = [k for k in p.st.mem if k[0] == "fld" and k[1] == ("fld", ss[1][1], "symbols") and str(k[2]).startswith("$")]
        kept = [k for k in p.st.mem if k[0] == "fld" and k[1] == ("fld", ss[0][1], "symbols") and str(k[2]).startswith("$")]
        ctx.check(got(e, p, env, "scope") == ss[0], "R1-stack", "pop: enclosing scope", pop.loc(), "the enclosing scope is not current afterwards")
        ctx.check(not left, "R1-stack", "pop: names", pop.loc(), "the names of a scope that ended are still in its table, which the next scope at this depth reuses")
        ctx.check(len(kept) == 1, "R1-stack", "pop: outer names", pop.loc(), "the names of the enclosing scope are lost")
    h = w.heap()
    n = w.node(h, "program", "Program")
    env = h.obj("env", first=nm("junk"), scope=nm("junk"))
    e, ps = runs(ctx, w, init, h, [env, n])
    p = one(ctx, "R1-stack", "init", init, ps)
    if p:
        s = got(e, p, env, "scope")
        ok = isinstance(s, tuple) and s[0] == "&" and s != nm("junk") and got(e, p, env, "first") == s and got(e, p, s, "prev") == 0 and got(e, p, s, "node") == n and got(e, p, s, "next") == 0
        ctx.check(ok, "R1-stack", "init: one scope", init.loc(), "a new environment does not consist of the scope of its node")
    cmp_ = P.need(comparison(w))
    for a, c in (("x", "x"), ("x", "y")):
        h = w.heap()
        l, r = h.obj("l", name=nm(a), node=nm("n1")), h.obj("r", name=nm(c), node=nm("n2"))
        e, ps = runs(ctx, w, cmp_, h, [l, r])
        p = one(ctx, "R1-stack", "compare %s %s" % (a, c), cmp_, ps)
        if p:
            ctx.check(p.ret == int(a == c), "R1-stack", "compare %s with %s" % (a, c), cmp_.loc(), "two names are compared as %s" % show(p.ret))


def comparison(w):
    """the function by which a lookup compares symbols"""
    h = w.heap()
    env, ss = w.env(h, (w.node(h, "block", "BlockStmt"), {}))
    seen = set()

    def m(eng, st, fr, a, node):
        seen.add(a[4])
        return m_find(eng, st, fr, a, node)
    e = engine(w, h, models={"findInHashTable": m, "isBuiltinsInitialized": lambda E, s, f, A, N: [(s, 0)]})
    fn = w.P.need("findSymbol")
    e.run(fn, start(h, fn), [env, 0, nm("x"), nm("loc")])
    if len(seen) != 1 or list(seen)[0][0] != "fn":
        raise AnalysisBroken("the comparison of symbols is not known")
    return list(seen)[0][1]


def hashes(ctx, w):
    """every access to a symbol table passes the hash of the name it looks for, the size of a symbol and the comparison of names"""
    P = w.P
    n, cmpname = 0, comparison(w)
    for fname, args in (("findSymbol", 4), ("defineSymbol", 4), ("defineForwardDeclarable", 4), ("updateSymbol", 3), ("defineFunctionDecl", 4)):
        fn = P.need(fname)
        h = w.heap()
        b = w.node(h, "block", "BlockStmt")
        new = w.node(h, "new", "FuncDecl", list__link=0, list__first=0, funcDecl__index=0)
        old = w.node(h, "old", "FuncDecl", ("ForwardDecl",), list__link=0)
        env, ss = w.env(h, (b, {"x": old}))
        seen = []

        def m(base):
            def f(eng, st, fr, a, node):
                seen.append((eng.read(st, ("fld", deref(a[1]), "name")), a[2], a[3], a[4]))
                return base(eng, st, fr, a, node)
            return f
        a = {4: [env, L, nm("x"), new if fname != "findSymbol" else nm("loc")], 3: [env, nm("x"), new]}[args]
        e, ps = runs(ctx, w, fn, h, a, models={"findInHashTable": m(m_find), "insertInHashTable": m(m_insert), "isBuiltinsInitialized": lambda E, s, f, A, N: [(s, 0)]})
        for name, hv, size, cmp_ in seen:
            n += 1
            ctx.check(name == nm("x") and hv == ("hash", nm("x")), "R1-hash", "%s %d" % (fname, n), fn.loc(), "looks for %s under the hash of %s" % (show(name), show(hv)))
            ctx.check(cmp_ == ("fn", cmpname) and isinstance(size, int), "R1-hash", "%s %d: comparison" % (fname, n), fn.loc(), "symbols are compared by %s" % show(cmp_))
        ctx.check(len({x[2] for x in seen}) == 1, "R1-hash", fname + ": size", fn.loc(), "symbols are accessed with different sizes")


# ------------------------------------------------------------------ R2: the scope of each construct

def tables(ctx, w, starter):
    """tag -> function in the dispatch table that `starter` hands to its visitor, the fallback and the dispatcher"""
    P = w.P
    fn = P.need(starter)
    seen = []

    def m(eng, st, fr, args, node):
        seen.append(eng.load_obj(st, args[0][1]) if args[0][0] == "&" else args[0])
        return [(st, 0)]

    class Pol(Policy):
        only = frozenset()
        models = {"astVisit": m}
    e = Engine(P, Pol())
    e.run(fn)
    ctx.engine(e)
    if len(seen) != 1:
        raise AnalysisBroken("%s does not start one visitor" % starter)
    out, other = {}, {}
    for p, v in seen[0][2]:
        n = [x for x in subterms(v) if isinstance(x, tuple) and x[0] == "fn"]
        if not n:
            continue
        if len(p) == 2 and p[0] == ("fld", "visitors"):
            out[p[1][1]] = n[0][1]
        elif len(p) == 1:
            other[p[0][1]] = n[0][1]
    return out, other


def m_visits(w):
    def rec(eng, st, fr, a, node, kind="visit"):
        if a[1] == 0:
            return [(st, 0)]
        st = st.copy()
        eng.record(st, Ev("ev", kind, (a[1],), fr.fn.loc(node[1]), None, fr.fn.name, node))
        return [(st, 0)]

    def many(eng, st, fr, a, node):
        st = st.copy()
        x, k = a[1], 0
        while isinstance(x, tuple) and x[0] == "&" and k < 10:
            eng.record(st, Ev("ev", "visit", (x,), fr.fn.loc(node[1]), None, fr.fn.name, node))
            x = eng.read(st, ("fld", x[1], "next"))
            k += 1
        return [(st, 0)]

    def push(eng, st, fr, a, node):
        st = st.copy()
        eng.record(st, Ev("ev", "push", (a[1],), fr.fn.loc(node[1]), None, fr.fn.name, node))
        return [(st, 0)]

    def pop(eng, st, fr, a, node):
        st = st.copy()
        eng.record(st, Ev("ev", "pop", (), fr.fn.loc(node[1]), None, fr.fn.name, node))
        return [(st, 0)]

    def define(eng, st, fr, a, node):
        st = st.copy()
        eng.record(st, Ev("ev", "define", (a[-2], a[-1]), fr.fn.loc(node[1]), None, fr.fn.name, node))
        return [(st, 1)]
    return dict(astVisit=rec, astVisitManyNodes=many, astVisitFallbackVisitAll=rec, pushScope=push, popScope=pop, defineSymbol=define,
                defineForwardDeclarable=define, defineFunctionDecl=define, updateSymbol=define)


def lname(v):
    n = name_of(v)
    return n


def scenarios(w):
    """kind -> list of (what, builder(h) -> node, {event: place}, [order], context)"""
    N = w.node

    def ident(h, n):
        return N(h, "name:" + n, "Identifier", ident__value=nm(n), ident__alias=0)

    def var(h, n, **f):
        d = N(h, "var:" + n, "VarDecl", varDecl__names=ident(h, n), varDecl__name=nm(n), _name=nm(n), varDecl__init=0, varDecl__type=0, **f)
        return d
    S = {}

    def add(tag, what, build, want, order=(), **kw):
        S.setdefault(tag, []).append((what, build, want, list(order), kw))

    def s(h, n, tag="BlockStmt"):
        return N(h, n, tag)
    gen = lambda h, n: N(h, n, "GenericDecl", genericDecl__decl=N(h, n + ".func", "FuncDecl", funcDecl__name=nm("f:" + n)), genericDecl__params=0)
    mac = lambda h, n: N(h, n, "MacroDecl", macroDecl__name=nm("f:" + n))
    meth = lambda h, n: N(h, n, "FuncDecl", funcDecl__name=nm("f:" + n), list__link=0, list__first=0)
    # loops and conditions
    add("ForStmt", "loop", lambda h: N(h, "node", "ForStmt", forStmt__range=s(h, "range", "RangeExpr"), forStmt__var=w.chain(h, var(h, "a"), var(h, "b")), forStmt__body=s(h, "body")),
        {"visit range": None, "visit var:a": "in", "visit var:b": "in", "visit body": "in"},
        ["visit range < visit var:a", "visit range < visit var:b", "visit var:a < visit body", "visit var:b < visit body"])
    add("WhileStmt", "loop", lambda h: N(h, "node", "WhileStmt", whileStmt__cond=s(h, "cond", "VarDecl"), whileStmt__body=s(h, "body"), whileStmt__update=0),
        {"visit cond": "in", "visit body": "in"}, ["visit cond < visit body"])
    add("IfStmt", "with else", lambda h: N(h, "node", "IfStmt", ifStmt__cond=s(h, "cond", "VarDecl"), ifStmt__body=s(h, "body"), ifStmt__otherwise=s(h, "otherwise")),
        {"visit cond": "in", "visit body": "in", "visit otherwise": "in"}, ["visit cond < visit body", "visit cond < visit otherwise"])
    add("IfStmt", "without else", lambda h: N(h, "node", "IfStmt", ifStmt__cond=s(h, "cond", "VarDecl"), ifStmt__body=s(h, "body"), ifStmt__otherwise=0),
        {"visit cond": "in", "visit body": "in"}, ["visit cond < visit body"])
    for t, f, c in (("SwitchStmt", "switchStmt", "cond"), ("MatchStmt", "matchStmt", "expr")):
        add(t, "cases", lambda h, t=t, f=f, c=c: N(h, "node", t, **{f + "__" + c: s(h, "cond", "VarDecl"), f + "__cases": w.chain(h, s(h, "case1", "CaseStmt"), s(h, "case2", "CaseStmt"))}),
            {"visit cond": "in", "visit case1": "in", "visit case2": "in"}, ["visit cond < visit case1", "visit cond < visit case2"])
    add("CaseStmt", "with a variable", lambda h: N(h, "node", "CaseStmt", caseStmt__match=s(h, "match", "Path"), caseStmt__variable=ident(h, "v"), caseStmt__body=s(h, "body")),
        {"visit match": None, "define 'v' name:v": "in", "visit body": "in"}, ["visit match < define 'v' name:v", "define 'v' name:v < visit body"])
    add("CaseStmt", "default", lambda h: N(h, "node", "CaseStmt", caseStmt__match=0, caseStmt__variable=0, caseStmt__body=s(h, "body")), {"visit body": "in"})
    add("BlockStmt", "statements", lambda h: N(h, "node", "BlockStmt", blockStmt__stmts=w.chain(h, s(h, "a", "VarDecl"), s(h, "b", "FuncDecl"), s(h, "c", "ReturnStmt"))),
        {"visit a": "in", "visit b": "in", "visit c": "in"}, ["visit a < visit b", "visit b < visit c"])
    add("BlockStmt", "compile-time block of a file", lambda h: N(h, "node", "BlockStmt", blockStmt__stmts=w.chain(h, s(h, "a", "VarDecl"), meth(h, "m1"), mac(h, "mac"), s(h, "c", "ReturnStmt"))),
        {"visit a": "in", "visit m1": "in", "visit mac": "in", "visit c": "in", "define 'f:m1' m1": "in", "define 'f:mac' mac": "in"},
        ["visit a < visit c"] + ["define 'f:%s' %s < visit %s" % (a, a, c) for a in ("m1", "mac") for c in ("m1", "mac")], file=True, ctx=dict(isComptimeContext=1))
    # declarations
    fn = lambda h, n, ps, body, flags=(), **f: N(h, n, "FuncDecl", flags, funcDecl__name=nm("f:" + n), funcParam__name=nm("f:" + n), funcDecl__this_=0, list__link=0, list__first=0,
                                                 funcDecl__signature=h.obj("sig:" + n, params=ps, ret=s(h, "ret", "Path") if body else 0), funcDecl__body=body, **f)
    param = lambda h, n: N(h, "param:" + n, "FuncParamDecl", funcParam__name=nm(n))
    for where in ("function", "method", "static method"):
        add("FuncDecl", where, lambda h, where=where: fn(h, "node", w.chain(h, param(h, "a"), param(h, "b")), s(h, "body"), ("Static",) if where[0] == "s" else ()),
            {"visit param:a": "in", "visit param:b": "in", "visit body": "in", "visit ret": None},
            ["visit param:a < visit body", "visit param:b < visit body", "visit param:a < visit param:b"],
            enclosing=where != "function", this=where == "method", also=("define 'f:node' node",) if where == "method" else ())
    add("FuncParamDecl", "parameter", lambda h: N(h, "node", "FuncParamDecl", funcParam__name=nm("p"), funcParam__type=s(h, "type", "Path"), funcParam__def=s(h, "def", "IntegerLit")),
        {"visit type": "out", "visit def": "out", "define 'p' node": "out"}, ["visit type < define 'p' node", "visit def < define 'p' node"])
    add("GenericParam", "parameter", lambda h: N(h, "node", "GenericParam", genericParam__name=nm("T"), genericParam__constraints=s(h, "constraint", "Path"), genericParam__defaultValue=s(h, "def", "Path")),
        {"define 'T' node": "out", "visit constraint": "out", "visit def": "out"})
    add("GenericDecl", "declaration", lambda h: N(h, "node", "GenericDecl", genericDecl__params=w.chain(h, s(h, "p1", "GenericParam"), s(h, "p2", "GenericParam")), genericDecl__decl=s(h, "decl", "FuncDecl")),
        {"visit p1": "in", "visit p2": "in", "visit decl": "in"}, ["visit p1 < visit decl", "visit p2 < visit decl"])
    add("FuncType", "type", lambda h: N(h, "node", "FuncType", funcType__ret=s(h, "ret", "Path"), funcType__params=w.chain(h, param(h, "a"), param(h, "b"))),
        {"visit ret": None, "visit param:a": "in", "visit param:b": "in"})
    add("VarDecl", "one name", lambda h: var_(h, ["x"]), {"visit init": "out", "visit type": "out", "define 'x' node": "out"}, ["visit init < define 'x' node", "visit type < define 'x' node"])
    add("VarDecl", "two names", lambda h: var_(h, ["x", "y"]), {"visit init": "out", "visit type": "out", "define 'x' node": "out", "define 'y' node": "out"},
        ["visit init < define 'x' node", "visit init < define 'y' node"])

    def var_(h, names):
        return N(h, "node", "VarDecl", varDecl__names=w.chain(h, *[ident(h, n) for n in names]), varDecl__type=s(h, "type", "Path"), varDecl__init=s(h, "init", "Path"))
    add("FieldDecl", "field", lambda h: N(h, "node", "FieldDecl", structField__name=nm("x"), structField__type=s(h, "type", "Path"), structField__value=s(h, "value", "Path")),
        {"visit type": "out", "visit value": "out", "define 'x' node": "out"})
    add("EnumOptionDecl", "option", lambda h: N(h, "node", "EnumOptionDecl", enumOption__name=nm("x"), enumOption__value=s(h, "value", "IntegerLit")),
        {"visit value": "out", "define 'x' node": "out"})
    opt = lambda h, n, v: N(h, n, "EnumOptionDecl", enumOption__value=v, enumOption__name=nm(n))
    add("EnumDecl", "options", lambda h: N(h, "node", "EnumDecl", enumDecl__base=s(h, "base", "PrimitiveType"), enumDecl__options=w.chain(h, opt(h, "A", 0), opt(h, "B", N(h, "lit", "IntegerLit", intLiteral__isNegative=0, intLiteral__uValue=4)), opt(h, "C", 0))),
        {"visit base": None, "visit A": "in", "visit B": "in", "visit C": "in"}, ["visit A < visit B", "visit B < visit C"])
    members = lambda h: w.chain(h, s(h, "field1", "FieldDecl"), meth(h, "m1"), mac(h, "mac"), gen(h, "gen"), s(h, "field2", "FieldDecl"), meth(h, "m2"), s(h, "alias", "TypeDecl"))

    def classmembers(h):
        m = members(h)
        return dict(classDecl__members=m, structDecl__members=m)
    mev = {"visit field1": "in", "visit field2": "in", "visit alias": "in", "define 'This' node": "in"}
    for n in ("m1", "m2", "mac", "gen"):
        mev["define 'f:%s' %s" % (n, n)] = "in"
        mev["visit " + n] = "in"
    order = ["%s < visit %s" % (d, n) for n in ("m1", "m2", "mac", "gen") for d in mev if d.startswith("define 'f:") or d.startswith("visit field") or d.startswith("define 'This'")]
    add("StructDecl", "members", lambda h: N(h, "node", "StructDecl", structDecl__members=members(h), structDecl__base=0, structDecl__name=nm("S"), structDecl__implements=0), mev, order, optional=("define 'S' node",))
    add("ClassDecl", "members", lambda h: N(h, "node", "ClassDecl", **classmembers(h), classDecl__base=s(h, "base", "Path"), classDecl__name=nm("S"), structDecl__name=nm("S"),
                                             classDecl__implements=w.chain(h, s(h, "i1", "Path"), s(h, "i2", "Path"))),
        dict(mev, **{"visit base": "out", "visit i1": "out", "visit i2": "out"}), order, optional=("define 'S' node",))
    add("InterfaceDecl", "members", lambda h: N(h, "node", "InterfaceDecl", interfaceDecl__members=w.chain(h, s(h, "m1", "FuncDecl"), s(h, "m2", "FuncDecl"))), {"visit m1": "in", "visit m2": "in"})
    add("UnionDecl", "members", lambda h: N(h, "node", "UnionDecl", unionDecl__members=w.chain(h, s(h, "m1", "FieldDecl"), s(h, "m2", "FieldDecl"))), {"visit m1": None, "visit m2": None})
    add("TypeDecl", "alias", lambda h: N(h, "node", "TypeDecl", typeDecl__aliased=s(h, "aliased", "Path"), typeDecl__name=nm("U")), {"visit aliased": "out"}, optional=("define 'U' node",))
    add("Exception", "declaration", lambda h: N(h, "node", "Exception", exception__params=w.chain(h, param(h, "a"), param(h, "b")), exception__body=s(h, "body")),
        {"visit param:a": "in", "visit param:b": "in", "visit body": "in"}, ["visit param:a < visit body", "visit param:b < visit body"])
    add("ClosureExpr", "closure", lambda h: N(h, "node", "ClosureExpr", closureExpr__ret=s(h, "ret", "Path"), closureExpr__params=w.chain(h, param(h, "a"), param(h, "b")), closureExpr__body=s(h, "body"), closureExpr__captureSet__index=0),
        {"visit ret": None, "visit param:a": "in", "visit param:b": "in", "visit body": "in"}, ["visit param:a < visit body", "visit param:b < visit body"], closure=True)
    add("TupleXform", "both variables", lambda h: N(h, "node", "TupleXform", xForm__target=s(h, "target", "Path"), xForm__args=w.chain(h, var(h, "a"), var(h, "b")), xForm__cond=s(h, "cond", "Path"), xForm__xForm=s(h, "xform", "Path")),
        {"visit target": "out", "define 'a' var:a": "in", "define 'b' var:b": "in", "visit cond": "in", "visit xform": "in"},
        ["define '%s' var:%s < visit %s" % (v, v, c) for v in "ab" for c in ("cond", "xform")])
    add("TupleXform", "one variable", lambda h: N(h, "node", "TupleXform", xForm__target=s(h, "target", "Path"), xForm__args=var(h, "a"), xForm__cond=0, xForm__xForm=s(h, "xform", "Path")),
        {"visit target": "out", "define 'a' var:a": "in", "visit xform": "in"}, ["define 'a' var:a < visit xform"])
    add("DeferStmt", "statement", lambda h: N(h, "node", "DeferStmt", deferStmt__stmt=s(h, "stmt", "ExprStmt")), {"visit stmt": "out"})
    add("ReturnStmt", "statement", lambda h: N(h, "node", "ReturnStmt", returnStmt__expr=s(h, "expr", "Path")), {"visit expr": "out"})
    asg = lambda h: N(h, "named", "AssignExpr", assignExpr__lhs=N(h, "lhs", "Path", path__elements=N(h, "elem", "PathElem", pathElement__name=nm("arg"))), assignExpr__rhs=s(h, "rhs", "Path"))
    add("CallExpr", "plain and named arguments", lambda h: N(h, "node", "CallExpr", callExpr__callee=s(h, "callee", "Path"), callExpr__args=w.chain(h, s(h, "a1", "Path"), asg(h), s(h, "a2", "Path"))),
        {"visit callee": "out", "visit a1": "out", "visit rhs": "out", "visit a2": "out"})
    add("MemberExpr", "member", lambda h: N(h, "node", "MemberExpr", memberExpr__target=s(h, "target", "Path"), memberExpr__member=N(h, "member", "Identifier")), {"visit target": "out"}, free=("member",))
    add("MemberExpr", "computed member", lambda h: N(h, "node", "MemberExpr", memberExpr__target=s(h, "target", "Path"), memberExpr__member=N(h, "member", "Identifier", ("Comptime",))),
        {"visit target": "out", "visit member": "out"})
    add("Program", "declarations", lambda h: N(h, "node", "Program", program__decls=w.chain(h, s(h, "d1", "FuncDecl"), s(h, "d2", "VarDecl"), s(h, "d3", "StructDecl"))),
        {"visit d1": "out", "visit d2": "out", "visit d3": "out"}, ["visit d1 < visit d2", "visit d2 < visit d3"])
    add("MacroCallExpr", "arguments", lambda h: N(h, "node", "MacroCallExpr", macroCallExpr__callee=s(h, "callee", "Path"), macroCallExpr__args=w.chain(h, s(h, "a1", "Path"), s(h, "a2", "Path"))),
        {"visit a1": "out", "visit a2": "out"})
    return S


def constructs(ctx, w):
    P = w.P
    table, other = tables(ctx, w, "bindAstPhase2")
    S = scenarios(w)
    done = 0
    for tag, cases in S.items():
        fname = table.get(P.enum("ast" + tag))
        if fname is None:
            raise AnalysisBroken("the binder has no function for %s" % tag)
        fn = P.need(fname)
        for what, build, want, order, kw in cases:
            h = w.heap()
            node = build(h)
            up = [w.node(h, "program", "Program")]
            if kw.get("enclosing"):
                up.append(w.node(h, "struct", "StructDecl"))
            elif not kw.get("file"):
                up += [w.node(h, "func", "FuncDecl"), w.node(h, "block", "BlockStmt")]
            env, ss = w.env(h, *[(n, {}) for n in up])
            cx = w.context(h, env, **kw.get("ctx", {}))
            ms = m_visits(w)
            thisp = nm("this param")
            ms.update(findAttribute=lambda E, s, f, a, n: [(s, 0)], isBuiltinsInitialized=lambda E, s, f, a, n: [(s, 1)],
                      makeFunctionParam=lambda E, s, f, a, n: [(s, thisp)], findBuiltinMacroByNode=lambda E, s, f, a, n: [(s, nm("evaluator"))],
                      makeIntegerLiteral=lambda E, s, f, a, n: [(s, nm("literal"))],
                      allocFromMemPool=m_alloc, getOrderedCapture=lambda E, s, f, a, n: [(s, 0)])
            seen_closure = []
            base = ms["astVisit"]
            if kw.get("closure"):
                def visit(E, s, f, a, n):
                    r = base(E, s, f, a, n)
                    seen_closure.append((name_of(a[1]), E.read(s, ("fld", cx[1], "currentClosure"))))
                    return r
                ms["astVisit"] = visit
            # the names `This` and `this` are globals
            e = engine(w, h, models=ms)
            ps = e.run(fn, start(h, fn), [VIS, node])
            ctx.engine(e)
            inst = "%s (%s)" % (tag, what)
            done += 1
            if not ps:
                ctx.bad("R2-scopes", inst, fn.loc(), "the construct is never bound")
                continue
            bad = None
            for p in ps:
                if p.calls("logError"):
                    bad = "an error is reported for a correct construct"
                stackn, evs, where = [], [], {}
                for x in p.events:
                    if x.kind != "ev":
                        continue
                    if x.name == "push":
                        stackn.append(x.args[0])
                        continue
                    if x.name == "pop":
                        if not stackn:
                            bad = "a scope of an enclosing construct is left"
                        else:
                            stackn.pop()
                        continue
                    nmx = "%s %s" % (x.name, " ".join(name_of(a).replace("S_This", "This") for a in x.args))
                    evs.append(nmx)
                    where.setdefault(nmx, tuple(stackn))
                if stackn:
                    bad = "the scope is not left"
                for k, pl in want.items():
                    c = evs.count(k)
                    if c != 1:
                        bad = bad or "%s: %s" % (k, "never happens" if not c else "happens %d times" % c)
                        continue
                    st = where[k]
                    if pl == "in" and node not in st:
                        bad = bad or "%s: not within the scope of the construct" % k
                    elif pl == "out" and st:
                        bad = bad or "%s: inside a scope of its own" % k
                for o in order:
                    a, c = o.split(" < ")
                    if a in evs and c in evs and evs.index(a) > evs.index(c):
                        bad = bad or "%s after %s" % (a, c)
                allowed = set(want) | set(kw.get("also", ())) | set(kw.get("optional", ())) | {"visit " + x for x in kw.get("free", ())}
                extra = [x for x in evs if x not in allowed]
                if extra:
                    bad = bad or "also %s" % extra[0]
                if kw.get("this") is not None:
                    t = got(e, p, node, "funcDecl", "this_")
                    if (t == thisp) != kw["this"]:
                        bad = bad or ("a method does not get its `this`" if kw["this"] else "`this` is given to a function that has none")
                if tag == "CallExpr":
                    lhs = ("&", ("h", "lhs"))
                    if got(e, p, lhs, "tag") != P.enum("astIdentifier") or got(e, p, lhs, "ident", "value") != nm("arg"):
                        bad = bad or "the name of a named argument is looked up as a variable"
            if kw.get("closure"):
                body = [c for n, c in seen_closure if n == "body"]
                if any(c != node for c in body) or not body:
                    bad = bad or "variables used in the body of a closure are not attributed to it"
            ctx.check(bad is None, "R2-scopes", inst, fn.loc(), bad)
    # kinds without a function of their own are walked generically
    ctx.check(other.get("fallback") == "astVisitFallbackVisitAll", "R2-scopes", "other constructs", P.need("bindAstPhase2").loc(), "constructs without a rule are not searched for names")
    ctx.check(all(v != "astVisitSkip" or k == P.enum("astMacroDecl") for k, v in table.items()), "R2-scopes", "skipped constructs", P.need("bindAstPhase2").loc(), "names in some constructs are not resolved")
    # the dispatcher restores the context of the enclosing construct
    disp = P.need(other["dispatch"])
    for fl in ((), ("Comptime",), ("TestContext",)):
        for cm, tc in ((0, 0), (1, 0), (0, 1)):
            h = w.heap()
            scn = w.node(h, "scopenode", "BlockStmt")
            env, ss = w.env(h, (scn, {}))
            cx = w.context(h, env, isComptimeContext=cm, inTestCase=tc, currentClosure=nm("outer"), isConstFunc=0)
            h.set(cx, stack=("saved", 0))        # another view of these fields
            node = w.node(h, "node", "Path", fl, parentScope=nm("stale"))
            seen = []

            def inner(E, s, f, a, n):
                seen.append((a[1:], E.read(s, ("fld", cx[1], "isComptimeContext")), E.read(s, ("fld", cx[1], "inTestCase")), E.read(s, ("fld", node[1], "parentScope"))))
                s = s.copy()
                for f_ in ("isComptimeContext", "inTestCase", "isConstFunc", "currentClosure"):
                    E.write(s, ("fld", cx[1], f_), 7)
                E.write(s, ("fld", cx[1], "stack"), ("saved", 1))
                return [(s, 0)]
            e = engine(w, h, models={"<indirect>": lambda E, s, f, a, n: inner(E, s, f, a, n)})
            ps = e.run(disp, start(h, disp), [("p", 9), VIS, node])
            ctx.engine(e)
            inst = "dispatch of %s node%s%s" % ("a plain" if not fl else "a " + fl[0], ", comptime context" if cm else "", ", test context" if tc else "")
            bad = None
            if not seen or any(x[0][-1] != node for x in seen):
                bad = "the function of the node is not called"
            elif any(x[1] != int(cm or "Comptime" in fl) for x in seen):
                bad = "the node is bound %s a compile-time context" % ("outside" if not seen[0][1] else "in")
            elif any(x[2] != int(tc or "TestContext" in fl) for x in seen):
                bad = "the node is bound %s a test context" % ("outside" if not seen[0][2] else "in")
            elif any(x[3] != scn for x in seen):
                bad = "the node does not know the construct it is in"
            else:
                for p in ps:
                    back = all(got(e, p, cx, f) == v for f, v in (("isComptimeContext", cm), ("inTestCase", tc), ("isConstFunc", 0), ("currentClosure", nm("outer"))))
                    if not back and got(e, p, cx, "stack") != ("saved", 0):
                        bad = "what the node set up for its parts stays in force after it"
            ctx.check(bad is None, "R2-scopes", inst, disp.loc(), bad)


# ------------------------------------------------------------------ R3: statements find their construct

def targets(ctx, w):
    P = w.P
    table, _ = tables(ctx, w, "bindAstPhase2")
    chains = ["Program", "Program FuncDecl BlockStmt", "Program FuncDecl BlockStmt WhileStmt BlockStmt", "Program FuncDecl BlockStmt ForStmt BlockStmt",
              "Program FuncDecl WhileStmt BlockStmt IfStmt BlockStmt", "Program FuncDecl WhileStmt BlockStmt ForStmt BlockStmt", "Program FuncDecl ForStmt SwitchStmt CaseStmt BlockStmt",
              "Program FuncDecl WhileStmt BlockStmt ClosureExpr BlockStmt", "Program FuncDecl WhileStmt ClosureExpr ForStmt BlockStmt", "Program FuncDecl BlockStmt ClosureExpr BlockStmt",
              "Program Exception BlockStmt", "Program StructDecl FuncDecl BlockStmt", "Program FuncDecl ForStmt BlockStmt StructDecl FuncDecl BlockStmt", "Program ClassDecl GenericDecl FuncDecl BlockStmt ClosureExpr",
              "Program FuncDecl MatchStmt CaseStmt BlockStmt", "Program StructDecl"]
    loops, funcs = ("WhileStmt", "ForStmt"), ("FuncDecl", "ClosureExpr", "Exception")

    def loop(tags):
        for i in range(len(tags) - 1, -1, -1):
            if tags[i] in loops:
                return i
            if tags[i] in ("FuncDecl", "ClosureExpr"):
                return None
    want = {"BreakStmt": (("continueExpr", "loop"), loop), "ContinueStmt": (("continueExpr", "loop"), loop),
            "ReturnStmt": (("returnStmt", "func"), lambda t: next((i for i in range(len(t) - 1, -1, -1) if t[i] in funcs), None)),
            "DeferStmt": (("deferStmt", "block"), lambda t: next((i for i in range(len(t) - 1, -1, -1) if t[i] == "BlockStmt"), None))}
    for tag, (field, oracle) in want.items():
        fn = P.need(table[P.enum("ast" + tag)])
        for c in chains:
            tags = c.split()
            h = w.heap()
            ns = [w.node(h, "%s%d" % (t, i), t) for i, t in enumerate(tags)]
            env, ss = w.env(h, *[(n, {}) for n in ns])
            w.context(h, env)
            node = w.node(h, "node", tag, returnStmt__expr=0, deferStmt__stmt=0)
            ms = {k: v for k, v in m_visits(w).items() if k.startswith("astVisit")}
            e, ps = runs(ctx, w, fn, h, [VIS, node], models=ms, bound=10)
            inst = "%s in %s" % (tag, c.replace("Program ", "").replace(" ", "/"))
            p = one(ctx, "R3-targets", inst, fn, ps)
            if not p:
                continue
            i = oracle(tags)
            g = got(e, p, node, *field)
            bad = None
            if i is None:
                if not errors(p):
                    bad = "no error is reported"
            elif g != ns[i]:
                bad = "refers to %s instead of %s" % (show(g), name_of(ns[i]))
            elif errors(p):
                bad = "an error is reported"
            ctx.check(bad is None, "R3-targets", inst, fn.loc(), bad)


# ------------------------------------------------------------------ R4: paths

def paths(ctx, w):
    P = w.P
    table, _ = tables(ctx, w, "bindAstPhase2")
    fn = P.need(table[P.enum("astPath")])

    def go(inst, h, node, cx, log, want=None, check=None, **models):
        ms = {k: v for k, v in m_visits(w).items() if k.startswith("astVisit")}
        ms.update(isBuiltinsInitialized=lambda E, s, f, a, n: [(s, 0)], findBuiltinDecl=lambda E, s, f, a, n: [(s, 0)])
        ms.update(models)
        e, ps = runs(ctx, w, fn, h, [VIS, node], models=ms, bound=8)
        p = one(ctx, "R4-paths", inst, fn, ps)
        if not p:
            return
        elem = got(e, p, node, "path", "elements")
        bad = None
        r = got(e, p, elem, "pathElement", "resolvesTo")
        if bool(errors(p)) != log:
            bad = "an error is reported" if errors(p) else "no error is reported"
        elif want is not None and r != want:
            bad = "refers to %s instead of %s" % (show(r), show(want))
        elif check:
            bad = check(e, p, elem)
        ctx.check(bad is None, "R4-paths", inst, fn.loc(), bad)

    def path(h, name=None, keyword=None, **f):
        el = w.node(h, "elem", "PathElem", pathElement__name=nm(name) if name else keyword, pathElement__alt=0, pathElement__args=0, pathElement__isKeyword=int(not name),
                    pathElement__resolvesTo=0, _name=nm(name) if name else keyword)
        return w.node(h, "path", "Path", path__elements=el, **f)
    kinds = ("VarDecl", "FuncDecl", "StructDecl", "EnumDecl", "FieldDecl", "FuncParamDecl")
    for k in kinds:
        h = w.heap()
        fnn = w.node(h, "func", "FuncDecl", funcDecl__this_=0)
        d = w.node(h, "decl", k, _name=nm("x"), varDecl__name=nm("x"), parentScope=fnn)
        o = w.node(h, "outer", "VarDecl", _name=nm("x"), parentScope=0)
        env, ss = w.env(h, (w.node(h, "program", "Program"), {"x": o}), (fnn, {"x": d}), (w.node(h, "block", "BlockStmt"), {"y": o}))
        cx = w.context(h, env)
        go("a name declared as %s" % k, h, path(h, "x"), cx, False, d)
        h = w.heap()
        env, ss = w.env(h, (w.node(h, "program", "Program"), {"y": w.node(h, "decl", k, _name=nm("y"))}))
        cx = w.context(h, env)
        go("an undeclared name beside %s" % k, h, path(h, "x"), cx, True)
    # compile-time and test-only declarations
    for fl, field in (("Comptime", "isComptimeContext"), ("TestContext", "inTestCase")):
        for on in (0, 1):
            h = w.heap()
            d = w.node(h, "decl", "VarDecl", (fl,), _name=nm("x"), varDecl__name=nm("x"))
            env, ss = w.env(h, (w.node(h, "program", "Program"), {"x": d}))
            cx = w.context(h, env, **{field: on})
            go("a %s declaration used %s its context" % (fl, "in" if on else "outside"), h, path(h, "x"), cx, not on, d if on else None)
    # members of base classes
    for depth in (1, 2):
        for present in (0, 1, 2):
            if present > depth:
                continue
            h = w.heap()
            fld = {i: w.node(h, "member%d" % i, "FieldDecl", structField__name=nm("x"), _namedNode__name=nm("x")) for i in (1, 2)}
            base2 = w.node(h, "Base2", "ClassDecl", classDecl__base=0, classDecl__members=0, structDecl__members=0)
            base1 = w.node(h, "Base1", "ClassDecl", classDecl__members=0,
                           classDecl__base=w.node(h, "p2", "Path", path__elements=w.node(h, "p2e", "PathElem", pathElement__resolvesTo=base2)) if depth == 2 else 0)
            cls = w.node(h, "Class", "ClassDecl", classDecl__base=w.node(h, "p1", "Path", path__elements=w.node(h, "p1e", "PathElem", pathElement__resolvesTo=base1)))
            f = w.node(h, "func", "FuncDecl", funcDecl__this_=nm("this"))
            env, ss = w.env(h, (w.node(h, "program", "Program"), {}), (cls, {}), (f, {}))
            cx = w.context(h, env)
            node = path(h, "x")
            find = lambda E, s, fr, a, n: [(s, fld[present] if present and a[0] == (base1 if present == 1 else base2) and a[1] == nm("x") else 0)]
            mk = []

            def check(e, p, elem, present=present, node=node):
                if not present:
                    return None
                d = got(e, p, node, "path", "inheritanceDepth")
                if d != present:
                    return "the member is looked for %s classes up, not %d" % (show(d), present)
                if not mk:
                    return "the path is not led through the base class"
                return None

            def make(E, s, fr, a, n):
                o = a[2]
                mk.append(E.read(s, ("fld", ("fld", deref(o), "pathElement"), "resolvesTo")))
                return [(s, nm("super elem"))]
            go("a name declared %s of %d base classes" % ("in no one" if not present else "in number %d" % present, depth), h, node, cx, not present, None, check,
               findInAstNode=find, findMemberDeclInType=find, makeAstNode=make)
    # a local declaration wins over an inherited one
    h = w.heap()
    base1 = w.node(h, "Base1", "ClassDecl", classDecl__base=0, classDecl__members=0)
    cls = w.node(h, "Class", "ClassDecl", classDecl__base=w.node(h, "p1", "Path", path__elements=w.node(h, "p1e", "PathElem", pathElement__resolvesTo=base1)))
    d = w.node(h, "decl", "VarDecl", _name=nm("x"), varDecl__name=nm("x"))
    env, ss = w.env(h, (w.node(h, "program", "Program"), {}), (cls, {}), (w.node(h, "func", "FuncDecl", funcDecl__this_=nm("this")), {"x": d}))
    cx = w.context(h, env)
    go("a local name that is also inherited", h, path(h, "x"), cx, False, d, None, findInAstNode=lambda E, s, f, a, n: [(s, nm("inherited"))])
    # this, super, This
    glob = {n: nm(n) for n in ("S_this", "S_super", "S_This")}
    for kw in ("S_this", "S_super", "S_This"):
        for what, tags in (("a method", "Program ClassDecl FuncDecl+ BlockStmt"), ("a struct method", "Program StructDecl FuncDecl+ BlockStmt"), ("a static method", "Program ClassDecl FuncDecl BlockStmt"),
                           ("a function", "Program FuncDecl BlockStmt"), ("the program", "Program"), ("a field", "Program ClassDecl"), ("a derived class", "Program ClassDecl^ FuncDecl+ BlockStmt"),
                           ("an exception", "Program Exception FuncDecl BlockStmt"), ("an enclosing function's method", "Program ClassDecl FuncDecl+ BlockStmt IfStmt BlockStmt")):
            h = w.heap()
            ns, up, thisp = [], 0, 0
            cls, func = None, None
            for i, t in enumerate(tags.split()):
                tag = t.rstrip("+^")
                f = dict(parentScope=up)
                if tag == "FuncDecl":
                    thisp = w.node(h, "this", "FuncParamDecl", parentScope=0) if t.endswith("+") else 0
                    f["funcDecl__this_"] = thisp
                if tag in ("ClassDecl", "StructDecl"):
                    f["classDecl__base"] = f["structDecl__base"] = w.node(h, "base", "Path", path__elements=0) if t.endswith("^") else 0
                n = w.node(h, "%s%d" % (tag, i), tag, **f)
                if tag in ("ClassDecl", "StructDecl"):
                    cls = n
                if tag == "FuncDecl":
                    func = n
                up = n
                ns.append(n)
            exc = "Exception" in tags
            ethis = w.node(h, "exception this", "FuncParamDecl")
            env, ss = w.env(h, *[(n, {}) for n in ns])
            if exc:
                y = h.obj("symthis", name=glob["S_this"], node=ethis, index=1, last=0)
                h.mem[("fld", ("fld", ss[1][1], "symbols"), "$" + name_of(glob["S_this"]))] = y
            cx = w.context(h, env)
            node = path(h, None, glob[kw])
            el = h.mem[("fld", ("fld", node[1], "path"), "elements")]
            if kw == "S_This":
                # the enclosure is stored in place of the resolved declaration
                log, want = cls is None, None
                h.set(el, pathElement__resolvesTo=w.node(h, "same storage", "ClassDecl"))
                check = lambda e, p, elem, cls=cls: None if cls is None or got(e, p, elem, "pathElement", "enclosure") == cls else "means another declaration than the enclosing one"
                go("This in %s" % what, h, node, cx, log, None, check)
            elif kw == "S_this":
                ok = bool(thisp) or exc
                go("this in %s" % what, h, node, cx, not ok, (thisp or ethis) if ok else None)
            else:
                ok = bool(thisp) and "^" in tags
                go("super in %s" % what, h, node, cx, not ok, thisp if ok else None)
    # captures
    for what, decl_in, sym, want in (("a local variable of the function", "func", "VarDecl", True), ("a parameter of the function", "func", "FuncParamDecl", True), ("a parameter of the closure", "closure", "FuncParamDecl", False),
                                     ("a variable of the closure", "body", "VarDecl", False), ("a global variable", "program", "VarDecl", False), ("a function", "func", "FuncDecl", False)):
        h = w.heap()
        prog = w.node(h, "program", "Program")
        f = w.node(h, "func", "FuncDecl", parentScope=prog, funcDecl__this_=0)
        c = w.node(h, "closure", "ClosureExpr", parentScope=f)
        b = w.node(h, "body", "BlockStmt", parentScope=c)
        where = {"program": prog, "func": f, "closure": c, "body": b}[decl_in]
        d = w.node(h, "decl", sym, ("TopLevelDecl",) if decl_in == "program" else (), _name=nm("x"), varDecl__name=nm("x"), parentScope=where)
        env, ss = w.env(h, *[(n, {"x": d} if n == where else {}) for n in (prog, f, c, b)])
        cx = w.context(h, env, currentClosure=c)
        node = path(h, "x", parentScope=b)
        cap = h.obj("capture", field=0, flags=0)
        calls = []

        def addcap(E, s, fr, a, n):
            calls.append(a)
            return [(s, cap)]

        def check(e, p, elem, want=want):
            if want and not calls:
                return "the variable is not captured"
            if want and (calls[0][0] != ("&", ("fld", ("fld", c[1], "closureExpr"), "captureSet")) or calls[0][1] != d):
                return "captured for another closure or variable"
            if not want and calls:
                return "captured although the closure can refer to it"
            return None
        go("%s used in a closure" % what, h, node, cx, False, nm("capture field") if want else d, check,
           addClosureCapture=addcap, makeStructField=lambda E, s, fr, a, n: [(s, nm("capture field"))], getCapturedNodeName=lambda E, s, fr, a, n: [(s, nm("x"))])


# ------------------------------------------------------------------ R5: declarations of a file

def toplevel(ctx, w):
    P = w.P
    table, other = tables(ctx, w, "bindAstPhase1")
    N = w.node
    loc = P.need("bindAstPhase1").loc()
    ident = lambda h, n, a=0: N(h, "name:" + n, "Identifier", ident__value=nm(n), ident__alias=nm(a) if a else 0)
    cases = []
    named = {"FuncDecl": "funcDecl", "MacroDecl": "macroDecl", "TypeDecl": "typeDecl", "EnumDecl": "enumDecl", "StructDecl": "structDecl", "ClassDecl": "structDecl", "InterfaceDecl": "interfaceDecl", "Exception": "exception"}
    for t, f in named.items():
        cases.append((t, t, lambda h, t=t, f=f: N(h, "node", t, **{f + "__name": nm("x"), "list__link": 0, "list__first": 0}), ["define 'x' node"]))
    cases.append(("GenericDecl", "generic function", lambda h: N(h, "node", "GenericDecl", genericDecl__decl=N(h, "inner", "FuncDecl", funcDecl__name=nm("x"))), ["define 'x' node"]))
    exports = lambda h: h.obj("exports", name=nm("module"))
    cases.append(("ImportDecl", "module", lambda h: N(h, "node", "ImportDecl", type=exports(h), import__entities=0, import__alias=0), ["define 'module' node"]))
    cases.append(("ImportDecl", "module as", lambda h: N(h, "node", "ImportDecl", type=exports(h), import__entities=0, import__alias=ident(h, "m")), ["define 'm' node"]))
    ent = lambda h, n, a: N(h, "entity:" + n, "ImportEntity", importEntity__name=nm(n), importEntity__alias=nm(a) if a else 0, importEntity__target=nm("target:" + n))
    cases.append(("ImportDecl", "members", lambda h: N(h, "node", "ImportDecl", type=exports(h), import__alias=0, import__entities=w.chain(h, ent(h, "a", 0), ent(h, "b", "c"))),
                  ["define 'a' 'target:a'", "define 'c' 'target:b'"]))
    cases.append(("Define", "names", lambda h: N(h, "node", "Define", define__type=0, define__container=0, define__names=w.chain(h, ident(h, "A", 0), ident(h, "B", "C"))),
                  ["define 'A' name:A", "define 'B' name:B", "define 'C' name:B"]))
    for tag, what, build, want in cases:
        fname = table.get(P.enum("ast" + tag))
        inst = "%s (%s)" % (tag, what)
        if fname is None:
            ctx.bad("R5-declarations", inst, loc, "declarations of this kind are not known before they are written")
            continue
        fn = P.need(fname)
        h = w.heap()
        node = build(h)
        env = h.obj("env", first=nm("scope"), scope=nm("scope"))
        w.context(h, env)
        ms = m_visits(w)
        ms.update(findAttribute=lambda E, s, f, a, n: [(s, 0)])
        e = engine(w, h, models=ms)
        ps = e.run(fn, start(h, fn), [VIS, node])
        ctx.engine(e)
        bad = None if ps else "never happens"
        for p in ps:
            evs = sorted("define " + " ".join(name_of(a) for a in x.args) for x in p.events if x.kind == "ev" and x.name == "define")
            depth = sum({"push": 1, "pop": -1}.get(x.name, 0) for x in p.events if x.kind == "ev")
            if evs != sorted(want):
                bad = "%s instead of %s" % (", ".join(evs) or "nothing is defined", ", ".join(want))
            elif depth:
                bad = "a scope is left open"
            elif p.calls("logError"):
                bad = "an error is reported"
        ctx.check(bad is None, "R5-declarations", inst, fn.loc(), bad)
    # both phases on one environment, in order, and the second only without errors
    fn = P.need("bindAst")
    log = []

    class Pol(Policy):
        only = frozenset()
        record_calls = frozenset({"environmentInit", "bindAstPhase1", "bindAstPhase2", "environmentFree"})
    Pol.models = {"hasErrors": lambda E, s, f, a, n: fork(s, ("errors",))}
    e = Engine(P, Pol())
    ps = e.run(fn)
    ctx.engine(e)
    seen = set()
    for p in ps:
        err = p.facts().get(("errors",), (None,))[0]
        cs = [x.name for x in p.events if x.kind == "call"]
        envs = {a for x in p.events if x.kind == "call" for a in x.args if isinstance(a, tuple) and a[0] == "&" and "env" in show(a)}
        want = ["environmentInit", "bindAstPhase1"] + (["bindAstPhase2"] if not err else []) + ["environmentFree"]
        seen.add(err)
        ctx.check(cs == want and len(envs) <= 1, "R5-declarations", "phases %s" % ("after errors" if err else "without errors"), fn.loc(), "binding runs %s" % ", ".join(cs))
    if seen != {0, 1}:
        raise AnalysisBroken("bindAst does not look for errors")


def fork(st, t):
    r = []
    for v in (0, 1):
        s = st.copy()
        s.facts[t] = (v, v, frozenset())
        r.append((s, v))
    return r


def imports(ctx, w):
    """a member of a module is imported when the module declares it and it is public"""
    P = w.P
    fn = P.need("compileModule")
    for found in ("missing", "private", "public"):
        for second in ("private", "public"):
            h = w.heap()
            mk = lambda i, k: h.obj("member%d" % i, decl=w.node(h, "decl%d" % i, "FuncDecl", ("Public",) if k == "public" else ()), name=nm("m%d" % i))
            ms = {nm("m1"): mk(1, found) if found != "missing" else 0, nm("m2"): mk(2, second)}
            ents = [w.node(h, "entity%d" % i, "ImportEntity", importEntity__name=nm("m%d" % i), importEntity__target=0, importEntity__alias=nm("alias%d" % i)) for i in (1, 2)]
            prog = w.node(h, "program", "Program", type=nm("module"), program__decls=0, program__module=nm("modname"))
            src = w.node(h, "source", "StringLit", stringLiteral__value=nm("path"))
            drv = h.obj("driver", L=L)
            e = engine(w, h, models=dict(findModuleMember=lambda E, s, f, a, n: [(s, ms[a[1]])], importCHeader=lambda E, s, f, a, n: [(s, prog)], hasErrors=lambda E, s, f, a, n: [(s, int(any(x.name == "logError" for x in s.events())))],
                                         isImportModuleACHeader=lambda E, s, f, a, n: [(s, 1)]))
            e.pol.only = frozenset({f.name for f in P.all_fns() if f.file == fn.file} | {"hasFlag", "nodeIs_"}) - set(e.pol.models)
            ps = e.run(fn, start(h, fn), [drv, src, w.chain(h, *ents), w.node(h, "as", "Identifier")])
            ctx.engine(e)
            inst = "import of a %s and a %s member" % (found, second)
            bad = None if ps else "never happens"
            for p in ps:
                fails = found != "public" or second != "public"
                for i, k in ((1, found), (2, second)):
                    t = got(e, p, ents[i - 1], "importEntity", "target")
                    if k == "public" and t != ("&", ("h", "decl%d" % i)):
                        bad = "the name of a public member means %s" % show(t)
                    elif k != "public" and t != 0:
                        bad = "a %s member is imported" % k
                if errors(p) != (found != "public") + (second != "public"):
                    bad = "%d errors are reported" % errors(p)
                if (p.ret == 0) != fails:
                    bad = "the import %s" % ("succeeds" if p.ret else "fails")
            ctx.check(bad is None, "R5-imports", inst, fn.loc(), bad)


def run(ctx):
    import prog
    P = prog.full()
    ctx.rule("R1-lookup", "a lookup finds the declaration of the innermost scope that has the name, then a public builtin, else an error is reported")
    ctx.rule("R1-define", "a definition is made in the current scope only; a name already taken there is an error unless it adds an overload or completes a forward declaration")
    ctx.rule("R1-stack", "entering a scope nests it, leaving it removes its names")
    ctx.rule("R1-hash", "a name is stored and found under its own hash")
    ctx.rule("R2-scopes", "each construct pushes its scope around the parts that see its names, defines the names before those parts, binds every part once and leaves the scope")
    ctx.rule("R3-targets", "break and continue mean the innermost loop of their function, return the innermost function, defer the innermost block; else an error is reported")
    ctx.rule("R4-paths", "a path means the declaration found for its first name, an inherited member of the nearest base class, or the enclosing method's this; closures capture exactly the locals of enclosing functions")
    ctx.rule("R5-declarations", "all declarations of a file are defined under their names and aliases before any of its parts is bound")
    ctx.rule("R5-imports", "importing a member gives the module's public declaration of that name, and is an error otherwise")
    w = W(P)
    lookups(ctx, w)
    defines(ctx, w)
    stack(ctx, w)
    hashes(ctx, w)
    constructs(ctx, w)
    targets(ctx, w)
    paths(ctx, w)
    toplevel(ctx, w)
    imports(ctx, w)
    for r, n in (("R1-lookup", 150), ("R1-define", 70), ("R1-stack", 6), ("R1-hash", 10), ("R2-scopes", 40), ("R3-targets", 60), ("R4-paths", 50), ("R5-declarations", 14), ("R5-imports", 6)):
        ctx.floor(r, n)
