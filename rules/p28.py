"""P28: no exception is lost, handled in the wrong place, or raised where it is not declared.

The functions of the type checker that translate calls of raising functions, `catch`, `raise` and `yield` are interpreted with the
type predicates left open (every combination of what the operand types can be is a set of paths) and node constructors as terms, and each
path's result is compared with what the language requires for its combination."""
from absint import Engine, Ev, Frame, INF, Limit, Policy, TOP, deref
from build import AnalysisBroken
import p04
from prog import walk
from heap import Types, name_of

LEVEL = "other"
V, N, CTX = ("p", 0), ("p", 1), None


class World:
    def __init__(self, P):
        self.P = P
        self.makers = {f.name: [p[0] for p in f.params] for f in P.all_fns() if f.name.startswith("make") and "frontend/ast" in str(f.file)}
        if len(self.makers) < 60:
            raise AnalysisBroken("only %d node constructors" % len(self.makers))


def fork(st, t):
    lo, hi, ne = st.facts.get(t, TOP)
    if lo == hi:
        return [(st, lo)]
    r = []
    for v in (0, 1):
        s = st.copy()
        s.facts = dict(s.facts)
        s.facts[t] = (v, v, frozenset())
        r.append((s, v))
    return r


def fact(p, t):
    f = p.facts().get(t)
    return f[0] if f and f[0] is not None and f[0] == f[1] else None


IDENT = ("resolveUnThisUnwrapType", "resolveType", "resolveAndUnThisType", "resolveUnThisType")


def engine(W, fn, extra=(), models=None, record=()):
    P = W.P

    def pred(name):
        def m(eng, st, fr, args, node):
            return [(st, 0)] if args[0] == 0 else fork(st, (name, args[0]))
        return m

    def kind(name):
        def m(eng, st, fr, args, node):
            if args[0] == 0:
                return [(st, 0)]
            if isinstance(args[0], tuple) and args[0][0] == "mk":
                return None
            if args[0] in ("ERR", "VOID"):
                return [(st, int(args[1] == P.enum("typError" if args[0] == "ERR" else "typVoid")))]
            return fork(st, (name, args[0], args[1]))
        return m

    def mk(name):
        def m(eng, st, fr, args, node):
            return [(st, ("mk", name, tuple(args)))]
        return m

    def last(eng, st, fr, args, node):
        return [(st, args[0])] if isinstance(args[0], tuple) and args[0][0] == "mk" else None

    def clone(eng, st, fr, args, node):
        touched = any(k[0] == "fld" and k[1] == ("*", args[1]) and k[2] not in ("type", "next") for k in st.mem)
        return [(st, ("clone", args[1], touched))]

    ms = {n: mk(n) for n in W.makers}
    ms.update({n: (lambda eng, st, fr, args, node: [(st, args[0])]) for n in IDENT})
    ms.update({n: pred(n) for n in ("isResultType", "isVoidResultType", "isVoidType", "isExceptionType", "isBaseExceptionType")})
    ms.update(typeIs_=kind("type"), getLastAstNode=last, nodeIs_=kind("node"), shallowCloneAstNode=clone,
              getResultTargetType=lambda eng, st, fr, args, node: [(st, ("target", args[0]))],
              isTypeAssignableFrom=lambda eng, st, fr, args, node: fork(st, ("assignable", args[0], args[1])),
              isTypeCastAssignable=lambda eng, st, fr, args, node: fork(st, ("castable", args[0], args[1])),
              makeErrorType=lambda eng, st, fr, args, node: [(st, "ERR")],
              makeVoidType=lambda eng, st, fr, args, node: [(st, "VOID")],
              clearAstBody=lambda eng, st, fr, args, node: [(st, 0)],
              astModifierAdd=None, logError=None)
    ms = {k: v for k, v in ms.items() if v}
    ms.update(models or {})
    here = {f.name for f in P.all_fns() if f.file == fn.file} - set(ms)

    class Pol(Policy):
        recursive = False
        max_states, loop_bound = 40000, 1
        only = frozenset(here | {"hasFlag", "insertAstNode"} | set(extra)) - frozenset(record)
        record_calls = frozenset({"astModifierAdd", "logError"} | set(record))
    Pol.models = ms
    return Engine(P, Pol())


def arg(W, t, name):
    """the argument of a node constructor term by the name of its parameter"""
    if not (isinstance(t, tuple) and t and t[0] == "mk"):
        return None
    ps = W.makers[t[1]]
    return t[2][ps.index(name)] if name in ps else None


def subs(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subs(x)


def mks(t, name):
    return [x for x in subs(t) if x[:2] == ("mk", name)] if isinstance(t, tuple) else []


def names_var(W, t, var):
    """does the expression refer to the variable?"""
    return any(x[0] == "mk" and x[1].startswith("makeResolvedPath") and arg(W, x, "resolvesTo") == var for x in subs(t))


def member(P, ty, i):
    l = ("fld", ("fld", ("idx", ("*", ("fld", ("fld", ("*", ty), "tUnion"), "members")), i), "type"))
    return l


def is_member(t, ty, i):
    """t reads the type of member i of union type ty"""
    s = list(subs(t))
    return t[0] == "fld" and t[2] == "type" and any(x[0] == "idx" and x[2] == i for x in s if x) and any(x == ty for x in s) if i else \
        t[0] == "fld" and t[2] == "type" and not any(x[0] == "idx" and x[2] != 0 for x in s if x and x[0] == "idx") and any(x == ty for x in s)


def is_check(W, cond, var, ty):
    P = W.P
    for b in mks(cond, "makeBinaryExpr"):
        r = arg(W, b, "rhs")
        if arg(W, b, "op") == P.enum("opIs") and names_var(W, arg(W, b, "lhs"), var) and r and r[0] == "mk" and is_member(arg(W, r, "type"), ty, 1):
            return cond == b
    return False


def cast_to(W, st, t, var, ty, i):
    """t casts (the moved value of) var to member i of its union"""
    P = W.P
    if not (isinstance(t, tuple) and t[:2] == ("mk", "makeCastExpr")):
        return False
    idx = st.mem.get(("fld", ("fld", ("*", t), "castExpr"), "idx"))
    return arg(W, t, "flags") == P.flag("flgBitUnionCast") and idx == i and names_var(W, arg(W, t, "expr"), var) and is_member(arg(W, t, "type"), ty, i)


def stmts(st, first):
    out = []
    while first and len(out) < 20:
        out.append(first)
        first = st.mem.get(("fld", ("*", first), "next"), 0)
    return out


def node_field(st, *path):
    l = ("*", N)
    for f in path:
        l = ("fld", l, f)
    return st.mem.get(l)


def returns_exception(W, st, body, var, ty, ret):
    """the block returns the exception held by var as an exception of the result type ret"""
    P = W.P
    if not (isinstance(body, tuple) and body[:2] == ("mk", "makeBlockStmt")):
        return "is not a block"
    ss = stmts(st, arg(W, body, "stmts"))
    if not ss or ss[-1][:2] != ("mk", "makeReturnAstNode"):
        return "does not end in a return"
    u = arg(W, ss[-1], "expr")
    if not (isinstance(u, tuple) and u[:2] == ("mk", "makeUnionValueExpr")):
        return "does not return a result value"
    if arg(W, u, "idx") != 1 or arg(W, u, "type") != ret:
        return "does not return an exception of the enclosing function's result type"
    val = arg(W, u, "value")
    casts = [c for c in mks(val, "makeCastExpr") if cast_to(W, st, c, var, ty, 1)]
    if casts:
        return None
    tmp = [v for v in ss if v[:2] == ("mk", "makeVarDecl") and names_var(W, val, v) and cast_to(W, st, arg(W, v, "init"), var, ty, 1)]
    return None if tmp else "does not return the exception the call raised"


def bubble(ctx, W):
    P = W.P
    fn = P.need("checkCallExceptionBubbleUp")
    e = engine(W, fn)
    n = ("*", N)
    ty = ("fld", n, "type")
    cases = {}
    for p in e.run(fn):
        adds, errs = [x.args[1] for x in p.calls("astModifierAdd")], len(p.calls("logError"))
        res = fact(p, ("isResultType", ty))
        rets = [(t, v) for t, v in p.facts().items() if isinstance(t, tuple) and t[0] == "isResultType" and t[1] != ty]
        if res == 0:
            why = None if not adds and not errs and node_field(p.st, "tag") is None else "the call of a function that does not raise is changed"
            case = "does not raise"
        elif not any(v[0] == 1 for _, v in rets):
            case = "raises in a function that does not"
            why = None if errs and node_field(p.st, "type") == "ERR" and not adds else "a raising call in a function that does not raise is accepted"
        else:
            case, why = "raises", good(W, p, adds, errs, ty, next(t[1] for t, v in rets if v[0] == 1))
        if why or case not in cases:
            cases[case] = why or cases.get(case)
    for c in ("does not raise", "raises in a function that does not", "raises"):
        if c not in cases:
            ctx.bad("R1-propagate", "a call that " + c, fn.loc(), "no path of %s handles a call that %s" % (fn.name, c))
        else:
            ctx.check(not cases[c], "R1-propagate", "a call that " + c, fn.loc(), cases[c])
    ctx.engine(e)


def good(W, p, adds, errs, ty, ret):
    P, st = W.P, p.st
    if errs:
        return "a call that raises in a function that declares it is rejected"
    if len(adds) != 2 or adds[0][:2] != ("mk", "makeVarDecl") or adds[1][:2] != ("mk", "makeIfStmt"):
        return "a raising call is not replaced by a variable and a test of it"
    var, test = adds
    if arg(W, var, "init") != ("clone", N, False) or arg(W, var, "type") != ty:
        return "the variable does not hold the result of the call"
    if not is_check(W, arg(W, test, "condition"), var, ty):
        return "the test does not ask whether the call raised"
    why = returns_exception(W, st, arg(W, test, "then"), var, ty, ret)
    if why:
        return "the branch taken when the call raised %s" % why
    if arg(W, test, "otherwise") or arg(W, test, "next"):
        return "the test of the exception has further branches"
    void = fact(p, ("isVoidResultType", ty))
    stmt = [v[0] for t, v in p.facts().items() if t[0] == "node" and t[2] == P.enum("astExprStmt")]
    tag = node_field(st, "tag")
    unused = void == 1 or stmt and stmt[0] == 1
    if unused:
        return None if tag == P.enum("astNoop") else "a call whose value is not used is kept and made twice"
    x = node_field(st, "castExpr", "expr")
    if tag != P.enum("astCastExpr") or node_field(st, "flags") != P.flag("flgBitUnionCast") or node_field(st, "castExpr", "idx") != 0 \
            or not names_var(W, x, var) or node_field(st, "type") != ("target", ty):
        return "the value of the expression is not the value the call returned"
    return None


def catch(ctx, W):
    P = W.P
    fn = P.need("checkCatchBinaryOperator")
    e = engine(W, fn)
    lhs, rhs = (("fld", ("fld", ("*", N), "binaryExpr"), x) for x in ("lhs", "rhs"))
    lt, rt = ("fld", ("*", lhs), "type"), ("fld", ("*", rhs), "type")
    cat = ("*", ("p", 2))
    seen = {}
    for p in e.run(fn):
        st = p.st
        adds, errs = [x.args[1] for x in p.calls("astModifierAdd")], len(p.calls("logError"))
        err = node_field(st, "type") == "ERR"
        if fact(p, ("isResultType", lt)) == 0:
            if not (errs and err):
                put(seen, "not raising", "catch on an expression that does not raise is accepted")
            continue
        rs = [v for t, v in p.facts().items() if t[0] == "fld" and t[2] == "returnState"]
        if not rs:
            put(seen, "leaves", "whether the catch block leaves is not considered")
            continue
        void = fact(p, ("isVoidResultType", lt)) == 1
        leaves = rs[0][0] is None or rs[0][0] != 0
        if not leaves:
            if fact(p, ("isVoidType", rt)) == 1 and not void:
                put(seen, "no value", None if errs and err else "a catch block that neither yields nor leaves is accepted for an expression with a value")
                continue
            want = ("assignable", "VOID" if void else ("target", lt), rt)
            a = fact(p, want)
            if a is None and not (errs and err):
                put(seen, "default", "the type of the value the catch yields is not compared with the type of the expression")
                continue
            if a == 0 or a is None:
                put(seen, "bad default", None if errs and err else "a catch value of a type that does not convert to the expression's is accepted")
                continue
        if errs or err:
            put(seen, "good", "a correct catch is rejected")
            continue
        put(seen, "leaves" if leaves else "value", caught(W, p, adds, lt, lhs, rhs, cat))
    for c in ("no value", "bad default", "value", "leaves"):
        if c not in seen:
            ctx.bad("R2-catch", c, fn.loc(), "no path of %s handles this case" % fn.name)
        else:
            ctx.check(not seen[c], "R2-catch", c, fn.loc(), seen[c])
    for c in seen:
        if seen[c] and c not in ("no value", "bad default", "value", "leaves"):
            ctx.bad("R2-catch", c, fn.loc(), seen[c])
    ctx.engine(e)


def put(d, k, why):
    d[k] = d.get(k) or why


def caught(W, p, adds, lt, lhs, rhs, cat):
    P, st = W.P, p.st
    given = ("fld", cat, "result")
    old = fact(p, given)
    gv = p.facts().get(given)
    has = gv is not None and 0 in gv[2]
    if not adds:
        return "the caught call is not made"
    var = adds[0]
    if has:
        if var != given:
            return "the result variable of the catch is not declared first"
        vt = ("fld", ("*", given), "type")
    else:
        void = fact(p, ("isVoidResultType", lt)) == 1
        if var[:2] != ("mk", "makeVarDecl") or arg(W, var, "init") not in ((("clone", lhs, False), lhs) if void else (("clone", lhs, False),)) or arg(W, var, "type") != lt:
            return "the result of the caught call is not stored"
        vt = lt
    cv = ("fld", cat, "variable")
    cvf = p.facts().get(cv)
    yes = cvf is not None and 0 in cvf[2]
    if cv not in adds[1:2]:
        return "the variable that receives the yielded value is not declared before the test"
    body = ("fld", ("fld", ("*", rhs), "blockStmt"), "stmts")
    f = p.facts().get(body)
    if f is None or f[0] is None or f[0] != 0 or f[0] != f[1]:
        test = [x for x in adds[2:] if isinstance(x, tuple) and x[:2] == ("mk", "makeIfStmt")]
        if len(test) != 1:
            return "the catch block is not executed when the call raised"
        t = test[0]
        if not is_check(W, arg(W, t, "condition"), var, lt if not has else lt) and not is_check(W, arg(W, t, "condition"), var, vt) \
                and not is_check_any(W, arg(W, t, "condition"), var):
            return "the catch block is not executed exactly when the call raised"
        if arg(W, t, "then") != rhs:
            return "the branch taken when the call raised is not the catch block"
        other = arg(W, t, "otherwise")
        if yes:
            asg = [a for a in mks(other, "makeAssignExpr")]
            if len(asg) != 1 or not names_var(W, arg(W, asg[0], "lhs"), cv) or not cast_to(W, st, arg(W, asg[0], "rhs"), var, vt, 0):
                return "the value of a call that did not raise is not the value of the expression"
    stmt = [v[0] for t, v in p.facts().items() if t[0] == "node" and t[2] == P.enum("astExprStmt")]
    tag = node_field(st, "tag")
    if stmt and stmt[0] == 1:
        return None if tag == P.enum("astNoop") else "a catch statement is kept as an expression"
    if yes:
        x = node_field(st, "path", "elements")
        return None if tag == P.enum("astPath") and names_var(W, x, cv) and node_field(st, "type") == ("fld", ("*", cv), "type") else \
            "the value of the expression is not the variable that receives the yielded value"
    x = node_field(st, "groupExpr", "expr")
    if tag != P.enum("astGroupExpr") or not cast_to(W, st, x, var, vt, 0):
        return "the value of the expression is not the value of the call"
    return None


def is_check_any(W, cond, var):
    return any(arg(W, b, "op") == W.P.enum("opIs") and names_var(W, arg(W, b, "lhs"), var) and is_member(arg(W, arg(W, b, "rhs"), "type"), ("fld", ("*", var), "type"), 1)
               for b in mks(cond, "makeBinaryExpr"))


def fields_of(ctx_term):
    return lambda f: ("fld", ("*", ctx_term), f)


C = fields_of(("fld", ("*", V), "context"))


def checked(P, read, keep=True):
    """a model of the functions that check another node: its type is that node's type, and the checked fields of the context are recorded"""
    def m(eng, st, fr, args, node):
        name = node[3][3] if isinstance(node[3], list) and len(node[3]) > 3 else "call"
        vals = tuple(eng.read(st, C(f)) for f in read)
        st = st.copy()
        eng.record(st, Ev("check", args[1], vals, fr.fn.loc(node[1]), None, fr.fn.name, node))
        return [(st, ("fld", ("*", args[1]), "type"))]
    return m


def raise_gate(ctx, W):
    P = W.P
    fn = P.need("checkReturnStmt")
    if not P.fns.get("exceptionVerifyRaiseExpr"):
        extra = ()
    others = {f.name for f in P.all_fns() if "middle/sema/exception" in str(f.file)}
    e = engine(W, fn, extra=others, models={"checkType": checked(P, ())}, record=("transformOptionalNone", "transformOptionalSome"))
    rs = ("fld", ("*", N), "returnStmt")
    raising, expr = ("fld", rs, "isRaise"), ("fld", rs, "expr")
    bad, n, plain = {}, 0, 0
    for p in e.run(fn):
        f = p.facts().get(raising)
        t = ("type", ("fld", ("*", expr), "type"), P.enum("typError"))
        if fact(p, t) == 1:
            continue
        err = bool(p.calls("logError")) or node_field(p.st, "type") == "ERR"
        if f is not None and f[0] == f[1] == 0:
            plain += not err
            continue
        yes = f is not None and (0 in f[2] or f[0] > 0)
        if not yes:
            put(bad, "raise", "a raise is accepted or rejected without looking whether it is one (%s)" % p.describe())
            continue
        if p.facts().get(expr, TOP)[:2] == (0, 0):      # the parser gives every raise an expression
            continue
        res = [v for k, v in p.facts().items() if isinstance(k, tuple) and k[0] == "isResultType" and v[0] == v[1] == 1 and any(x[:1] == ("fld",) and x[-1] == "ret" for x in subs(k[1]))]
        exs = [k for k, v in p.facts().items() if isinstance(k, tuple) and k[0] in ("isExceptionType", "isBaseExceptionType") and v[0] == v[1] == 1 and any(x == expr for x in subs(k[1]))]
        if not err:
            n += 1
            if not res:
                put(bad, "raise", "raise is accepted in a function whose result type does not say that it raises")
            elif not exs:
                put(bad, "value", "raise accepts a value that is not an exception (%s)" % p.describe(30))
            else:
                k = exs[0]
                cast = [v for t, v in p.facts().items() if isinstance(t, tuple) and t[0] == "node" and t[2] == P.enum("astCastExpr")]
                isc = bool(cast) and cast[0][0] == 1
                want = "castExpr" if isc else "type"
                base = ("fld", ("*", expr), "type") if not isc else ("fld", ("*", ("fld", ("fld", ("*", expr), "castExpr"), "expr")), "type")
                if k[1] != base or (k[0] == "isExceptionType") != isc:
                    put(bad, "value", "the test that the raised value is an exception looks at something else")
    ctx.check(n, "R3-raise", "accepted", fn.loc(), "no raise is accepted")
    ctx.check(plain, "R3-raise", "return", fn.loc(), "no return that is not a raise is accepted")
    for k in ("raise", "value"):
        ctx.check(k not in bad, "R3-raise", k, fn.loc(), bad.get(k))
    ctx.engine(e)


def yield_gate(ctx, W):
    P = W.P
    fn = P.need("checkYieldStmt")
    e = engine(W, fn, models={"checkType": checked(P, ())})
    cat = C("catcher")
    lhs, expr = ("fld", cat, "expr"), ("fld", ("fld", ("*", N), "yieldStmt"), "expr")
    lt, xt = ("fld", ("*", lhs), "type"), ("fld", ("*", expr), "type")
    bt = ("fld", ("*", ("fld", cat, "block")), "type")
    good, bad = 0, {}
    for p in e.run(fn):
        st = p.st
        err = bool(p.calls("logError")) or node_field(st, "type") == "ERR"
        if err or fact(p, ("type", xt, P.enum("typError"))) == 1 or fact(p, ("type", bt, P.enum("typError"))) == 1:
            continue
        good += 1
        if fact(p, ("isVoidResultType", lt)) != 0:
            put(bad, "void", "a value is yielded for a call that returns none")
        if fact(p, ("assignable", ("target", lt), xt)) != 1:
            put(bad, "type", "a yielded value that does not convert to the type of the expression is accepted")
        var = st.mem.get(("fld", cat, "variable"), ("fld", cat, "variable"))
        if isinstance(var, tuple) and var[0] == "mk" and (arg(W, var, "init") or not is_target(W, arg(W, var, "type"), lt)):
            put(bad, "var", "the variable that receives the yielded value does not have the type of the expression")
        a = node_field(st, "exprStmt", "expr")
        if node_field(st, "tag") != P.enum("astExprStmt") or not isinstance(a, tuple) or a[:2] != ("mk", "makeAssignExpr") \
                or not names_var(W, arg(W, a, "lhs"), var) or not any(x == expr for x in subs(arg(W, a, "rhs"))) or arg(W, a, "op") != P.enum("opAssign"):
            put(bad, "store", "yield does not store its value in the variable the expression reads")
    ctx.check(good, "R4-yield", "accepted", fn.loc(), "no yield is accepted")
    for k in ("void", "type", "var", "store"):
        ctx.check(k not in bad, "R4-yield", k, fn.loc(), bad.get(k))
    ctx.engine(e)


def is_target(W, t, lt):
    return t == ("target", lt) or isinstance(t, tuple) and t[:2] == ("mk", "makeTypeReferenceNode") and ("target", lt) in t[2]


def call_gate(ctx, W):
    """which calls pass their exceptions on"""
    P = W.P
    fn = P.need("checkCallExpr")
    last = []

    def m(name):
        def f(eng, st, fr, args, node):
            v = eng.read(st, C("explicitCatch"))
            st = st.copy()
            eng.record(st, Ev("gate", name, (v, args[1] if len(args) > 1 else None, args), fr.fn.loc(node[1]), None, fr.fn.name, node))
            return [(st, ("res", name) + tuple(a for a in args[1:2]))]
        return f
    deleg = [n for n in ("checkType", "astVisit", "transformToConstructCallExpr", "checkFunctionCallEpilogue", "checkCallExceptionBubbleUp")]
    models = {n: m(n) for n in deleg}
    models.update({n: (lambda eng, st, fr, args, node, n=n: [(st, (n, args[0]))]) for n in
                   ("stripPointerOrReferenceOnce", "flattenWrappedType", "resolveAstNode", "resolvePath", "getTypeDecl")})
    models["evalExplicitConstruction"] = lambda eng, st, fr, args, node: fork(st, ("constructs", args[1]))
    models["transformToUnionValue"] = lambda eng, st, fr, args, node: [(st, args[1])]
    e = engine(W, fn, models=models)
    old = C("explicitCatch")
    bad, n = {}, {"caught": 0, "free": 0}
    for p in e.run(fn):
        st = p.st
        gates = [x for x in p.events if x.kind == "gate"]
        f = p.facts().get(old, TOP)
        was = 0 if f[0] == f[1] == 0 else 1 if 0 in f[2] or f[0] > 0 else None

        def zero(v):
            return v == 0 or v == old and was == 0
        again = False
        for g in gates:
            v, sub, args = g.args
            same = sub == N
            if g.name in ("checkType", "astVisit") and same or g.name == "transformToConstructCallExpr":
                again = True
                if not (v == old or was is not None and v == was):
                    put(bad, "kept", "a call that is checked again in another form is not caught any more or is caught although it is not (%s)" % g.loc)
            elif g.name == "checkCallExceptionBubbleUp":
                continue
            elif not zero(v):
                put(bad, "operands", "the callee and the arguments of a caught call are taken to be caught too (%s)" % g.loc)
        err = node_field(st, "type") == "ERR" or bool(p.calls("logError"))
        ups = [g for g in gates if g.name == "checkCallExceptionBubbleUp"]
        epi = [g for g in gates if g.name == "checkFunctionCallEpilogue"]
        if not epi or err or again:
            continue
        types = [v for t, v in p.facts().items() if isinstance(t, tuple) and t[0] == "type" and t[2] == P.enum("typError") and t[1] != "ERR"]
        if any(t[0] == "type" and t[2] == P.enum("typError") and v[0] == v[1] == 1 for t, v in p.facts().items() if isinstance(t, tuple)):
            continue
        if was == 1:
            n["caught"] += 1
            if ups:
                put(bad, "caught", "the exception of a caught call is passed on to the caller")
        elif was == 0:
            n["free"] += 1
            if not ups:
                put(bad, "free", "the exception of a call that is not caught is lost")
        else:
            put(bad, "free", "whether a call is caught is not considered")
    for k in n:
        ctx.check(n[k], "R5-caught-calls", "accepted " + k, fn.loc(), "no such call is accepted")
    for k in ("operands", "kept", "caught", "free"):
        ctx.check(k not in bad, "R5-caught-calls", k, fn.loc(), bad.get(k))
    ctx.engine(e)


def binary_gate(ctx, W):
    P = W.P
    fn = P.need("checkBinaryExpr")
    lhs, rhs, op = (("fld", ("fld", ("*", N), "binaryExpr"), x) for x in ("lhs", "rhs", "op"))
    cf = [("catcher", x[0]) for x in P.record("ExceptionCather")] if False else ["result", "ex", "variable", "block", "expr"]
    cat = C("catcher")

    def chk(eng, st, fr, args, node):
        v = eng.read(st, C("explicitCatch"))
        c = {f: eng.read(st, ("fld", cat, f)) for f in cf}
        st = st.copy()
        eng.record(st, Ev("chk", "", (args[1], v, c, dict(st.facts)), fr.fn.loc(node[1]), None, fr.fn.name, node))
        for f in cf:       # what the block leaves behind
            if args[1] == rhs:
                eng.write(st, ("fld", cat, f), ("left", f))
        return [(st, ("fld", ("*", args[1]), "type"))]

    def handle(eng, st, fr, args, node):
        vals = {f: eng.read(st, ("fld", deref(args[2]), f)) for f in cf}
        st = st.copy()
        eng.record(st, Ev("catch", "", (vals, dict(st.facts), {f: eng.read(st, ("fld", cat, f)) for f in cf}), fr.fn.loc(node[1]), None, fr.fn.name, node))
        return [(st, 0)]
    isc = ("==", op, P.enum("opCatch"))
    for case in (True, False):
        models = {"checkType": chk, "checkCatchBinaryOperator": handle}
        models.update({n: (lambda eng, st, fr, args, node, n=n: [(st, args[0])]) for n in ("stripAll", "unwrapType")})
        e = engine(W, fn, models=models)
        e.pol.only -= {"checkBinaryOperatorOverload", "checkClassBinaryOperatorOverload"}      # operators of structs and classes, none of them catch

        def init(eng, st):
            if case:
                st.mem[op] = P.enum("opCatch")
            else:
                st.facts[op] = (-INF, INF, frozenset({P.enum("opCatch")}))
            return [st]
        bad, n, hands = {}, 0, 0
        lt = ("fld", ("*", lhs), "type")
        for p in e.run(fn, init, None):
            evs = [x for x in p.events if x.kind in ("chk", "catch")]
            for x in evs:
                if x.kind == "chk" and x.args[0] == lhs:
                    n += 1
                    v = x.args[1]
                    if case != bool(v == 1 or v is True) or not case and v != 0:
                        put(bad, "flag", "the left operand of %s is checked %s" % ("catch" if case else "an operator", "as if it were not caught" if case else "as if it were caught"))
                if x.kind == "chk" and x.args[0] == rhs and case:
                    c = x.args[2]
                    fs = x.args[3]
                    ok = [k for k, v in fs.items() if isinstance(k, tuple) and k[0] == "isResultType" and v[0] == v[1] == 1]
                    if not ok:
                        put(bad, "result", "the block of a catch is checked although its expression may not raise")
                    if c["expr"] not in (lhs, ) or c["block"] != rhs:
                        put(bad, "block", "yield and raise in the catch block do not see this catch")
                    if c["result"] != 0 or c["ex"] != 0 or c["variable"] != 0:
                        put(bad, "fresh", "the result, exception or variable of an enclosing catch is taken for this one's")
                if x.kind == "catch":
                    hands += 1
                    if not case:
                        put(bad, "op", "another operator is translated as catch")
                    elif any(x.args[0][f] != ("left", f) for f in ("result", "ex", "variable")):
                        put(bad, "hand", "what the catch block produced is not what the catch is translated with")
            st = p.st
            if any(x.kind == "chk" and x.args[0] == rhs for x in evs):
                for f in cf:
                    v = e.read(st, ("fld", cat, f))
                    if v != ("fld", cat, f):
                        put(bad, "restore", "the enclosing catch is lost after a nested one")
        if case:
            ctx.check(hands, "R6-nesting", "translated", fn.loc(), "catch is not translated")
        ctx.check(n, "R6-nesting", "left operand", fn.loc(), "the left operand is not checked")
        for k in ("flag", "result", "block", "fresh", "hand", "restore", "op"):
            if case or k in ("flag", "restore", "op"):
                ctx.check(k not in bad, "R6-nesting", "%s (%s)" % (k, "catch" if case else "other operators"), fn.loc(), bad.get(k))
        ctx.engine(e)


def leaving(ctx, W):
    """a statement is taken to leave its function exactly when every way through it returns"""
    P = W.P
    rs = C("returnState")
    table = {n: None for n in ("checkIfStmt", "checkWhileStmt", "checkForStmt", "checkBlockStmt", "checkSwitchStmt", "checkMatchStmt", "checkReturnStmt", "checkBinaryExpr")}
    for name in table:
        fn = P.need(name)

        def chk(eng, st, fr, args, node):
            out = []
            l = args[1]
            plain = l[0] == "fld" and l[2] in ("cond", "update", "range", "expr", "lhs", "var", "variable")      # expressions only go on
            for leaves in (0,) if plain else (0, 1):
                s = st.copy()
                if leaves:
                    eng.write(s, rs, 1)
                eng.record(s, Ev("chk", leaves, (args[1],), fr.fn.loc(node[1]), None, fr.fn.name, node))
                out.append((s, ("fld", ("*", args[1]), "type")))
            return out
        # these statements are rewritten into others, which are checked in their place
        again = lambda eng, st, fr, args, node: [(st, 0)]
        models = {n: chk for n in ("checkType",)}
        models.update({n: again for n in ("astVisit", "reportUnreachable", "checkCatchBinaryOperator", "compareNodes")})
        e = engine(W, fn, models=models)
        writes = {f.name for f in P.all_fns() if f.file == fn.file and any(x[0] == "asg" and x[4][0] == "mem" and x[4][4] == "returnState" for x in walk(f.body))}
        e.pol.only = frozenset(writes | {fn.name, "hasFlag", "getBinaryOperatorKind"})
        e.pol.loop_bound, e.pol.max_states = 2, 20000

        def init(eng, st):
            st.mem[rs] = 0
            if name == "checkBinaryExpr":
                st.mem[fieldpath("binaryExpr", "op")] = P.enum("opCatch")
            return [st]
        bad, n = {}, 0
        try:
            paths = e.run(fn, init)
        except Limit:
            raise AnalysisBroken("%s has too many paths" % name)
        for p in paths:
            if node_field(p.st, "type") == "ERR" or p.calls("logError"):
                continue
            n += 1
            got = e.read(p.st, rs)
            kids = [x for x in p.events if x.kind == "chk"]
            base = lambda *f: [x.name for x in kids if x.args[0] == fieldpath(*f)]
            if name == "checkIfStmt":
                t, o = base("ifStmt", "body"), base("ifStmt", "otherwise")
                want = bool(t and o and t[-1] and o[-1])
            elif name in ("checkWhileStmt", "checkForStmt", "checkBinaryExpr"):
                want = False
                kids = [x for x in kids if not (name == "checkBinaryExpr" and x.args[0] != fieldpath("binaryExpr", "rhs"))]
            elif name == "checkBlockStmt":
                want = any(x.name for x in kids)
            elif name == "checkReturnStmt":
                f = p.facts().get(fieldpath("returnStmt", "isRaise"), TOP)
                want = None if 0 in f[2] or f[0] > 0 else True
            else:
                want = None if kids and all(x.name for x in kids) else False
            if want is None:
                continue
            if name == "checkBinaryExpr" and not kids:
                continue
            if (got != 0) != want:
                put(bad, "leaves", "%s is taken to %s (%s)" % (STATEMENT[name], "return although it may not" if got != 0 else "go on although it always returns", p.describe(6)))
        ctx.check(n, "R9-leaves", name + ": accepted", fn.loc(), "no %s is accepted" % STATEMENT[name])
        ctx.check(not bad, "R9-leaves", name, fn.loc(), bad.get("leaves"))
        ctx.engine(e)


STATEMENT = dict(checkIfStmt="an if statement", checkWhileStmt="a while statement", checkForStmt="a for statement", checkBlockStmt="a block", checkSwitchStmt="a switch statement",
                 checkMatchStmt="a match statement", checkReturnStmt="a return statement", checkBinaryExpr="a binary expression")


def fieldpath(*f):
    l = ("*", N)
    for x in f:
        l = ("fld", l, x)
    return l


def ex_macro(ctx, W):
    P = W.P
    fn = P.need("makeExNode")
    e = engine(W, fn, extra={"makeCastResultTo"}, models={"validateMacroArgumentCount": lambda eng, st, fr, args, node: fork(st, ("args ok",))})
    e.pol.only &= {fn.name, "hasFlag", "makeCastResultTo"}
    typer = ("fld", ("*", C("typer")), "context")
    cat = ("fld", ("*", typer), "catcher")
    blk, lhs = ("fld", cat, "block"), ("fld", cat, "expr")
    lt = ("fld", ("*", lhs), "type")
    bad, good, fresh = {}, 0, 0
    for p in e.run(fn):
        st, f = p.st, p.facts()
        if fact(p, ("args ok",)) == 0:
            continue
        b = f.get(blk, TOP)
        if p.ret == 0:
            if not p.calls("logError"):
                put(bad, "reported", "ex! is rejected without a diagnostic")
            elif 0 in b[2] or b[0] > 0:
                put(bad, "reported", "ex! in a catch block is rejected")
            continue
        if not (0 in b[2] or b[0] > 0):
            put(bad, "outside", "ex! is accepted outside a catch block")
        good += 1
        res, ex = (st.mem.get(("fld", cat, x), ("fld", cat, x)) for x in ("result", "ex"))
        if not names_var(W, p.ret, ex):
            put(bad, "names", "ex! is not the variable that holds the exception")
        if isinstance(res, tuple) and res[0] == "mk":
            fresh += 1
            void = fact(p, ("isVoidResultType", lt)) == 1
            if arg(W, res, "init") not in ((("clone", lhs, False), lhs) if void else (("clone", lhs, False),)) or arg(W, res, "type") != lt:
                put(bad, "result", "the exception is not taken from the result of the caught call")
            if not (isinstance(ex, tuple) and ex[0] == "mk" and cast_to(W, st, arg(W, ex, "init"), res, lt, 1)):
                put(bad, "value", "the variable ex! refers to does not hold the exception the call raised")
    ctx.check(good and fresh, "R2-catch", "ex!: accepted", fn.loc(), "ex! is accepted in no catch block")
    for k in ("reported", "outside", "names", "result", "value"):
        ctx.check(k not in bad, "R2-catch", "ex!: " + k, fn.loc(), bad.get(k))
    ctx.engine(e)


def bodies(ctx, W):
    """function and closure bodies start with nothing caught and no return seen, as the current function, and put the state of the enclosing one back"""
    P = W.P
    n = 0
    for fn in sorted((f for f in P.all_fns() if "middle/sema/" in str(f.file)), key=lambda f: (f.name, f.file)):
        if fn.name not in ("checkFunctionBody", "checkClosureExpr"):
            continue
        n += 1
        body = ("fld", ("fld", ("*", N), "funcDecl" if fn.name == "checkFunctionBody" else "closureExpr"), "body")
        names = ("explicitCatch", "returnState", "currentFunction")

        def chk(eng, st, fr, args, node):
            v = tuple(eng.read(st, C(f)) for f in names)
            st = st.copy()
            eng.record(st, Ev("chk", "", (args[1], v), fr.fn.loc(node[1]), None, fr.fn.name, node))
            for f in names[:2] if args[1] == body else ():
                eng.write(st, C(f), ("left", f))
            return [(st, ("fld", ("*", args[1]), "type"))]
        e = engine(W, fn, models={"checkType": chk})
        bad, m, back = {}, 0, 0
        for p in e.run(fn):
            evs = [x for x in p.events if x.kind == "chk" and x.args[0] == body]
            if not evs:
                continue
            m += 1
            for x in evs:
                ec, rs, cf = x.args[1]
                if ec != 0:
                    put(bad, "explicitCatch", "the calls of a body are taken to be caught if the function's definition is inside a caught expression")
                if rs != 0:
                    put(bad, "returnState", "a body is taken to have returned because the enclosing one has")
                if cf != N:
                    put(bad, "currentFunction", "the exceptions of a body are taken to be raised by another function")
            for f in names[:2]:
                if e.read(p.st, C(f)) != C(f):
                    put(bad, f + " restored", "the state of the enclosing function is lost")
            if fn.name != "checkFunctionBody" and e.read(p.st, C("currentFunction")) != C("currentFunction"):
                put(bad, "currentFunction restored", "the enclosing function's later calls are taken to be the closure's")
        ctx.check(m, "R7-bodies", fn.name + ": body", fn.loc(), "the body is not checked")
        for k in names + tuple(x + " restored" for x in names):
            ctx.check(k not in bad, "R7-bodies", "%s: %s" % (fn.name, k), fn.loc(), bad.get(k))
        ctx.engine(e)
    ctx.floor("R7-bodies", 14)


def predicates(ctx, W):
    """isResultType and its relatives on heaps of types"""
    P = W.P
    H = Types(P)
    exc = H.new("Exception", "Class")
    inh = lambda b: H.obj("inh%d" % len(H.mem), base=b, interfaces=0)
    boom = H.new("Boom", "Class", tClass__inheritance=inh(exc))
    deep = H.new("Deep", "Class", tClass__inheritance=inh(boom))
    other = H.new("Other", "Class", tClass__inheritance=0)
    sub = H.new("Sub", "Class", tClass__inheritance=inh(other))
    void = H.new("Void", "Struct")
    box = H.new("Box", "Struct")
    i32 = H.prim("I32", 4)
    names = {}
    for v, g in (("S_Exception", exc), ("S_Void", void)):
        names[v] = g
    nn = [0]

    def uni(*ms):
        nn[0] += 1
        arr = []
        o = ("h", "members%d" % nn[0])
        for i, t in enumerate(ms):
            H.mem[("fld", ("idx", o, i), "type")] = t
        return H.new("U%d" % nn[0], "Union", tUnion__count=len(ms), tUnion__members=("&", ("idx", o, 0)))
    res, vres = uni(i32, exc), uni(void, exc)
    bres = uni(box, exc)
    u2, u2r, u3 = uni(i32, box), uni(exc, i32), uni(i32, exc, box)
    un = uni(i32, boom)
    theirs, mine = H.new("their Exception", "Class"), H.new("their Void", "Struct")        # declared in a module
    rt, vt = uni(i32, theirs), uni(mine, exc)
    want = {
        "isResultType": {res: 1, vres: 1, bres: 1, u2: 0, u2r: 0, u3: 0, un: 0, i32: 0, exc: 0, boom: 0, void: 0, rt: 0, vt: 1},
        "isVoidResultType": {res: 0, vres: 1, bres: 0, u2: 0, u3: 0, i32: 0, void: 0, exc: 0, vt: 0},
        "isBaseExceptionType": {exc: 1, theirs: 0, boom: 0, deep: 0, other: 0, sub: 0, i32: 0, void: 0, res: 0},
        "isExceptionType": {boom: 1, other: 0, sub: 0, i32: 0, void: 0, res: 0, u2: 0},
        "getResultTargetType": {res: i32, vres: void, bres: box},
    }
    for t in list(H.desc):          # strings are interned: a name is an object of its own
        H.mem[("fld", t[1], "name")] = ("&", ("h", "name of " + name_of(t)))
    for t, o in ((theirs, exc), (mine, void)):
        H.set(t, name=H.mem[("fld", o[1], "name")], ns=("&", ("h", "a module")))

    for f, cases in want.items():
        fn = P.need(f)
        e = p04.engine(P, H)
        for t, exp in cases.items():
            def init(eng, st):
                H.install(eng, st)
                for g, ty in names.items():
                    st.mem[eng.glv(g, False, Frame(fn, 0, 0, ()))] = H.mem[("fld", ty[1], "name")]
            try:
                got = {p.ret if isinstance(exp, tuple) else show_bool(e, p) for p in e.run(fn, init, [t])}
            except (RecursionError, Limit):
                got = {"no result"}
            ctx.check(got == {exp}, "R8-predicates", "%s(%s)" % (f, name_of(t)), fn.loc(), "%s gives %s for %s" % (f, sorted(map(str, got)), name_of(t)))
        ctx.engine(e)


def show_bool(e, p):
    if isinstance(p.ret, int):
        return int(bool(p.ret))
    t = e.truth(p.st, p.ret)
    return int(t) if t is not None else p.ret


def run(ctx):
    import prog
    P = prog.full()
    ctx.rule("R1-propagate", "a call that raises either passes the exception on to the caller of a function declared to raise, at once and as an exception, and has the returned value otherwise, or is rejected")
    ctx.rule("R2-catch", "catch runs its block exactly when the call raised, with a value that converts to the expression's, and has the returned value otherwise")
    ctx.rule("R3-raise", "raise is accepted only in functions whose result type says that they raise, and only with an exception")
    ctx.rule("R4-yield", "a yielded value converts to the type of the caught expression and is stored in the variable the expression reads")
    ctx.rule("R5-caught-calls", "exactly the calls that are the operand of a catch are left to it, not those in their callee and arguments")
    ctx.rule("R6-nesting", "a catch sees its own block, expression, result and variable, and gives the enclosing catch's back")
    ctx.rule("R7-bodies", "the body of a function or closure is checked with nothing caught, as that function's, and leaves the enclosing function's state as it was")
    ctx.rule("R9-leaves", "a statement is taken to leave its function only if every way through it returns")
    ctx.rule("R8-predicates", "result types, exceptions and what a call that raises returns are recognised")
    W = World(P)
    bubble(ctx, W)
    catch(ctx, W)
    raise_gate(ctx, W)
    yield_gate(ctx, W)
    call_gate(ctx, W)
    binary_gate(ctx, W)
    bodies(ctx, W)
    ex_macro(ctx, W)
    leaving(ctx, W)
    predicates(ctx, W)
