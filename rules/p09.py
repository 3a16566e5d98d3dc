"""P09: compile-time evaluation computes what the operators mean."""
import prog
from prog import walk, callee_name
from absint import Engine, Limit, Policy, Ev, binop, show, subterms, contains
from build import AnalysisBroken

LEVEL = "other"

LIT = {"astBoolLit": "bool", "astCharLit": "char", "astIntegerLit": "int", "astFloatLit": "float"}
ARITH = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Mod": "%", "Shl": "<<", "Shr": ">>", "BAnd": "&", "BOr": "|", "BXor": "^"}
CMP = {"Eq": "==", "Ne": "!=", "Lt": "<", "Gt": ">", "Leq": "<=", "Geq": ">="}
MEMBERS = frozenset({"binaryExpr", "unaryExpr", "boolLiteral", "charLiteral", "intLiteral", "floatLiteral", "stringLiteral",
                     "rangeExpr", "ternaryExpr", "ifStmt", "indexExpr", "memberExpr", "groupExpr", "arrayExpr", "tupleExpr"})
REPORT = ("logError",)


def fld(b, *names):
    for n in names:
        b = ("fld", b, n)
    return b


def policy(**kw):
    pol = Policy()
    pol.opaque = frozenset({"logError", "logWarning", "logNote", "evalType", "makeString", "free", "stringBuilderGrow",
                            "comptimeCompareTypes", "deepCloneAstNode", "shallowCloneAstNode", "insertAstNode",
                            "stringBuilderInit", "stringBuilderDeinit", "stringBuilderRelease", "stringBuilderAppendCstr0",
                            "stringBuilderAppendCstr1", "stringBuilderAppendChar", "stringBuilderAppendInt",
                            "stringBuilderAppendUInt", "makeAstNop", "makeAstNode", "stringBuilderAppendFloat", "stringBuilderAppendBool"})
    pol.casts = True
    pol.union = MEMBERS
    pol.max_states = 60000
    pol.relevant = evaluators(prog.full())
    pol.small = 60
    pol.models = {"evaluate": always(1), "memset": memset, "memcpy": None}
    pol.models.pop("memcpy")
    for k, v in kw.items():
        if k == "models":
            pol.models.update(v)
        else:
            setattr(pol, k, v)
    return pol


_ev = None


def evaluators(P):
    """functions that take part in folding: they are interpreted in place; everything else that is not tiny stays a call"""
    global _ev
    if _ev is None:
        _ev = {f for f in P.all_fns() if ("/middle/eval" in f.file or "/middle/preprocess" in f.file)}
    return _ev


def always(v):
    def m(eng, st, fr, args, node):
        eng.record(st, Ev("call", "evaluate", args, fr.fn.loc(node[1]), v, fr.fn.name, node))
        return [(st, v)]
    return m


def memset(eng, st, fr, args, node):
    d = args[0]
    lv = d[1] if isinstance(d, tuple) and d[0] == "&" else ("*", d)
    # the body of a node: whatever member was active is gone
    if lv[0] == "fld" and lv[2] == "_body":
        base = lv[1]
        for k in [k for k in st.mem if k != ("um", base) and any(isinstance(s, tuple) and s[0] == "fld" and s[1] == base and
                                                                 s[2] in MEMBERS for s in prefixes(k))]:
            del st.mem[k]
        st.mem[("um", base)] = "_body"
    return [(st, d)]


def prefixes(k):
    while isinstance(k, tuple) and k and k[0] in ("fld", "idx"):
        yield k
        k = k[1]


class Lit:
    """a literal operand of the analysed expression"""

    def __init__(self, ptr, tag):
        self.ptr, self.tag, self.kind = ptr, tag, LIT.get(tag)
        self.obj = ("*", ptr)

    def value(self):
        return {"bool": fld(self.obj, "boolLiteral", "value"), "char": fld(self.obj, "charLiteral", "value"),
                "int": fld(self.obj, "intLiteral", "value"), "float": fld(self.obj, "floatLiteral", "value")}[self.kind]

    def aliases(self, p, e):
        """terms that denote this literal's number on path p"""
        out = {self.value()}
        if self.kind == "int" and e.truth(p.st, fld(self.obj, "intLiteral", "isNegative")) is False:
            out.add(fld(self.obj, "intLiteral", "uValue"))
        return out


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(x, m) for x in t)
    return t


def canon(t, m):
    """term with the operands' numbers named, commutative operators ordered and exact conversions dropped"""
    t = subst(t, m)

    def go(t):
        if not isinstance(t, tuple):
            return t
        t = tuple(go(x) for x in t)
        if len(t) == 3 and t[0] in ("+", "-", "*", "/", "%", "band", "|", "^", "<<", ">>", "==", "<"):
            return binop(t[0], t[1], t[2])
        return t
    return go(t)


class Case:
    """outcome of evaluating one expression shape along one path"""

    def __init__(self, P, e, p, N, lits):
        self.P, self.e, self.p, self.N = P, e, p, N
        self.m = {}
        for name, l in lits:
            if l.kind:
                for a in l.aliases(p, e):
                    self.m[a] = (name,)
        t = e.read(p.st, fld(N, "tag"))
        self.tag = t if isinstance(t, int) else None
        self.errors = [x for x in p.events if x.kind == "call" and x.name in REPORT]

    def at(self, *f):
        return canon(self.e.read(self.p.st, fld(self.N, *f)), self.m)

    def fact(self, name):
        for t, n in self.m.items():
            if n == (name,):
                f = self.p.st.facts.get(t)
                if f and f[0] == f[1]:
                    return f[0]
        return None

    def holding(self, want):
        """interval of the expected term when the path's branches settled it under some form"""
        w = self.resolve(want)
        for t, f in self.p.st.facts.items():
            if canon(t, self.m) == want or self.resolve(canon(t, self.m)) == w:
                return f
        return None

    def truth(self, name):
        for t, n in self.m.items():
            if n == (name,):
                x = self.e.truth(self.p.st, t)
                if x is not None:
                    return x
        return None

    def resolve(self, t):
        """expected term with operands settled by the path's branches replaced by their value"""
        m = {}
        for n in ("L", "R"):
            f = self.fact(n)
            if f is not None:
                m[(n,)] = f
        return canon(t, m)


def same(c, got, want):
    return got == want or got == c.resolve(want) or c.resolve(got) == c.resolve(want)


def number(c, kinds, want):
    """is the node the literal holding `want`, of the promoted kind; returns an error text or None"""
    P = c.P
    tag = {P.enum(k): v for k, v in LIT.items()}.get(c.tag)
    if "float" in kinds:
        ok = ("float",)
    elif "int" in kinds:
        ok = ("int",)
    elif "char" in kinds:
        ok = ("char", "int")
    else:
        ok = ("bool", "int")
    if tag not in ok:
        return "the result is a %s literal where %s is due" % (tag or "tag %s" % c.tag, ok[0])
    return holds(c, tag, want)


def holds(c, tag, want):
    if tag == "float":
        v = c.at("floatLiteral", "value")
        return None if same(c, v, want) else "the value is %s instead of %s" % (show(v), show(want))
    if tag == "bool":
        v = c.at("boolLiteral", "value")
        w = [want, ("!", ("!", want)), ("!", ("==", want, 0)), canon(("!", binop("==", want, 0)), {})]
        ok = any(same(c, v, x) for x in w)
        f = c.holding(want)
        if not ok and isinstance(v, int) and f is not None:
            ok = v == 1 and (0 in f[2] or f[0] > 0 or f[1] < 0) or v == 0 and f[0] == f[1] == 0
        return None if ok else "the truth value is %s instead of %s" % (show(v), show(want))
    if tag == "char":
        v = c.at("charLiteral", "value")
        if isinstance(v, tuple) and v[0] == "cast" and v[1] in ("i32", "u32"):
            v = v[2]
        if isinstance(v, tuple) and v[0] == "cast":
            return "the character is cut to %s" % v[1]
        return None if same(c, v, want) else "the character is %s instead of %s" % (show(v), show(want))
    vals = []
    for f in ("value", "uValue"):
        l = fld(c.N, "intLiteral", f)
        if l in c.p.st.mem:
            vals.append(c.at("intLiteral", f))
    if not vals:
        return "the integer's value is not set"
    for v in vals:
        if not same(c, v, want):
            return "the value is %s instead of %s" % (show(v), show(want))
    ng = c.e.read(c.p.st, fld(c.N, "intLiteral", "isNegative"))
    if fld(c.N, "intLiteral", "isNegative") not in c.p.st.mem:
        return "the sign of the integer is left unset (stale storage)"
    ng = canon(ng, c.m)
    w = canon(("<", want, 0), {})
    if isinstance(want, int):
        w = int(want < 0)
    t = c.e.truth(c.p.st, ng) if isinstance(ng, tuple) else bool(ng)
    wt = None
    for k, f in c.p.st.facts.items():
        if same(c, canon(k, c.m), w) and f[0] == f[1]:
            wt = bool(f[0])
    if same(c, ng, w) or (t is not None and t == wt):
        return None
    return "isNegative is %s although the value is %s" % (show(ng), show(want))


class Eval:
    def __init__(self, P, ctx, name, file, kind):
        self.P, self.ctx, self.kind = P, ctx, kind
        self.f = P.need(name, file)
        self.name = name
        self.file = file


def ops_of(P):
    e = {}
    for n in list(ARITH) + list(CMP) + ["LAnd", "LOr", "Range", "Is", "Catch"]:
        e[n] = P.enum("op" + n)
    return e


def run(ctx):
    P = prog.full()
    ctx.rule("R1-binary", "a folded binary operator yields its own operation on the operands' values, in the promoted literal kind, "
                          "or an error that is reported")
    ctx.rule("R2-unary", "a folded prefix operator yields its own operation on the operand")
    ctx.rule("R3-divide", "no division or remainder is computed at compile time unless the divisor is known not to be 0 "
                          "(nor -1 for the smallest integer)")
    ctx.rule("R4-exact", "integers are folded without loss of precision")
    ctx.rule("R5-truth", "a literal used as a comptime condition is true exactly when it is non-zero / non-empty")
    ctx.rule("R6-branch", "comptime if/ternary keep exactly the branch the condition selects")
    ctx.rule("R7-loop", "a comptime loop visits the elements from first to last, once each")
    ctx.rule("R8-index", "comptime indexing reads the element asked for and reports an index outside the bounds")
    ctx.rule("R10-visit", "evaluating an expression that is not yet a value evaluates it, and fails when it became an error")
    ctx.rule("R9-place", "an evaluated expression keeps its own place in the list it belongs to")
    evaluators(P)
    jobs = []
    ops = list(ops_of(P))
    for k in EVALS:
        for i in range(0, len(ops), 2):
            jobs.append(lambda c, k=k, o=ops[i:i + 2]: binary(P, c, k, o))
    nb = len(jobs)
    for r in (unary, exact, truth, branch, loops, index, place, visits):
        jobs.append(lambda c, r=r: r(P, c))
    res = ctx.fork(jobs)
    for k in EVALS:
        n = sum(x[1] for x in res[:nb] if x[0] == k[0])
        if n < 60:
            raise AnalysisBroken("%s: only %d folding paths recognised" % (k[0], n))


EVALS = (("evalBinaryExpr", "middle/eval", "eval"), ("preprocessorEvalBinaryExpr", "middle/preprocess", "pre"))


def divhook(found):
    def h(eng, st, fr, op, a, b, ty, e):
        if op in ("/", "%") and ty.get("k") in ("int", "uint"):
            zero = eng.truth(st, b)
            m1 = isinstance(b, int) and b != -1
            f = None if isinstance(b, int) else st.facts.get(b)
            if f is not None and (-1 in f[2] or f[0] > -1 or f[1] < -1):
                m1 = True
            found.append((op, zero is True, m1 or ty.get("k") == "uint", fr.fn, e[1], b))
    return h


def shape(P, N, member, opv, operands):
    def init(eng, st):
        if opv is not None:
            eng.write(st, fld(N, member, "op"), opv)
        eng.write(st, fld(N, "tag"), P.enum("astBinaryExpr" if member == "binaryExpr" else "astUnaryExpr"))
        for ptr, tag in operands:
            eng.set_fact(st, ptr, ne=0)
            eng.write(st, fld(("*", ptr), "tag"), P.enum(tag))
        eng.set_fact(st, ("p", 1), ne=0)
    return init


def binary(P, ctx, ev, names):
    ops = {n: v for n, v in ops_of(P).items() if n in names}
    N = ("*", ("p", 1))
    L, R = fld(N, "binaryExpr", "lhs"), fld(N, "binaryExpr", "rhs")
    for name, file, kind in (ev,):
        f = P.need(name, file)
        folded = 0
        for op, opv in ops.items():
            pairs = [(a, b) for a in LIT for b in LIT]
            if kind == "eval":
                pairs += [("astStringLit", "astStringLit"), ("astStringLit", "astIntegerLit"), ("astIntegerLit", "astStringLit"),
                          ("astPrimitiveType", "astPrimitiveType"), ("astPrimitiveType", "astIntegerLit"),
                          ("astIntegerLit", "astPrimitiveType"), ("astStringLit", "astPrimitiveType"), ("astNullLit", "astIntegerLit"),
                          ("astIntegerLit", "astNullLit"), ("astGenericParam", "astIntegerLit"), ("astGroupExpr", "astIntegerLit"),
                          ("astIntegerLit", "astCastExpr"), ("astCastExpr", "astCastExpr")]
            for ta, tb in pairs:
                div = []
                e = Engine(P, policy(on_bin=divhook(div)))
                ps = e.run(f, shape(P, N, "binaryExpr", opv, ((L, ta), (R, tb))))
                ctx.engine(e)
                la, lb = Lit(L, ta), Lit(R, tb)
                key = "%s %s %s %s" % (kind, short(ta), op, short(tb))
                why = None
                good = 0
                dead = [x for x in e.noret]
                if dead:
                    why = "the evaluation aborts in %s" % dead[0][2]
                for p in ps:
                    c = Case(P, e, p, N, (("L", la), ("R", lb)))
                    w, g = binary_case(P, c, op, la, lb, kind)
                    good += g
                    why = why or w
                if why is None and not good and ta in ("astIntegerLit", "astFloatLit") and tb in ("astIntegerLit", "astFloatLit") and \
                        op in list(ARITH) + list(CMP) + ["LAnd", "LOr"] and not ("astFloatLit" in (ta, tb) and
                                                                              op in ("Mod", "Shl", "Shr", "BAnd", "BOr", "BXor")):
                    why = "numbers are never folded"
                folded += good
                ctx.check(why is None, "R1-binary", key, f.loc(), "%s of %s and %s: %s" % (op, short(ta), short(tb), why))
                for dop, nz, nm, fn, line, b in div:
                    ctx.check(nz, "R3-divide", "%s %s: divisor of %s in %s" % (key, fn.name, dop, fn.name), fn.loc(line),
                              "%s by %s, which may be 0" % (dop, show(b)))
                    ctx.check(nm, "R3-divide", "%s %s: overflow of %s in %s" % (key, fn.name, dop, fn.name), fn.loc(line),
                              "%s by %s, which may be -1 (overflow for the smallest integer)" % (dop, show(b)))
        return name, folded


def short(t):
    return t[3:]


def binary_case(P, c, op, la, lb, kind):
    """(violation text or None, 1 if folded)"""
    N = c.N
    if c.tag == P.enum("astError"):
        return (None, 0) if c.errors else ("the expression becomes an error that is never reported", 0)
    if c.errors:
        return (None, 0) if kind == "pre" and c.tag == P.enum("astBinaryExpr") else \
            ("an error is reported but the expression goes on as a value", 0)
    if c.tag == P.enum("astBinaryExpr"):
        if kind == "pre" and ("um", N) not in c.p.st.mem or kind == "pre" and c.p.st.mem.get(("um", N)) == "binaryExpr":
            return None, 0
        return "the expression is left unevaluated", 0
    if contains(tuple(c.p.st.mem.items()), lambda s: s[0] == "clobbered"):
        return "an operand is read after its storage was overwritten", 0
    if "astNullLit" in (la.tag, lb.tag):
        return None, 0      # null has no number: whatever it counts as, the evaluation must end or report
    kinds = {la.kind, lb.kind}
    ptr = la.ptr, lb.ptr
    if None not in kinds:
        l, r = ("L",), ("R",)
        if op in ("Div", "Mod"):
            wants = [("/" if op == "Div" else "%", l, r)]
            if c.fact("R") == -1:
                wants = [("u-", l), ("*", l, -1), ("-", 0, l), ("/", l, -1)] if op == "Div" else [0, ("%", l, -1)]
            elif c.fact("R") == 1:
                wants.append(l if op == "Div" else 0)
            errs = [number(c, kinds, w) for w in wants]
            return (None, 1) if None in errs else (errs[0], 0)
        if op in ARITH:
            w = number(c, kinds, binop(ARITH[op], l, r))
            return w, w is None
        if c.tag == P.enum("astRangeExpr") and op == "Range":
            ok = c.at("rangeExpr", "start") == ptr[0] and c.at("rangeExpr", "end") == ptr[1] and c.at("rangeExpr", "step") == 0
            return (None if ok else "the range does not run from the first operand to the second"), 1
        if c.tag != P.enum("astBoolLit"):
            return "the result has tag %s instead of being a boolean" % c.tag, 0
        v = c.e.read(c.p.st, fld(N, "boolLiteral", "value"))
        cv = canon(v, c.m)
        if op in CMP:
            want = binop(CMP[op], l, r)
            ok = same(c, cv, want)
            if not ok and isinstance(cv, int):
                # branches on the comparison itself
                for t, f in c.p.st.facts.items():
                    t = canon(t, c.m)
                    if f[0] == f[1] and f[0] in (0, 1):
                        if t == want and f[0] == cv or neg_eq(t, want) and f[0] != cv:
                            ok = True
            return (None, 1) if ok else ("the result is %s instead of %s" % (show(cv), show(want)), 0)
        if op in ("LAnd", "LOr"):
            t = bool(v) if isinstance(v, int) else c.e.truth(c.p.st, v)
            a, b = c.truth("L"), c.truth("R")
            if op == "LOr":
                want = True if a or b else (False if a is False and b is False else None)
            else:
                want = False if a is False or b is False else (True if a and b else None)
            if t is not None and want is None:
                return "the result is %s whatever an operand is" % t, 0
            if t != want:
                return "the result is %s where %s is due" % (t, want), 0
            return None, 1
        return "%s yields a value" % op, 0
    # strings and types
    if op == "Add" and la.tag == "astStringLit":
        ok = c.tag == P.enum("astStringLit")
        ap = [x for x in c.p.events if x.name.startswith("stringBuilderAppend")]
        lv = fld(("*", ptr[0]), "stringLiteral", "value")
        if not ok or len(ap) < 2 or ap[0].args[1] != lv:
            return "concatenation does not append the left operand first", 0
        second = ap[1].args[1]
        if lb.tag == "astStringLit" and second != fld(("*", ptr[1]), "stringLiteral", "value"):
            return "concatenation appends %s instead of the right operand" % show(second), 0
        if lb.tag == "astIntegerLit":
            neg = c.e.truth(c.p.st, fld(("*", ptr[1]), "intLiteral", "isNegative"))
            want = {fld(("*", ptr[1]), "intLiteral", "value")} if neg else \
                {fld(("*", ptr[1]), "intLiteral", "uValue"), fld(("*", ptr[1]), "intLiteral", "value")}
            if second not in want or (neg and ap[1].name != "stringBuilderAppendInt"):
                return "%s integer is appended through %s" % ("a negative" if neg else "an", ap[1].name), 0
        return None, 1
    v = c.e.read(c.p.st, fld(N, "boolLiteral", "value"))
    if op in CMP and c.tag == P.enum("astBoolLit"):
        if la.tag == "astStringLit" and lb.tag == "astStringLit":
            a, b = [fld(("*", x), "stringLiteral", "value") for x in ptr]
            cmp_ = ("call", "strcmp", (a, b), None)
            wants = [binop(CMP[op], cmp_, 0)]
            if op in ("Eq", "Ne"):
                wants.append(binop(CMP[op], a, b))
            return (None, 1) if v in wants else ("strings compare as %s" % show(v), 0)
        if op in ("Eq", "Ne"):
            pos = [s for s in subterms(v) if s[0] == "call" and s[1] == "comptimeCompareTypes"]
            if not pos:
                return "types compare as %s" % show(v), 0
            want = binop(CMP[op], 1, pos[0])
            alts = {want, canon(want, {}), pos[0] if op == "Eq" else ("!", pos[0])}
            if op == "Ne":
                alts.add(("!", ("==", pos[0], 1)))
            return (None, 1) if v in alts else ("types compare as %s" % show(v), 0)
    if op in ("LAnd", "LOr") or op in CMP:
        return None, 0
    return "%s yields a value for %s and %s" % (op, short(la.tag), short(lb.tag)), 0


def neg_eq(a, b):
    return a == ("!", b) or b == ("!", a)


def unary(P, ctx):
    N = ("*", ("p", 1))
    X = fld(N, "unaryExpr", "operand")
    for name, file, kind in (("evalUnaryExpr", "middle/eval", "eval"), ("preprocessorEvalUnaryExpr", "middle/preprocess", "pre")):
        f = P.need(name, file)
        folded = 0
        for op in ("Plus", "Minus", "Not", "Compl", "PreInc", "Deref", "Refof", "Await"):
            for ta in LIT:
                for prefix in (1, 0) if kind == "eval" else (1,):
                    e = Engine(P, policy())
                    base = shape(P, N, "unaryExpr", P.enum("op" + op), ((X, ta),))

                    def init(eng, st):
                        base(eng, st)
                        eng.write(st, fld(N, "unaryExpr", "isPrefix"), prefix)
                    ps = e.run(f, init)
                    ctx.engine(e)
                    key = "%s %s%s %s" % (kind, "" if prefix else "postfix ", op, short(ta))
                    why = "the evaluation aborts in %s" % e.noret[0][2] if e.noret else None
                    good = 0
                    for p in ps:
                        c = Case(P, e, p, N, (("L", Lit(X, ta)),))
                        w, g = unary_case(P, c, op if prefix else "post", LIT[ta], kind)
                        why = why or w
                        good += g
                    if why is None and not good and prefix and (op, LIT[ta]) in MUST:
                        why = "the operator is never applied"
                    folded += good
                    ctx.check(why is None, "R2-unary", key, f.loc(), "%s %s: %s" % (op, short(ta), why))
        if folded < 8:
            raise AnalysisBroken("%s: only %d folding paths recognised" % (name, folded))


MUST = {(o, k) for o in ("Plus", "Minus") for k in ("int", "float")} | {("Not", "bool"), ("Not", "int"), ("Compl", "int")}


def unary_case(P, c, op, kind_, kind):
    if c.tag == P.enum("astError"):
        return (None, 0) if c.errors else ("the expression becomes an error that is never reported", 0)
    if c.errors:
        return "an error is reported but the expression goes on as a value", 0
    if c.tag == P.enum("astUnaryExpr"):
        return (None, 0) if kind == "pre" and c.p.st.mem.get(("um", c.N), "unaryExpr") == "unaryExpr" else ("the expression is left unevaluated", 0)
    l = ("L",)
    if op in ("Plus", "Minus", "Compl"):
        wants = {"Plus": [l], "Minus": [("u-", l), ("-", 0, l), ("*", l, -1)], "Compl": [("u~", l), ("^", l, -1)]}[op]
        if op == "Compl" and kind_ == "float":
            return "a float is complemented", 0
        errs = [number(c, {kind_} if op != "Compl" and kind_ in ("int", "float") else {"int"}, w) for w in wants]
        return (None, 1) if None in errs else (errs[0], 0)
    if op == "Not":
        if c.tag != P.enum("astBoolLit"):
            return "the result has tag %s instead of being a boolean" % c.tag, 0
        v = c.e.read(c.p.st, fld(c.N, "boolLiteral", "value"))
        t = bool(v) if isinstance(v, int) else c.e.truth(c.p.st, v)
        a = c.truth("L")
        if t is None or a is None:
            cv = canon(v, c.m)
            if cv in (("!", l), ("==", l, 0), ("!", ("!", ("==", l, 0)))):
                return None, 1
            return "the result is %s" % show(cv), 0
        return (None, 1) if t == (not a) else ("!%s is %s" % (a, t), 0)
    return "the %s operator yields a value" % op, 0


def exact(P, ctx):
    """conversions of an integer literal's value to a floating type in the evaluators"""
    n = 0
    for f in P.all_fns():
        if "/middle/eval/" not in f.file and "/middle/preprocess/" not in f.file:
            continue
        n += 1
        hit = None
        for x in walk(f.body):
            if x[0] == "cast":
                ty, src = f.tu.types[x[2]], f.tu.types[x[3][2]] if isinstance(x[3][2], int) else {}
                if ty.get("k") == "float" and src.get("k") in ("int", "uint") and src.get("z") == 8 and \
                        any(y[0] == "mem" and y[4] in ("value", "uValue") and False or
                            y[0] == "call" and callee_name(y) in ("integerLiteralValue", "unsignedIntegerLiteralValue") or
                            y[0] == "mem" and mentions_int(y) for y in walk(x[3])):
                    hit = x
        ctx.check(hit is None, "R4-exact", "%s converts an integer literal to floating point" % f.name, f.loc(hit[1] if hit else None),
                  "a 64-bit integer literal is converted to a double (53 bits of precision) for folding")
    if n < 40:
        raise AnalysisBroken("only %d evaluator functions found" % n)


def mentions_int(y):
    return any(z[0] == "mem" and z[4] == "intLiteral" for z in walk(y))


def truth(P, ctx):
    N = ("*", ("p", 1))
    for name, file in (("evalBooleanCast", "middle/eval"), ("preprocessorAsBoolean", "middle/preprocess")):
        f = P.need(name, file)
        for ta in list(LIT) + ["astNullLit", "astStringLit"]:
            e = Engine(P, policy())

            def init(eng, st):
                eng.set_fact(st, ("p", 1), ne=0)
                eng.write(st, fld(N, "tag"), P.enum(ta))
                if ta == "astStringLit":
                    eng.set_fact(st, fld(N, "stringLiteral", "value"), ne=0)
            ps = e.run(f, init)
            ctx.engine(e)
            key = "%s %s" % (name, short(ta))
            why = "aborts" if e.noret else None
            for p in ps:
                if p.ret == 0:
                    why = why or "a literal is rejected as a condition"
                    continue
                t = e.read(p.st, fld(N, "tag"))
                if t != P.enum("astBoolLit"):
                    why = why or "the node does not become a boolean literal"
                    continue
                v = e.read(p.st, fld(N, "boolLiteral", "value"))
                tv = bool(v) if isinstance(v, int) else e.truth(p.st, v)
                if ta == "astNullLit":
                    good = tv is False
                elif ta == "astStringLit":
                    ch = ("idx", ("*", fld(N, "stringLiteral", "value")), 0)
                    alts = {ch, ("*", fld(N, "stringLiteral", "value"))}
                    good = None
                    for c in alts:
                        x = e.truth(p.st, c)
                        if x is not None and tv is not None:
                            good = x == tv
                        elif v in (c, ("!", ("==", c, 0)), ("!", ("!", c))):
                            good = True
                    if good is None:
                        good = False
                else:
                    l = Lit(("p", 1), ta)
                    al = l.aliases(p, e)
                    good = False
                    for a in al:
                        x = e.truth(p.st, a)
                        if v in (a, ("!", ("==", a, 0)), ("!", ("!", a))) or (x is not None and x == tv):
                            good = True
                if not good:
                    why = why or "the condition's value is %s" % show(v)
            if not ps:
                why = "never returns"
            ctx.check(why is None, "R5-truth", key, f.loc(), why or "")


def boolcast(eng, st, fr, args, node):
    """both outcomes of turning the condition into a boolean"""
    out = []
    for r in (0, 1):
        s = st.copy()
        eng.record(s, Ev("call", "boolean", args, fr.fn.loc(node[1]), r, fr.fn.name, node))
        if r:
            eng.write(s, fld(("*", args[1]), "tag"), eng.P.enum("astBoolLit"))
        out.append((s, r))
    return out


def branch(P, ctx):
    N = ("*", ("p", 1))

    def cond_value(e, p, cond):
        return e.truth(p.st, e.read(p.st, fld(("*", cond), "boolLiteral", "value")))
    # evaluator
    f = P.need("evalIfStmt", "middle/eval")
    n = 0
    body, els, cond = fld(N, "ifStmt", "body"), fld(N, "ifStmt", "otherwise"), fld(N, "ifStmt", "cond")
    e = Engine(P, policy(models={"evalBooleanCast": boolcast, "clearAstBody": clearbody, "getLastAstNode": lastnode}))

    def init(eng, st):
        eng.set_fact(st, ("p", 1), ne=0)
        eng.write(st, fld(N, "tag"), P.enum("astIfStmt"))
        eng.set_fact(st, body, ne=0)
    ps = e.run(f, init)
    ctx.engine(e)
    for p in ps:
        t = cond_value(e, p, cond)
        if not [x for x in p.events if x.name == "boolean" and x.res]:
            continue
        if t is None:
            ctx.bad("R6-branch", "evalIfStmt chooses without testing the condition", f.loc(), "a path does not depend on the condition's value")
            continue
        nxt = e.read(p.st, fld(N, "next"))
        sel = body if t else els
        zero = e.truth(p.st, els) is False
        want = {sel, fld(("*", sel), "blockStmt", "stmts")}
        n += 1
        if not t and zero:
            ok = nxt == fld(N, "next") and e.read(p.st, fld(N, "tag")) == P.enum("astNoop")
        else:
            ok = nxt in want or (isinstance(nxt, tuple) and nxt[0] == "call" and nxt[1] in ("makeAstNop",))
        ctx.check(ok, "R6-branch", "evalIfStmt condition %s%s" % (t, " without else" if zero and not t else ""), f.loc(),
                  "the statement is replaced by %s" % show(nxt))
    f = P.need("evalTernaryExpr", "middle/eval")
    body, els, cond = fld(N, "ternaryExpr", "body"), fld(N, "ternaryExpr", "otherwise"), fld(N, "ternaryExpr", "cond")
    e = Engine(P, policy(models={"evalBooleanCast": boolcast}))

    def init2(eng, st):
        eng.set_fact(st, ("p", 1), ne=0)
    for p in e.run(f, init2):
        if not [x for x in p.events if x.name == "boolean" and x.res]:
            continue
        tv = [v for k, v in p.st.facts.items() if k[0] == "fld" and k[2] == "value" and k[1] == fld(("*", cond), "boolLiteral")]
        t = None
        if tv:
            x = tv[0]
            t = True if (0 in x[2] or x[0] > 0) else (False if x[0] == x[1] == 0 else None)
        got = p.st.mem.get(N)
        src = got[1] if isinstance(got, tuple) and got[0] == "@base" else got
        n += 1
        sel = body if t else els
        ctx.check(t is not None and src == ("*", sel), "R6-branch", "evalTernaryExpr condition %s" % t, f.loc(),
                  "the expression is replaced by %s" % show(src))
    ctx.engine(e)
    # preprocessor
    for name, member in (("visitTernaryExpr", "ternaryExpr"), ("visitIfStmt", "ifStmt")):
        f = P.need(name, "middle/preprocess")
        body, els, cond = fld(N, member, "body"), fld(N, member, "otherwise"), fld(N, member, "cond")
        pol = policy(models={"preprocessorAsBoolean": boolcast})
        pol.opaque = pol.opaque | {"substituteAstNode", "astVisit"}
        e = Engine(P, pol)

        def init3(eng, st):
            eng.set_fact(st, ("p", 1), ne=0)
        for p in e.run(f, init3):
            b = [x for x in p.events if x.name == "boolean"]
            if not b or not b[0].res:
                # undecided: nothing may be dropped
                sub = p.calls("substituteAstNode")
                vis = [x.args[1] for x in p.calls("astVisit")]
                ok = not sub and body in vis and (els in vis or e.truth(p.st, els) is False)
                n += 1
                ctx.check(ok, "R6-branch", "preprocessor %s undecided" % name, f.loc(),
                          "a branch of an undecided condition is dropped or not visited")
                continue
            t = cond_value(e, p, cond)
            sub = [x.args[2] for x in p.calls("substituteAstNode")]
            sel = body if t else els
            n += 1
            if not t and e.truth(p.st, els) is False and not sub:
                ok = e.read(p.st, fld(N, "tag")) == P.enum("astNoop")
            else:
                ok = t is not None and sub == [sel]
            ctx.check(ok, "R6-branch", "preprocessor %s condition %s" % (name, t), f.loc(), "the node is replaced by %s" % [show(x) for x in sub])
        ctx.engine(e)
    if n < 10:
        raise AnalysisBroken("only %d branch selections analysed" % n)


def clearbody(eng, st, fr, args, node):
    return memset(eng, st, fr, (("&", fld(("*", args[0]), "_body")),), node)


def lastnode(eng, st, fr, args, node):
    st.nid += 1
    return [(st, ("call", "getLastAstNode", args, st.nid))]


def loops(P, ctx):
    N = ("*", ("p", 1))
    mk = lambda eng, st, fr, args, node: made(eng, st, fr, args, node)
    n = 0
    for name in ("evalForStmtWithRange", "evalForStmtWithString", "evalExprForStmtArray", "evalExprForStmtIterable", "evalExprForStmtVariadic"):
        f = P.fn(name, "middle/eval")
        if f is None:
            continue
        var = fld(N, "forStmt", "var")
        inits = []

        pol = policy(models={"makeAstNode": made, "getEvaluatedBody": always(0)})
        pol.record_fields = frozenset({"init"})
        pol.opaque = pol.opaque | {"makeResolvedIdentifier"}
        pol.only = frozenset({"integerLiteralValue", "nodeIs_", "typeIs_"})
        pol.loop_bound = 3
        e = Engine(P, pol)

        def init(eng, st):
            rng = fld(N, "forStmt", "range")
            eng.set_fact(st, rng, ne=0)
            eng.set_fact(st, ("p", 1), ne=0)
            if name == "evalForStmtWithRange":
                for q in ("start", "end", "step"):
                    o = ("*", fld(("*", rng), "rangeExpr", q))
                    eng.write(st, fld(o, "tag"), P.enum("astIntegerLit"))
                    eng.set_fact(st, fld(o, "intLiteral", "isNegative"), lo=0, hi=0)
        try:
            ps = e.run(f, init)
        except Limit:
            pol.loop_bound = 2
            ps = e.run(f, init)
        if name == "evalExprForStmtIterable":
            ps = []
            for t in ("astComptimeOnly", "astStructDecl"):
                def tagged(eng, st):
                    init(eng, st)
                    eng.write(st, fld(("*", fld(N, "forStmt", "range")), "tag"), P.enum(t))
                for p in e.run(f, tagged):
                    p.wrapped = t == "astComptimeOnly"
                    ps.append(p)
        ctx.engine(e)
        bad = None
        most = 0
        for p in ps:
            seq = [x.args[1] for x in p.events if x.kind == "write" and x.name == "init" and x.args[0] == fld(("*", var), "varDecl", "init")]
            if not seq:
                # some wrappers use another member name
                seq = [x.args[1] for x in p.events if x.kind == "write" and x.name == "init"]
            most = max(most, len(seq))
            w = loop_seq(P, e, p, name, N, seq)
            if w:
                bad = bad or w
        n += 1
        if most < 2:
            raise AnalysisBroken("%s: no iterations recognised" % name)
        ctx.check(bad is None, "R7-loop", name, f.loc(), bad or "")
    if n < 3:
        raise AnalysisBroken("only %d comptime loops found" % n)


def made(eng, st, fr, args, node):
    """a fresh node holding a copy of the initialiser"""
    st.nid += 1
    v = args[2]
    obj = v
    if isinstance(v, tuple) and v[0] == "&":
        obj = eng.load_obj(st, v[1])
    return [(st, ("made", st.nid, obj))]


def made_field(v, *path):
    if not (isinstance(v, tuple) and v[0] == "made" and isinstance(v[2], tuple) and v[2][0] == "obj"):
        return None
    for p, x in v[2][2]:
        names = tuple(s[1] for s in p)
        if names == path:
            return x
    return None


def loop_seq(P, e, p, name, N, seq):
    rng = fld(N, "forStmt", "range")
    if name == "evalForStmtWithRange":
        m = {}
        for q in ("start", "end", "step"):
            o = ("*", fld(("*", rng), "rangeExpr", q))
            for a in ("value", "uValue"):
                m[fld(o, "intLiteral", a)] = (q,)
        nostep = e.truth(p.st, fld(("*", rng), "rangeExpr", "step")) is False
        step = 1 if nostep else ("step",)
        facts = {canon(t, m): f for t, f in p.st.facts.items()}
        cur = ("start",)
        for i, v in enumerate(seq):
            x = made_field(v, "intLiteral", "value")
            if x is None:
                x = made_field(v, "intLiteral", "uValue")
            if x is None or canon(x, m) != cur:
                return "iteration %d binds %s instead of %s" % (i, show(canon(x, m)) if x is not None else show(v), show(cur))
            ng = made_field(v, "intLiteral", "isNegative")
            w = canon(("<", cur, 0), {})
            if ng is None:
                return "the loop variable's sign is not set"
            c = canon(ng, m)
            if c != w and not (isinstance(c, int) and facts.get(w) == (c, c, frozenset())):
                return "the loop variable's sign is %s" % show(c)
            g = facts.get(canon(("<", cur, ("end",)), {}))
            if g is None or g[0] != 1:
                return "iteration %d is not bounded by the end of the range" % i
            cur = binop("+", cur, step)
        g = facts.get(canon(("<", cur, ("end",)), {}))
        if finished(e, p) and not (g and g[1] == 0):
            return "the loop ends after %d iterations although the end of the range has not been reached" % len(seq)
        if not nostep:
            sf = facts.get(("step",))
            if seq and not (sf and sf[0] >= 1):
                return "the loop runs with a step that may be zero or negative, without end"
        return None
    if name == "evalForStmtWithString":
        s = fld(("*", rng), "stringLiteral", "value")
        for i, v in enumerate(seq):
            x = made_field(v, "charLiteral", "value")
            while isinstance(x, tuple) and x[0] == "cast":
                x = x[2]
            want = ("idx", ("*", s), i)
            if x != want and not (i == 0 and x == ("*", s)):
                return "iteration %d binds %s" % (i, show(x) if x is not None else show(v))
        if finished(e, p):
            k = len(seq)
            n = ("call", "strlen", (s,), None)
            more = [e.truth(p.st, t) for t in (("<", k, n), ("idx", ("*", s), k)) + ((n, ("*", s)) if not k else ())]
            if False not in more and not known_len(p, n, k):
                return "the loop ends after %d characters although the end of the string has not been reached" % k
        return None
    if name == "evalExprForStmtArray":
        cur = fld(("*", rng), "arrayExpr", "elements")
        for i, v in enumerate(seq):
            if v != cur:
                return "iteration %d binds %s" % (i, show(v))
            cur = fld(("*", cur), "next")
        if finished(e, p) and e.truth(p.st, cur) is not False:
            return "the loop ends after %d elements although there are more" % len(seq)
        return None
    if name == "evalExprForStmtIterable":
        starts = (fld(("*", rng), "next"),) if p.wrapped else (rng,)
        for i, v in enumerate(seq):
            if i == 0:
                if v not in starts:
                    return "the first iteration binds %s (wrapped list: %s)" % (show(v), p.wrapped)
                cur = v
            elif v != cur:
                return "iteration %d binds %s" % (i, show(v))
            cur = fld(("*", cur), "next")
        if not seq:
            cur = starts[0]
        if finished(e, p) and e.truth(p.st, cur) is not False:
            return "the loop ends after %d elements although there are more" % len(seq)
        return None
    if name == "evalExprForStmtVariadic":
        cur = fld(("*", rng), "ident", "resolvesTo")
        for i, v in enumerate(seq):
            a = v[2] if isinstance(v, tuple) and v[0] == "call" else ()
            if len(a) < 5 or a[4] != cur:
                return "iteration %d binds %s" % (i, show(v))
            cur = fld(("*", cur), "next")
        if seq and finished(e, p) and e.truth(p.st, cur) is not False:
            return "the loop ends after %d elements although there are more" % len(seq)
        return None
    return None


def finished(e, p):
    """the loop function returned success"""
    return p.ret is not None and e.truth(p.st, p.ret) is True


def known_len(p, n, k):
    f = p.st.facts.get(n)
    return f is not None and f[1] is not None and f[1] <= k


def uncast(t):
    while isinstance(t, tuple) and t[0] == "cast":
        t = t[2]
    return t


def looked_up(src):
    """(list, index) when src is what getNodeAtIndex found"""
    if isinstance(src, tuple) and src[0] == "*" and isinstance(src[1], tuple) and src[1][0] == "call" and src[1][1] == "getNodeAtIndex":
        return src[1][2]
    return None


def index(P, ctx):
    N = ("*", ("p", 1))
    f = P.need("evalIntegerIndexExpr", "middle/eval")
    I = fld(N, "indexExpr", "index")
    T = fld(N, "indexExpr", "target")
    at = fld(("*", I), "intLiteral", "value")
    lists = {"astArrayExpr": ("arrayExpr", "elements"), "astTupleExpr": ("tupleExpr", "elements"), "astAttr": ("attr", "args"),
             "astComptimeOnly": ("next",)}
    for tag in list(lists) + ["astStringLit", "astIntegerLit", "astStructDecl"]:
        pol = policy()
        pol.opaque = pol.opaque | {"getNodeAtIndex", "countAstNodes"}
        e = Engine(P, pol)

        def init(eng, st):
            for x, t in ((I, "astIntegerLit"), (T, tag)):
                eng.set_fact(st, x, ne=0)
                eng.write(st, fld(("*", x), "tag"), P.enum(t))
            eng.set_fact(st, ("p", 1), ne=0)
            eng.set_fact(st, fld(("*", I), "intLiteral", "isNegative"), lo=0, hi=0)
        ps = e.run(f, init)
        ctx.engine(e)
        why = "aborts" if e.noret else None
        good = 0
        for p in ps:
            err = p.calls("logError")
            t = e.read(p.st, fld(N, "tag"))
            if err:
                if t != P.enum("astError"):
                    why = why or "an out of range index is reported but the expression goes on"
                continue
            if t == P.enum("astError"):
                why = why or "the expression becomes an error that is not reported"
                continue
            if tag in lists:
                src = p.st.mem.get(N)
                src = src[1] if isinstance(src, tuple) and src[0] == "@base" else src
                al = {at, fld(("*", I), "intLiteral", "uValue")}
                r = looked_up(src)
                if r is None:
                    why = why or "the expression becomes %s rather than an element" % show(src)
                elif r[1] not in al or r[0] != fld(("*", T), *lists[tag]):
                    why = why or "the element is looked up as %s" % [show(a) for a in r]
                elif e.truth(p.st, src[1]) is not True:
                    why = why or "a missing element is used"
                else:
                    good += 1
            elif tag == "astStringLit":
                al = [at, fld(("*", I), "intLiteral", "uValue")]
                s = fld(("*", T), "stringLiteral", "value")
                v = e.read(p.st, fld(N, "charLiteral", "value"))
                while isinstance(v, tuple) and v[0] == "cast":
                    v = v[2]
                if v not in [("idx", ("*", s), a) for a in al]:
                    why = why or "the character read is %s" % show(v)
                    continue
                a = v[2]
                lo = p.st.facts.get(a)
                n = ("call", "strlen", (s,), None)
                up = e.truth(p.st, ("<", a, n))
                if up is not True:
                    why = why or "the index is not below the length"
                elif not (lo and lo[0] >= 0):
                    why = why or "a negative index is accepted"
                else:
                    good += 1
            else:
                why = why or "a %s is indexed" % short(tag)
        if tag in lists or tag == "astStringLit":
            if not good and why is None:
                why = "no element is ever read"
        ctx.check(why is None, "R8-index", "index of %s" % short(tag), f.loc(), why or "")
    g = P.need("evalIntegerMemberExpr", "middle/eval")
    M, T = fld(N, "memberExpr", "member"), fld(N, "memberExpr", "target")
    pol = policy()
    pol.opaque = pol.opaque | {"getNodeAtIndex"}
    e = Engine(P, pol)

    def init2(eng, st):
        for x, t in ((M, "astIntegerLit"), (T, "astTupleExpr")):
            eng.set_fact(st, x, ne=0)
            eng.write(st, fld(("*", x), "tag"), P.enum(t))
        eng.set_fact(st, ("p", 1), ne=0)
        eng.set_fact(st, fld(("*", M), "intLiteral", "isNegative"), lo=0, hi=0)
    why, good = None, 0
    for p in e.run(g, init2):
        if p.calls("logError"):
            if e.read(p.st, fld(N, "tag")) != P.enum("astError"):
                why = why or "an out of range member is reported but the expression goes on"
            continue
        src = p.st.mem.get(N)
        src = src[1] if isinstance(src, tuple) and src[0] == "@base" else src
        q = looked_up(src)
        al = [fld(("*", M), "intLiteral", x) for x in ("value", "uValue")]
        if not q or uncast(q[1]) not in al or q[0] != fld(("*", T), "tupleExpr", "elements"):
            why = why or "the member is looked up as %s" % ([show(a) for a in q] if q else "nothing")
            continue
        a = q[1]
        n = fld(("*", T), "tupleExpr", "len")
        if e.truth(p.st, ("<", a, n)) is not True and e.truth(p.st, src[1]) is not True:
            why = why or "the member index is not below the number of members"
            continue
        lo = p.st.facts.get(a)
        if not (lo and lo[0] >= 0) and e.truth(p.st, src[1]) is not True:
            why = why or "a negative member index is accepted"
            continue
        good += 1
    ctx.engine(e)
    if not good and why is None:
        why = "no member is ever read"
    ctx.check(why is None, "R8-index", "member of tuple", g.loc(), why or "")


def place(P, ctx):
    """the links of the evaluated node are its own afterwards"""
    N = ("*", ("p", 1))
    nx = fld(N, "next")
    for name, tags in (("evalBinaryExpr", ()), ("evalUnaryExpr", ()), ("evalTernaryExpr", ()), ("evalIndexExpr", ()),
                       ("evalIntegerMemberExpr", ()), ("evalGroupExpr", ())):
        f = P.need(name, "middle/eval")
        pol = policy(models={"evalBooleanCast": boolcast})
        pol.opaque = pol.opaque | {"getNodeAtIndex", "countAstNodes", "findEnumOptionByName", "findInAstNode",
                                   "findInComptimeIterable", "findAttributeArgument"}
        if name == "evalBinaryExpr":
            pol.opaque = pol.opaque | {g.name for g in P.callees(f) if g.name not in ("evaluate",)}
            pol.max_states = 20000
        e = Engine(P, pol)

        def init(eng, st):
            eng.set_fact(st, ("p", 1), ne=0)
            if name == "evalIndexExpr":
                for x, t in (("indexExpr", "astIntegerLit"),):
                    i = fld(N, "indexExpr", "index")
                    eng.set_fact(st, i, ne=0)
                    eng.write(st, fld(("*", i), "tag"), P.enum("astIntegerLit"))
                    eng.set_fact(st, fld(("*", i), "intLiteral", "isNegative"), lo=0, hi=0)
                    t = fld(N, "indexExpr", "target")
                    eng.set_fact(st, t, ne=0)
                    eng.write(st, fld(("*", t), "tag"), P.enum("astArrayExpr"))
            if name == "evalIntegerMemberExpr":
                for x, t in (("member", "astIntegerLit"), ("target", "astTupleExpr")):
                    i = fld(N, "memberExpr", x)
                    eng.set_fact(st, i, ne=0)
                    eng.write(st, fld(("*", i), "tag"), P.enum(t))
                eng.set_fact(st, fld(("*", fld(N, "memberExpr", "member")), "intLiteral", "isNegative"), lo=0, hi=0)
        if name == "evalBinaryExpr":
            base = shape(P, N, "binaryExpr", P.enum("opAdd"), ((fld(N, "binaryExpr", "lhs"), "astIntegerLit"), (fld(N, "binaryExpr", "rhs"), "astIntegerLit")))
        elif name == "evalUnaryExpr":
            base = shape(P, N, "unaryExpr", P.enum("opMinus"), ((fld(N, "unaryExpr", "operand"), "astIntegerLit"),))
        else:
            base = lambda eng, st: None

        def both(eng, st):
            base(eng, st)
            init(eng, st)
        why = None
        n = 0
        for p in e.run(f, both):
            if e.read(p.st, fld(N, "tag")) == P.enum("astError"):
                continue
            n += 1
            v = e.read(p.st, nx)
            olds = (nx, fld(N, "_head", "next"))
            # spliced: the end of the list taken over is linked to what followed the node
            spliced = any(k[0] == "fld" and k[2] == "next" and x in olds for k, x in p.st.mem.items())
            if v not in olds and not spliced:
                # the whole node may deliberately stand for a list
                it = e.read(p.st, fld(N, "flags"))
                flag = P.fn  # noqa
                if any(isinstance(t, tuple) and t[0] == "band" and t[1] == it and (x[0] > 0 or 0 in x[2]) for t, x in p.st.facts.items()):
                    continue
                if isinstance(v, tuple) and v[0] in ("hv",):
                    why = why or "the node is rewritten by a callee together with its links"
                else:
                    why = why or "the node's next becomes %s" % show(v)
        ctx.engine(e)
        if not n:
            raise AnalysisBroken("%s: no successful evaluation recognised" % name)
        ctx.check(why is None, "R9-place", name, f.loc(), why or "")


def visits(P, ctx):
    f = P.need("evaluate", "middle/eval")
    N = ("*", ("p", 1))
    for tag in ("UnaryExpr", "GroupExpr", "BinaryExpr", "TernaryExpr", "IndexExpr", "CallExpr"):
        pol = policy()
        pol.models.pop("evaluate", None)
        pol.opaque = pol.opaque | {"astVisit"}
        pol.force = frozenset(g.name for g in P.callees(f) if g.name != "astVisit")
        e = Engine(P, pol)

        def init(eng, st):
            eng.set_fact(st, ("p", 1), ne=0)
            eng.write(st, fld(N, "tag"), P.enum("ast" + tag))
        why = None
        ps = e.run(f, init)
        for p in ps:
            v = [x for x in p.calls("astVisit") if x.args[1] == ("p", 1)]
            if not v:
                why = why or "an expression is taken for a value without having been evaluated"
        ctx.engine(e)
        ctx.check(why is None and bool(ps), "R10-visit", "evaluate " + tag, f.loc(), why or "never returns")
    # the answer is the absence of an error
    pol = policy(models={"astVisit": visited})
    pol.models.pop("evaluate", None)
    pol.force = frozenset(g.name for g in P.callees(f) if g.name != "astVisit")
    e = Engine(P, pol)

    def init(eng, st):
        eng.set_fact(st, ("p", 1), ne=0)
        eng.write(st, fld(N, "tag"), P.enum("astBinaryExpr"))
    why = None
    n = 0
    for p in e.run(f, init):
        bad = e.read(p.st, fld(N, "tag")) == P.enum("astError")
        t = bool(p.ret) if isinstance(p.ret, int) else e.truth(p.st, p.ret)
        n += 1
        if t is None or t == bad:
            why = "evaluate answers %s for an expression that %s" % (t, "failed" if bad else "was evaluated")
    ctx.engine(e)
    ctx.check(why is None and n >= 2, "R10-visit", "evaluate answers success", f.loc(), why or "no outcome analysed")


def visited(eng, st, fr, args, node):
    out = []
    for t in ("astError", "astIntegerLit"):
        s = st.copy()
        eng.write(s, fld(("*", args[1]), "tag"), eng.P.enum(t))
        out.append((s, None))
    return out
