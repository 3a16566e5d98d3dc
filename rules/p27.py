"""P27: a switch or match runs the one arm that names the value, and cases that could not be told apart are rejected.

The ordering of case labels is evaluated on every pair of labels and ranges of a small domain and compared with the order of the sets of
values; the checks of a case, a switch and a match are interpreted on preset statements, with real types, and compared with what the
language accepts; and the translation of match is followed from the case's type to the tag that is compared and the member that is read."""
import itertools

from absint import Engine, Ev, Frame, Limit, Policy
from heap import Types, name_of
import p04
import p28

LEVEL = "other"
N, V, C = ("&", ("h", "node")), ("&", ("h", "visitor")), ("&", ("h", "ctx"))
ERR = ("&", ("h", "Error"))
RANGES = {"I8": (-2**7, 2**7 - 1), "U8": (0, 2**8 - 1), "I16": (-2**15, 2**15 - 1), "I32": (-2**31, 2**31 - 1), "U32": (0, 2**32 - 1),
          "I64": (-2**63, 2**63 - 1), "U64": (0, 2**64 - 1), "CChar": (0, 255), "Char": (0, 2**32 - 1), "Bool": (0, 1)}
SIZE = {"I8": 1, "U8": 1, "I16": 2, "I32": 4, "U32": 4, "I64": 8, "U64": 8, "CChar": 1, "Char": 4, "Bool": 1, "F64": 8}


class World:
    def __init__(self, P):
        self.P = P
        self.types = {f.name for fs in P.fns.values() for f in fs if any(str(f.file).endswith(x) for x in p04.FILES)}
        self.types |= {"unwrapType", "stripPointerOrReferenceOnce", "resolveType"}
        self.types -= {"findEnumOption", "getPrimitiveType", "makeAutoType", "makePointerType", "makeWrappedType"}
        self.ast = {"isIntegralLiteral", "isLiteralExpr", "isEnumLiteral", "nodeIs_", "integerLiteralValue", "getEnumLiteralValue", "isIntegerTypeInRange",
                    "hasFlag", "hasFlags", "getParentScopeWithTag", "insertAstNode", "countAstNodes", "getLastAstNode", "isNoopNodeAfterEval", "getAstVisitorContext"}
        self.sema = {f.name for f in P.all_fns() if f.file in (P.need("checkSwitchStmt").file, P.need("checkMatchStmt").file)}

    def heap(self):
        h = Types(self.P)
        self.k = 0
        for n, s in SIZE.items():
            h.prim(n, s)
        h.new("Error", "Error")
        h.new("Void", "Void")
        self.string = h.new("String", "String", size=8)
        h.obj("types")
        h.obj("ctx", L=("&", ("h", "log")), types=("&", ("h", "types")), returnState=0, evaluator=("&", ("h", "evaluator")))
        h.obj("visitor", context=C)
        return h

    def enum(self, h, name, **opts):
        o = ("h", "options of " + name)
        for i, (k, v) in enumerate(sorted(opts.items(), key=lambda x: x[1])):
            h.mem[("fld", ("idx", o, i), "value")] = v
            h.mem[("fld", ("idx", o, i), "name")] = ("str", k)
        h.mem[o] = 0
        return h.new(name, "Enum", size=4, tEnum__base=h.prims["I32"], tEnum__decl=h.obj("declaration of " + name), tEnum__options=("&", ("idx", o, 0)), tEnum__optionsCount=len(opts), d=(name, opts))

    def node(self, h, tag, name=None, **f):
        self.k += 1
        f = {k.replace("matchStmt__", "switchStmt__"): v for k, v in f.items()}         # of the same layout
        for a, b in (("switchStmt__cond", "switchStmt__expr"), ("switchStmt__expr", "switchStmt__cond")):
            if a in f:
                f.setdefault(b, f[a])
        return h.obj(name or "%s%d" % (tag, self.k), tag=self.P.enum("ast" + tag), **dict(dict(flags=0, next=0, parentScope=0, type=0, attrs=0), **f))

    def int(self, h, v, type=None):
        t = next(t for t in ("I8", "I16", "I32", "I64") if RANGES[t][0] <= v <= RANGES[t][1]) if type is None else type
        return self.node(h, "IntegerLit", type=h.prims[t], intLiteral__isNegative=int(v < 0), intLiteral__value=v, intLiteral__uValue=v)

    def char(self, h, v, type="Char"):
        return self.node(h, "CharLit", type=h.prims[type], charLiteral__value=v)

    def bool(self, h, v):
        return self.node(h, "BoolLit", type=h.prims["Bool"], boolLiteral__value=v)

    def option(self, h, e, k):
        fl = self.P.flag("flgEnumLiteral")
        name = ("str", k)
        return self.node(h, "MemberExpr", type=e, memberExpr__target=self.node(h, "Identifier", type=e),
                         memberExpr__member=self.node(h, "Identifier", flags=fl, ident__value=name))

    def range(self, h, a, b):
        return self.node(h, "RangeExpr", type=h.mem[("fld", a[1], "type")], rangeExpr__start=a, rangeExpr__end=b, rangeExpr__step=0)

    def engine(self, models=None, only=(), record=(), bound=8):
        P = self.P

        def option(eng, st, fr, args, node):
            t = args[0][1]
            n = eng.read(st, ("fld", ("fld", t, "tEnum"), "optionsCount"))
            for i in range(n):
                o = ("idx", ("h", "options of " + t[1]), i)
                if st.mem.get(("fld", o, "name")) == args[1]:
                    return [(st, ("&", o))]
            return [(st, 0)]
        ms = dict(findEnumOption=option, makeErrorType=lambda e, s, f, a, n: [(s, ERR)], makeVoidType=lambda e, s, f, a, n: [(s, ("&", ("h", "Void")))],
                  checkType=lambda e, s, f, a, n: [(s, e.read(s, ("fld", a[1][1], "type")))] if isinstance(a[1], tuple) else None)
        ms.update(models or {})

        class Pol(Policy):
            max_states, loop_bound, max_depth, alias = 4000, bound, 12, {"matchStmt": "switchStmt"}
            record_calls = frozenset({"logError"} | set(record))
        Pol.only = frozenset((self.types | self.ast | self.sema | set(only)) - set(ms) - set(record))
        Pol.models = ms
        return Engine(P, Pol())


def one(w, e, h, fn, args):
    try:
        ps = e.run(fn, lambda en, st: h.install(en, st), args)
    except (RecursionError, Limit) as x:
        return None, "no result (%s)" % type(x).__name__
    if len(ps) != 1:
        return None, "%s" % ("the compiler stops on an assertion" if not ps else "depends on " + ps[0].describe(4))
    return ps[0], None


def chain(e, st, x):
    got = []
    while isinstance(x, tuple) and x[0] == "&" and len(got) < 9:
        got.append(x)
        x = e.read(st, ("fld", x[1], "next"))
    return got


def comparator(ctx, w):
    P = w.P
    fn = P.need("compareLiteralNode")
    bad, n = {}, 0
    h = w.heap()
    E_ = w.enum(h, "Colour", R=-1, G=0, B=1, A=2, D=3)
    label = {"Lit": lambda v: w.int(h, v), "Char": lambda v: w.char(h, v + 97), "Option": lambda v: w.option(h, E_, "RGBAD"[v + 1]), "Bool": lambda v: w.bool(h, v)}
    ent = []
    for kind, dom in (("Lit", range(-1, 4)), ("Char", range(-1, 4)), ("Option", range(-1, 4)), ("Bool", range(0, 2))):
        nodes = {v: label[kind](v) for v in dom}
        xs = [((v, v), x) for v, x in nodes.items()]
        if kind != "Bool":
            xs += [((a, b), w.range(h, nodes[a], nodes[b])) for a in dom for b in dom if a <= b]
        ent += [(kind, r, x) for r, x in xs]
    cc = {x: h.obj("case of " + name_of(x), ctx=C, node=x) for _, _, x in ent}
    e = w.engine()
    for kind, grp in itertools.groupby(ent, key=lambda t: t[0]):
        grp = list(grp)
        for (_, a, x), (_, b, y) in itertools.product(grp, grp):
            shape = "%s/%s" % tuple("range" if "RangeExpr" in name_of(t) else "value" for t in (x, y))
            rel = "below" if a[1] < b[0] else "above" if a[0] > b[1] else "overlap"
            key = (kind, shape, rel)
            bad.setdefault(key, None)
            p, why = one(w, e, h, fn, [cc[x], cc[y]])
            n += 1
            if why:
                bad[key] = bad[key] or "%s against %s: %s" % (a, b, why)
            elif not isinstance(p.ret, int) or (p.ret > 0) - (p.ret < 0) != {"below": -1, "overlap": 0, "above": 1}[rel]:
                bad[key] = bad[key] or "%s against %s gives %s: the sorted cases do not have equal ones next to each other" % (a, b, p.ret)
    for k, why in sorted(bad.items()):
        ctx.check(why is None, "R1-order", "%s: %s %s" % k, fn.loc(), why)
    ctx.note("comparisons of labels", n) if hasattr(ctx, "note") else None
    ctx.engine(e)
    ctx.floor("R1-order", 25)


def duplicates(ctx, w):
    """equal neighbours are reported, and the statement is then in error"""
    P = w.P
    fn = P.need("checkDuplicateCaseMatches")
    for n in range(4):
        for eq in itertools.product((0, 1), repeat=max(0, n - 1)):
            h = w.heap()
            w.node(h, "SwitchStmt", "node")
            o = ("h", "cases")
            xs = [w.int(h, i) for i in range(n)]
            for i, x in enumerate(xs):
                h.mem[("fld", ("idx", o, i), "node")] = x
                h.mem[("fld", ("idx", o, i), "ctx")] = C
            h.mem[o] = 0

            def cmp(eng, st, fr, args, node, eq=eq):
                i = [a[1][2] if isinstance(a, tuple) and a[1][0] == "idx" else 0 for a in args]
                return [(st, 0 if abs(i[0] - i[1]) == 1 and eq[min(i)] else -1 if i[0] < i[1] else 1)]
            e = w.engine(models={"compareLiteralNode": cmp})
            p, why = one(w, e, h, fn, [C, N, ("&", ("idx", o, 0)), n])
            inst = "%d labels, equal %s" % (n, "".join(map(str, eq)) or "-")
            if why is None:
                er = p.calls("logError")
                if len(er) != sum(eq):
                    why = "%d errors for %d equal pairs" % (len(er), sum(eq))
                elif bool(sum(eq)) != (p.st.mem.get(("fld", N[1], "type")) == ERR):
                    why = "the statement is%s in error" % ("" if not sum(eq) else " not")
            ctx.check(why is None, "R2-duplicates", inst, fn.loc(), why)
            ctx.engine(e)
    ctx.floor("R2-duplicates", 8)


def case_labels(ctx, w):
    P = w.P
    fn = P.need("checkCaseStmt")
    conds = ["I8", "U8", "I16", "I32", "U32", "I64", "U64", "CChar", "Char", "Bool", "Colour", "Mixed"]
    INTS = [t for t in conds if t[0] in "IU"]
    ints = (-129, -1, 0, 1, 97, 127, 128, 255, 256, 40000, 2**31, -2**31 - 1, 2**32)
    labels = [("%d" % v, "int", v, v, lambda h, v=v: w.int(h, v)) for v in ints]
    labels += [("typed %s" % v, "int", v, v, lambda h, v=v: w.int(h, v, "I64")) for v in (-1, 5, 300)]
    labels += [("'a'", "char", 97, 97, lambda h: w.char(h, 97)), ("true", "bool", 1, 1, lambda h: w.bool(h, 1)), ("false", "bool", 0, 0, lambda h: w.bool(h, 0))]
    labels += [("%s..%s" % r, "int", r[0], r[1], lambda h, r=r: w.range(h, w.int(h, r[0]), w.int(h, r[1])))
               for r in ((0, 1), (5, 1), (-3, -1), (100, 200), (300, 400), (1, 1))]
    labels += [("'a'..'f'", "char", 97, 102, lambda h: w.range(h, w.char(h, 97), w.char(h, 102))), ("'f'..'a'", "char", 102, 97, lambda h: w.range(h, w.char(h, 102), w.char(h, 97)))]
    for en, opts in (("Colour", dict(R=0, G=1, B=2)), ("Mixed", dict(M=-1, Z=0, X=9))):
        for k, v in opts.items():
            labels.append(("%s.%s" % (en, k), en, v, v, lambda h, en=en, k=k: w.option(h, ("&", ("h", en)), k)))
    labels.append(("Mixed.M..Mixed.Z", "Mixed", -1, 0, lambda h: w.range(h, w.option(h, ("&", ("h", "Mixed")), "M"), w.option(h, ("&", ("h", "Mixed")), "Z"))))
    labels.append(("1.0", "never", 0, 0, lambda h: w.node(h, "FloatLit", type=h.prims["F64"], floatLiteral__value=1)))
    labels.append(("'s' string", "never", 0, 0, lambda h: w.node(h, "StringLit", type=w.string, stringLiteral__value=("str", "s"))))
    for t in ("I8", "I32", "U64", "Bool", "Char"):
        labels.append(("a variable of " + t, "never", 0, 0, lambda h, t=t: w.node(h, "Identifier", type=h.prims[t], ident__value=("str", "v"))))
    labels.append(("1..a variable", "never", 0, 0, lambda h: w.range(h, w.int(h, 1), w.node(h, "Identifier", type=h.prims["I8"]))))
    labels.append(("a variable..1", "never", 0, 0, lambda h: w.range(h, w.node(h, "Identifier", type=h.prims["I8"]), w.int(h, 1))))
    labels.append(("an error", "never", 0, 0, lambda h: w.node(h, "Identifier", type=ERR)))
    kinds = {**{t: "int" for t in INTS}, "CChar": "char", "Char": "char", "Bool": "bool", "Colour": "Colour", "Mixed": "Mixed"}
    e = w.engine()
    bad = {}
    for c in conds:
        lo, hi = RANGES.get(c, (0, 2) if c == "Colour" else (-1, 9))
        for const in (0, 1):
            for name, kind, a, b, mk in labels:
                if kind in ("int", "char", "bool") and kinds[c] != kind:
                    continue                    # conversions between kinds of primitive types are P04's
                h = w.heap()
                w.enum(h, "Colour", R=0, G=1, B=2)
                w.enum(h, "Mixed", M=-1, Z=0, X=9)
                t = h.prims.get(c) or ("&", ("h", c))
                if const:
                    if c not in ("I8", "U64", "Mixed"):
                        continue
                    t = h.new("const " + c, "Wrapped", flags=h.flag("Const"), size=4, wrapped__target=t)
                sw = w.node(h, "SwitchStmt", "switch", switchStmt__cond=w.node(h, "Identifier", type=t))
                m = mk(h)
                w.node(h, "CaseStmt", "node", parentScope=sw, caseStmt__match=m, caseStmt__body=w.node(h, "BlockStmt", type=("&", ("h", "Void"))), caseStmt__variable=0)
                p, why = one(w, e, h, fn, [V, N])
                want = kind == kinds[c] and a <= b and a <= hi and b >= lo
                if c == "U64" and kind == "int" and a < 0 <= b:
                    continue
                key = (c + (" const" if const else ""), "accepted" if want else "rejected")
                bad.setdefault(key, [])
                if why is None:
                    er = bool(p.calls("logError"))
                    ty = p.st.mem.get(("fld", N[1], "type"))
                    if er != (ty == ERR):
                        why = "an error is %s, and the case's type is %s" % ("reported" if er else "not reported", name_of(ty) if ty else ty)
                    elif er == want:
                        why = "is rejected" if want else "is accepted"
                if why:
                    bad[key].append("case %s: %s" % (name, why))
    for k, v in sorted(bad.items()):
        ctx.check(not v, "R3-labels", "switch on %s: labels that are %s" % k, fn.loc(), "; ".join(v[:4]))
    ctx.engine(e)
    ctx.floor("R3-labels", 28)


def switches(ctx, w):
    P = w.P
    fn = P.need("checkSwitchStmt")
    # which pattern types
    e = None
    types = dict(I8=1, U64=1, Bool=1, Char=1, CChar=1, Colour=1, F64=0, Struct=0, Pointer=0, Union=0, String=0, Const=1)

    def rec(name):
        def m(eng, st, fr, args, node):
            eng.record(st, Ev("call", name, tuple(args), fr.fn.loc(node[1]), None, fr.fn.name, node))
            return [(st, 0)]
        return m

    def alloc(eng, st, fr, args, node):
        st = st.copy()
        st.nid += 1
        o = ("h", "array%d" % st.nid)
        st.mem[o] = 0
        return [(st, ("&", ("idx", o, 0)))]
    ms = dict(qsort=rec("qsort"), checkDuplicateCaseMatches=rec("checkDuplicateCaseMatches"), mallocOrDie=alloc, free=lambda e, s, f, a, n: [(s, 0)], evaluate=lambda e, s, f, a, n: [(s, int(a[1] != ("&", ("h", "failing"))))])

    def setup(t, cases, stale=False):
        h = w.heap()
        w.enum(h, "Colour", R=0, G=1, B=2)
        h.new("Struct", "Struct")
        h.new("Pointer", "Pointer", size=8, pointer__pointed=h.prims["I8"])
        h.new("Union", "Union")
        h.new("Const", "Wrapped", flags=h.flag("Const"), wrapped__target=h.prims["I8"])
        ty = h.prims.get(t) or (w.string if t == "String" else ("&", ("h", t)))
        ns = []
        for i, k in enumerate(cases):
            ns.append(w.node(h, "CaseStmt" if k != "gone" else "Noop", {"f": "failing"}.get(k, "case%d" % i), flags=P.flag("flgComptime") if k in ("c", "f", "gone") else 0,
                             type=ERR if k == "e" else ("&", ("h", "Void")), caseStmt__match=0 if k == "d" else w.int(h, i), caseStmt__body=0))
        for a, b in zip(ns, ns[1:]):
            h.set(a, next=b)
        w.node(h, "SwitchStmt", "node", switchStmt__cond=w.node(h, "Identifier", type=ty), switchStmt__cases=ns[0] if ns else 0, switchStmt__defaultCase=ns[0] if stale else 0)
        return h, ns
    e = w.engine(models=ms)
    for t, want in sorted(types.items()):
        h, _ = setup(t, "x")
        p, why = one(w, e, h, fn, [V, N])
        if why is None:
            er = bool(p.calls("logError")) and p.st.mem.get(("fld", N[1], "type")) == ERR
            if er == bool(want):
                why = "a switch on this type is %s" % ("rejected" if want else "accepted, and C cannot switch on it")
        ctx.check(why is None, "R4-pattern", "switch on " + t, fn.loc(), why)
    # what is compared with what
    for cases in ("", "x", "d", "xx", "xdx", "xxd", "dx", "dd", "xddx", "c", "xe", "ex", "xf", "fx", ("gone",), ("x", "gone", "x"), "xcd"):
        h, ns = setup("I8", cases)
        p, why = one(w, e, h, fn, [V, N])
        kept = [n for n, k in zip(ns, cases) if k not in ("gone",)]
        want = [n for n, k in zip(ns, cases) if k not in ("gone", "d")]
        err = sum(k == "d" for k in cases) > 1
        inh = any(k in "ef" for k in cases if k != "gone")
        if why is None:
            er = bool(p.calls("logError"))
            st = p.st
            if inh:
                if st.mem.get(("fld", N[1], "type")) != ERR:
                    why = "the error in a case is lost"
            elif err:
                if not er or st.mem.get(("fld", N[1], "type")) != ERR:
                    why = "a second default is accepted"
            else:
                got = chain(e, st, e.read(st, ("fld", ("fld", N[1], "switchStmt"), "cases")))
                q, d = p.calls("qsort"), p.calls("checkDuplicateCaseMatches")
                df = e.read(st, ("fld", ("fld", N[1], "switchStmt"), "defaultCase"))
                if er:
                    why = "is rejected"
                elif got != kept:
                    why = "the cases are %s, of %s" % ([name_of(g) for g in got], [name_of(g) for g in kept])
                elif df != next((n for n, k in zip(ns, cases) if k == "d"), 0):
                    why = "the default is %s" % (name_of(df) if df else df)
                elif len(want) > 1 and (len(q) != 1 or len(d) != 1):
                    why = "the labels are not sorted and compared"
                elif q and d:
                    base = q[0].args[0][1][1] if isinstance(q[0].args[0], tuple) else None
                    ls = [st.mem.get(("fld", ("idx", base, i), "node")) for i in range(len(want))]
                    if d[0].args[2] != q[0].args[0] or d[0].args[1] != N:
                        why = "other labels are compared than were sorted"
                    elif q[0].args[1] != len(want) or d[0].args[3] != len(want):
                        why = "%s labels are sorted and %s compared, of %d" % (q[0].args[1], d[0].args[3], len(want))
                    elif ls != [st.mem.get(("fld", ("fld", x[1], "caseStmt"), "match")) for x in want]:
                        why = "the labels that are compared are not those of the cases"
                    elif "compareLiteralNode" not in str(q[0].args[3]):
                        why = "the labels are sorted by " + str(q[0].args[3])
        ctx.check(why is None, "R5-cases", "switch with cases " + ("".join(c[0] if c != "gone" else "-" for c in cases) or "none"), fn.loc(), why)
    h, _ = setup("I8", "dx", stale=True)
    p, why = one(w, e, h, fn, [V, N])
    ctx.check(why is None and not p.calls("logError"), "R5-cases", "checked again", fn.loc(), why or "a statement that is checked twice is rejected the second time")
    ctx.engine(e)
    ctx.floor("R4-pattern", 10)
    ctx.floor("R5-cases", 12)


def matches(ctx, w):
    P = w.P
    fn = P.need("checkCaseStmt")

    def setup(match, cond, var=None, members=("I32", "String", "Struct", "Class")):
        h = w.heap()
        h.new("Struct", "Struct")
        h.new("Class", "Class")
        h.new("Sub", "Class")
        get = lambda t: h.prims.get(t) or (w.string if t == "String" else ("&", ("h", t)))
        o = ("h", "members")
        for i, m in enumerate(members):
            h.mem[("fld", ("idx", o, i), "type")] = get(m)
        h.mem[o] = 0
        u = h.new("U", "Union", tUnion__count=len(members), tUnion__members=("&", ("idx", o, 0)))
        t = {"U": lambda: u, "^U": lambda: h.new("^U", "Pointer", size=8, pointer__pointed=u), "&U": lambda: h.new("&U", "Reference", size=8, reference__referred=u),
             "I32": lambda: h.prims["I32"], "Error": lambda: ERR}[cond]()
        ex = w.node(h, "Identifier", "matched", type=t)
        sw = w.node(h, "MatchStmt", "match", matchStmt__expr=ex, matchStmt__cases=0, matchStmt__defaultCase=0)
        v = w.node(h, "VarDecl", "variable", flags=P.flag("flgReference") if var == "&" else 0) if var else 0
        w.node(h, "CaseStmt", "node", parentScope=sw, caseStmt__idx=77, caseStmt__match=w.node(h, "TypeRef", type=get(match)) if match else 0, caseStmt__body=0, caseStmt__variable=v)
        return h, get
    ms = dict(makeReferenceType=lambda e, s, f, a, n: [(s, ("ref", a[1]))])
    e = w.engine(models=ms)
    mem = ("I32", "String", "Struct", "Class")
    for cond in ("U", "^U", "&U"):
        for m in mem + ("I8", "Sub", "Error"):
            for var in (None, "v", "&"):
                h, get = setup(m, cond, var)
                p, why = one(w, e, h, fn, [V, N])
                want = m in mem
                if why is None:
                    er = p.st.mem.get(("fld", N[1], "type")) == ERR
                    idx = p.st.mem.get(("fld", ("fld", N[1], "caseStmt"), "idx"))
                    if er == want:
                        why = "is rejected" if want else "is accepted, and the union has no such member"
                    elif not want and m != "Error" and not p.calls("logError"):
                        why = "no error is reported"
                    elif want and idx != mem.index(m):
                        why = "stands for member %s of the union" % (idx,)
                    elif want and var:
                        ty = p.st.mem.get(("fld", ("h", "variable"), "type"))
                        t = get(m)
                        if ty not in ((t, ("ref", t)) if var == "v" else (("ref", t),)):
                            why = "the variable has type %s" % (ty,)
                ctx.check(why is None, "R6-match-case", "match on %s: case %s%s" % (cond, m, " as " + var if var else ""), fn.loc(), why)
    ctx.engine(e)
    # the statement
    fn = P.need("checkMatchStmt")
    ms = dict(ms, mallocOrDie=lambda e, s, f, a, n: [(s, ("&", ("idx", ("h", "array"), 0)))], free=lambda e, s, f, a, n: [(s, 0)],
              evaluate=lambda e, s, f, a, n: [(s, int(a[1] != ("&", ("h", "failing"))))])
    e = w.engine(models=ms)
    for cond, want in (("U", 1), ("^U", 1), ("&U", 1), ("I32", 0), ("Error", 0)):
        for cases in ("", "0", "01", "012", "0e", "e", "ee", "00", "010", "0110", "1e0", "e0e", "0x", "x0", "0f"):
            h, get = setup("I32", cond)
            ns = []
            for i, k in enumerate(cases):
                # types are interned, but a case's type can be an alias of the member's: the index is what selects
                m = 0 if k == "e" else w.node(h, "TypeRef", type=h.new("alias%d" % i, "Alias") if k.isdigit() and i > 1 else get(mem[int(k)]) if k.isdigit() else get("I32"))
                ns.append(w.node(h, "CaseStmt", "failing" if k == "f" else "case%d" % i, flags=P.flag("flgComptime") if k == "f" else 0,
                                 type=ERR if k == "x" else ("&", ("h", "Void")), caseStmt__match=m, caseStmt__body=0, caseStmt__idx=int(k) if k.isdigit() else 0 if k == "e" else 9))
            for a, b in zip(ns, ns[1:]):
                h.set(a, next=b)
            h.mem[("fld", N[1], "@")] = 0
            h.set(("&", ("h", "match")), switchStmt__cases=ns[0] if ns else 0)
            m = ("&", ("h", "match"))
            p, why = one(w, e, h, fn, [V, m])
            ok = want and len(set(cases)) == len(cases) and not set(cases) & {"x", "f"}
            if why is None:
                er = p.st.mem.get(("fld", m[1], "type")) == ERR
                if er == ok:
                    why = "is rejected" if ok else "is accepted"
                elif not ok and want and not set(cases) & {"x", "f"} and not p.calls("logError"):
                    why = "no error is reported"
                elif not want and cond != "Error" and not p.calls("logError"):
                    why = "no error is reported"
                elif ok:
                    got = chain(e, p.st, e.read(p.st, ("fld", ("fld", m[1], "switchStmt"), "cases")))
                    if got != ns:
                        why = "the cases are %s" % [name_of(g) for g in got]
            ctx.check(why is None, "R7-match", "match on %s with cases %s" % (cond, cases or "none"), fn.loc(), why)
    ctx.engine(e)
    ctx.floor("R6-match-case", 50)
    ctx.floor("R7-match", 60)


def translation(ctx, w):
    """match is a switch on the tag of the union"""
    P = w.P
    W8 = p28.World(P)
    fn = P.fns["visitMatchStmt"]
    fn = next(f for f in fn if "simplify" in str(f.file))
    for n_cases in (1, 2, 3):
        for var, body in itertools.product((0, 1), ("block", "empty", "stmt", "shared")):
            if body == "shared" and (var or n_cases == 1):
                continue
            h = w.heap()
            h.new("U", "Union")
            ex = w.node(h, "Identifier", "matched", type=("&", ("h", "U")))
            ns, bodies, firsts = [], [], []
            for i in range(n_cases):
                last = i == n_cases - 1
                st = w.node(h, "ExprStmt", "stmt%d" % i)
                b = {"block": lambda: w.node(h, "BlockStmt", "body%d" % i, blockStmt__stmts=st), "empty": lambda: w.node(h, "BlockStmt", "body%d" % i, blockStmt__stmts=0),
                     "stmt": lambda: st, "shared": lambda: 0 if not last else w.node(h, "BlockStmt", "body%d" % i, blockStmt__stmts=st)}[body]()
                default = last and n_cases == 3
                v = w.node(h, "VarDecl", "var%d" % i, type=h.prims["I32"], varDecl__init=0) if var and not default else 0
                ns.append(w.node(h, "CaseStmt", "case%d" % i, caseStmt__match=0 if default else w.node(h, "TypeRef", type=h.prims["I32"]), caseStmt__variable=v, caseStmt__body=b, caseStmt__idx=5 - i))
                bodies.append(b)
            for a, b in zip(ns, ns[1:]):
                h.set(a, next=b)
            w.node(h, "MatchStmt", "node", matchStmt__expr=ex, matchStmt__cases=ns[0], matchStmt__defaultCase=0)

            def mk(name):
                def m(eng, st, fr, args, node):
                    return [(st, ("mk", name, tuple(args)))]
                return m
            ms = {n: mk(n) for n in W8.makers}

            def clone(eng, st, fr, args, node):
                return [(st, ("clone", args[1]))]
            ms.update(deepCloneAstNode=clone, astVisit=lambda e, s, f, a, n: [(s, 0)], getPrimitiveType=lambda e, s, f, a, n: [(s, h.prims["U64"])])
            here = {f.name for f in P.all_fns() if f.file == fn.file}
            e = w.engine(models=ms, only=here, record=("astVisitFallbackVisitAll",))
            p, why = one(w, e, h, fn, [V, N])
            inst = "%d cases%s, %s" % (n_cases, " with variables" if var else "", {"shared": "shared body"}.get(body, body + " bodies"))
            if why is None:
                why = follow(P, W8, w, p.st, ns, bodies, var, n_cases, body)
            ctx.check(why is None, "R8-translate", inst, fn.loc(), why)
            ctx.engine(e)
    ctx.floor("R8-translate", 15)


def follow(P, W8, w, st, ns, bodies, var, n_cases, kind):
    g = lambda p, *path: st.mem.get(_lv(p, path))
    if g(N, "tag") != P.enum("astSwitchStmt"):
        return "the statement is not made a switch"
    ex = ("&", ("h", "matched"))
    m = g(ex, "memberExpr", "member")
    if g(N, "switchStmt", "cond") not in (None, ex) or g(ex, "tag") != P.enum("astMemberExpr") or g(ex, "memberExpr", "target") != ("clone", ex) or \
            not (isinstance(m, tuple) and m[0] == "mk" and p28.arg(W8, m, "value") == 0):
        return "the switch is not on the tag of the matched union"
    for i, c in enumerate(ns):
        mt, b = g(c, "caseStmt", "match"), g(c, "caseStmt", "body")
        default = i == n_cases - 1 and n_cases == 3
        if default:
            if mt != 0:
                return "the default has a label"
        elif not (isinstance(mt, tuple) and mt[0] == "mk" and p28.arg(W8, mt, "value") == 5 - i):
            return "case %d compares the tag with %s" % (5 - i, mt)
        old = bodies[i]
        if old == 0:
            if b != 0:
                return "a case that shares the next one's body gets its own"
            continue
        first = g(b, "blockStmt", "stmts") if b == old and kind != "stmt" else p28.arg(W8, b, "stmts") if isinstance(b, tuple) and b[0] == "mk" else None
        if not default and var:
            v = ("&", ("h", "var%d" % i))
            init = g(v, "varDecl", "init")
            if not (isinstance(init, tuple) and init[:2] == ("mk", "makeCastExpr")):
                return "the variable of case %d is %s" % (5 - i, init)
            if st.mem.get(("fld", ("fld", ("*", init), "castExpr"), "idx")) != 5 - i or not (p28.arg(W8, init, "flags") & P.flag("flgUnionCast")) or p28.arg(W8, init, "expr") not in (("clone", ("clone", ex)), ("clone", ex)):
                return "the variable of case %d reads another member of the union" % (5 - i)
            if first != v:
                return "the variable of case %d is not declared first in its body" % (5 - i)
            first = g(v, "next")
        want = old if kind == "stmt" else ("&", ("h", "stmt%d" % i)) if kind != "empty" else 0
        if kind == "stmt" and b == old:
            continue
        if first != want:
            return "the body of case %d starts with %s" % (5 - i, first)
    return None


def _lv(p, path):
    l = p[1] if p[0] == "&" else ("*", p)
    for f in path:
        l = ("fld", l, f)
    return l


def shared(ctx, w):
    """`case a, b =>`: only a case that is followed by a comma has no body of its own"""
    P = w.P
    for name in ("caseStatement", "matchCaseStatement"):
        fn = P.need(name)
        comma = P.enum("tokComma")

        def parse(eng, st, fr, args, node):
            st.nid += 1
            return [(st, ("&", ("h", "parsed%d" % st.nid)))]

        def match(eng, st, fr, args, node):
            o = args[1][1]
            o = o[1] if o[0] == "idx" else o
            toks = [st.mem.get(("idx", o, i)) for i in range(args[2])] if isinstance(args[2], int) else []
            r = []
            for v in (0, 1):
                s = st.copy()
                s.nid += 1
                if not v:
                    eng.record(s, Ev("tok", "no", tuple(toks), fr.fn.loc(node[1]), None, fr.fn.name, node))
                    r.append((s, 0))
                else:
                    eng.record(s, Ev("tok", "yes", tuple(toks), fr.fn.loc(node[1]), None, fr.fn.name, node))
                    r.append((s, ("&", ("h", "token%d" % s.nid))))
            return r

        def new(eng, st, fr, args, node):
            eng.record(st, Ev("new", "node", (eng.read(st, ("fld", args[2][1], "tag")), eng.read(st, ("fld", ("fld", args[2][1], "caseStmt"), "body"))), fr.fn.loc(node[1]), None, fr.fn.name, node))
            st.nid += 1
            return [(st, ("&", ("h", "made%d" % st.nid)))]
        ms = dict(expression=parse, statement=parse, parseType=parse, parseIdentifier=parse, parserMatch=match, newAstNode=new,
                  parserCheck=lambda e, s, f, a, n: p28.fork(s, ("check", n[0])), current=lambda e, s, f, a, n: [(s, ("&", ("h", "cur")))],
                  previous=lambda e, s, f, a, n: [(s, ("&", ("h", "prev")))], parserConsume=lambda e, s, f, a, n: [(s, ("&", ("h", "tok")))])

        class Pol(Policy):
            max_states, loop_bound = 4000, 2
            record_calls = frozenset({"parserError"})
        Pol.only = frozenset({f.name for f in P.all_fns() if f.file == fn.file} - set(ms) - {"parserError", "parserFail", "advance"})
        Pol.models = ms
        e = Engine(P, Pol())
        seen, why = set(), None
        for p in e.run(fn):
            nodes = [x for x in p.events if x.kind == "new" and x.args[0] == P.enum("astCaseStmt")]
            if len(nodes) != 1:
                continue
            cm = [x.name == "yes" for x in p.events if x.kind == "tok" and comma in x.args]
            if len(cm) != 1:
                why = "the comma after a case is looked for %d times" % len(cm)
                continue
            seen.add(cm[0])
            if cm[0] != (nodes[0].args[1] == 0):
                why = "a case that is followed by a comma gets a body" if cm[0] else "a case with an empty body is parsed as one that shares the next one's"
        ctx.check(why is None and len(seen) == 2, "R9-shared", name, fn.loc(), why or "cases are only parsed %s" % seen)
        ctx.engine(e)
    ctx.floor("R9-shared", 2)


def run(ctx):
    import prog
    P = prog.full()
    ctx.rule("R1-order", "the comparison of case labels is negative, zero or positive exactly as the values of the first are all below, shared with, or all above those of the second")
    ctx.rule("R2-duplicates", "every two neighbours of the sorted labels that share a value are reported, and the switch is then in error")
    ctx.rule("R3-labels", "a case of a switch is accepted exactly if its label is a literal, or a non-empty range of literals, of the pattern's kind that can match a value of its type")
    ctx.rule("R4-pattern", "a switch is accepted on exactly the types that the generated C can switch on")
    ctx.rule("R5-cases", "all cases of a switch are checked and kept, all their labels are sorted and compared, the default is found, and a second one is rejected")
    ctx.rule("R6-match-case", "a case of a match is accepted exactly if its type is a member of the union, stands for that member, and its variable has the member's type")
    ctx.rule("R7-match", "a match is accepted exactly if it is on a union, no member has two cases, and there is at most one default")
    ctx.rule("R8-translate", "a match becomes a switch on the union's tag whose labels are the cases' members, whose variables read that member, and whose bodies are kept")
    ctx.rule("R9-shared", "only a case that a comma follows shares the next case's body")
    w = World(P)
    comparator(ctx, w)
    duplicates(ctx, w)
    case_labels(ctx, w)
    switches(ctx, w)
    matches(ctx, w)
    translation(ctx, w)
    shared(ctx, w)
