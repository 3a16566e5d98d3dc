"""P03: every construct accepts exactly the operand types it is defined for, and has the type the language gives it."""
from absint import Engine, Limit, Policy
from build import AnalysisBroken
from heap import name_of
from p04 import *

LEVEL = "other"
FILES = ("frontend/types.c", "frontend/types.h", "frontend/ttable.h", "frontend/ttable.c", "lang/frontend/flag.h", "frontend/ast.h", "lang/frontend/visitor.h", "core/utils.h",
         "sema/check.h")
INLINE = {"promoteType", "stripPointer", "stripReference", "stripAll", "stripPointerOrReference", "stripPointerOnce", "findStructMember", "findStructMemberType",
          "findMemberInType", "findOverloadMemberUpInheritanceChain", "clearAstBody", "nodeIsLeftValue", "isLiteralExpr", "integerLiteralValue", "replaceAstNode",
          "replaceAstNodeWith", "isTypeExpr", "findNamedTypeMemberInContainer", "findClassMember", "resolvePath", "insertAstNode", "insertAstNodeList", "countAstNodes", "getLastAstNode", "getNodeAtIndex",
          "matchOverloadedFunction", "matchOverloadedFunctionPerfectMatch", "isMemberFunction", "isExplicitConstructableFrom", "reAssignCalleeType",
          "evalExplicitConstruction", "resolveAndUnThisType"}


MAKES = set()


class Gate:
    """one analysed check function with operands of given types"""

    def __init__(self, P, fname, file):
        self.P, self.fn = P, P.need(fname, file)
        self.file = str(self.fn.file)

    def outcome(self, build):
        """build(w) -> the node; (accepted, type descriptor) or (None, why)"""
        w = World(self.P)
        w.types = {}
        ctx = w.obj("ctx", L=w.obj("log"), pool=w.obj("pool"), types=w.obj("ttable"), strings=w.obj("strings"), evaluator=w.obj("evaluator"),
                    returnState=0, explicitCatch=0, shallow=0, traceMemory=0, exceptionTrace=0, currentCall=0, currentStruct=0, currentClass=0, currentFunction=0,
                    catcher__result=0, catcher__ex=0, catcher__variable=0, catcher__block=0, catcher__expr=0)
        vis = w.obj("visitor", context=ctx)
        node = build(w)
        e = engine3(self.P, w, self.file)
        e.noret = []
        try:
            for n, v in getattr(w, "globals", {}).items():
                w.mem[e.glv(n, False, type("Fr", (), dict(fn=self.fn)))] = v
            paths = e.run(self.fn, lambda en, st: w.install(en, st), [vis, node])
        except (RecursionError, Limit) as x:
            return None, "the check does not end on these operands, or reads what their types do not have (%s)" % x, e
        if e.noret:
            return None, "the check stops the compiler in %s at %s" % (e.noret[0][1], e.noret[0][2]), e
        rs = set()
        for p in paths:
            t = p.st.mem.get(("fld", node[1], "type"), 0)
            d = w.desc.get(t) if t else None
            errs = len(p.calls("logError"))
            if t == 0:
                rs.add((None, "has no type and%s diagnostic" % ("" if errs else " no")))
            elif d is None:
                rs.add((None, "has the type %s" % name_of(t)))
            elif d == ERR:
                rs.add((False, None) if errs else ("silent", None))
            elif errs:
                rs.add((None, "is reported as an error but goes on with the type '%s'" % text(d)))
            else:
                rs.add((True, d))
        if len(rs) != 1:
            return None, "depends on something that the operands do not decide: %s" % sorted(map(str, rs))[:3], e
        r = rs.pop()
        return r[0], r[1], e


def engine3(P, w, file):
    only = {f.name for fs in P.fns.values() for f in fs if any(str(f.file).endswith(x) for x in FILES) or str(f.file) == file} | INLINE
    only -= {"checkType"} | {n for n in only if n.startswith("make") and n not in MAKES}

    def get(make):
        def m(eng, st, fr, args, node):
            r = make(eng, st, args)
            return None if r is None else [(st, r)]
        return m

    def prim(eng, st, args):
        for n, p in list(w.prims.items()):
            if args[1] == w.mem[("fld", ("fld", p[1], "primitive"), "id")]:
                return p
        return None

    def fresh(d, st):
        n = len(w.mem)
        p = w.get(d)
        if len(w.mem) != n:
            st.mem.update(w.mem_since(n))
        return p

    def check_type(eng, st, fr, args, node):
        if args[1] == 0:
            return [(st, 0)]
        if args[1] not in w.types:
            return None
        t = w.types[args[1]]
        st = st.copy()
        st.mem[("fld", args[1][1], "type")] = t
        return [(st, t)]

    def maker(f):
        def m(eng, st, fr, args, node):
            d = f(w, args)
            if d is None:
                return None
            st = st.copy()
            return [(st, fresh(d, st))]
        return m

    def tuple_type(eng, st, fr, args, node):
        ds = []
        if not isinstance(args[2], int):
            return None
        for i in range(args[2]):
            base = ("*", args[1]) if args[1][0] != "&" else args[1][1]
            v = st.mem.get(base if i == 0 and args[1][0] != "&" else ("idx", base, i))
            if v not in w.desc:
                return None
            ds.append(w.desc[v])
        st = st.copy()
        return [(st, fresh(("tup", tuple(ds)), st))]

    def wrapped(w, a):
        d = w.desc.get(a[1])
        return None if d is None else d if not isinstance(a[2], int) or not a[2] & w.flag("Const") else const(d)

    def pointer(k):
        return lambda w, a: None if a[1] not in w.desc else const((k, w.desc[a[1]])) if isinstance(a[2], int) and a[2] & w.flag("Const") else (k, w.desc[a[1]])

    def clone(eng, st, fr, args, node):
        if not (isinstance(args[1], tuple) and args[1][0] == "&"):
            return None
        st = st.copy()
        w.copies = getattr(w, "copies", 0) + 1
        o = ("h", "copy %d" % w.copies)
        for k, v in list(st.mem.items()):
            if k[0] == "fld" and k[1] == args[1][1]:
                st.mem[("fld", o, k[2])] = v
        st.mem[("fld", o, "next")] = 0
        if args[1] in w.types:
            st.mem[("fld", o, "type")] = w.types[args[1]]
        return [(st, ("&", o))]

    models = {"deepCloneAstNode": clone, "checkType": check_type, "getPrimitiveType": get(prim), "makeErrorType": maker(lambda w, a: ERR), "makeVoidType": maker(lambda w, a: VOID),
              "makeAutoType": maker(lambda w, a: AUTO), "makeStringType": maker(lambda w, a: STR), "makeNullType": maker(lambda w, a: NULLT),
              "makeWrappedType": maker(wrapped), "makePointerType": maker(pointer("ptr")), "makeReferenceType": maker(pointer("ref")),
              "makeVoidPointerType": maker(lambda w, a: ptr(VOID)),
              "makeTupleType": tuple_type, "hasReferenceMembers": lambda eng, st, fr, args, node: [(st, 0)],
              "implementTupleTypeCopyAndDestructor": lambda eng, st, fr, args, node: [(st, 0)], "checkCallExceptionBubbleUp": lambda eng, st, fr, args, node: [(st, 0)],
              "makeArrayType": maker(lambda w, a: None if a[1] not in w.desc else ("arr", w.desc[a[1]], None if a[2] == (1 << 64) - 1 else a[2]))}
    none = ("findOverloadMemberUpInheritanceChain", "findStructMemberType", "findStructMember", "findMemberInType", "transformToTruthyOperator",
            "transformToDerefOperator", "transformToAwaitOperator", "findNamedTypeMemberInContainer")
    for n in none:
        models[n] = lambda eng, st, fr, args, node: [(st, 0)]
    models["exceptionVerifyRaiseExpr"] = lambda eng, st, fr, args, node: [(st, 1)]
    models["transformToUnionValue"] = lambda eng, st, fr, args, node: [(st, args[1])]
    models["findBuiltinDecl"] = lambda eng, st, fr, args, node: [(st, ("&", ("h", "a builtin declaration")))]
    only -= set(models)
    pol = type("Pol", (Policy,), dict(only=only, models=models, max_states=400, loop_bound=40))()
    return Engine(P, pol)


def expr(w, name, d, tag="Path", flags=0, **f):
    n = w.obj(name, tag=w.const("ast" + tag), flags=flags, next=0, parentScope=0, type=0, **f)
    w.types[n] = w.get(d)
    return n


def binary(P, op, l, r, rtag="Path"):
    def build(w):
        for p in PRIMS:
            w.get(p)
        lhs, rhs = expr(w, "lhs", l), expr(w, "rhs", r, rtag)
        return w.obj("node", tag=w.const("astBinaryExpr"), flags=0, type=0, next=0, parentScope=0, binaryExpr__op=w.const("op" + op), binaryExpr__lhs=lhs,
                     binaryExpr__rhs=rhs)
    return build


# what the language says about each construct: "reject", a type, ANY (accepted, type not specified), or None (nothing specified)
REJECT, SILENT, ANY = "reject", "silent", "any"
CCHAR = ("prim", "CChar")
UNIV = [("prim", n) for n in ("I8", "I32", "I64", "U8", "U32", "U64", "F32", "F64", "Bool", "Char", "CChar")] + \
    [STR, VOID, S1, C1, E1, E2, TUP, UN, FN, ptr(I32), ptr(I64), ptr(S1), ptr(VOID), ("arr", I32, 3), const(I32), const(BOOL), ("ref", S1), ("ref", I32), ERR]
ARITH, BITS, LOGIC, CMP, EQ = ("Add", "Sub", "Mul", "Div", "Mod"), ("BAnd", "BOr", "BXor", "Shl", "Shr"), ("LAnd", "LOr"), ("Lt", "Gt", "Leq", "Geq"), ("Eq", "Ne")
PLAIN = ("prim", "str", "void", "struct", "class", "enum", "tup", "union", "fn", "ptr", "arr")


def numeric(d, enum=True):
    d = unwrap(d)[0]
    return d[0] == "prim" and d[1] != "Bool" or enum and d[0] == "enum"


def integer(d):
    d = unwrap(d)[0]
    return d[0] == "prim" and d[1] in INTS


def integral(d):
    d = unwrap(d)[0]
    return d[0] == "enum" or d[0] == "prim" and d[1] not in FLOATS


def floating(d):
    d = unwrap(d)[0]
    return d[0] == "prim" and d[1] in FLOATS


def want_binary(op, l, r, null=False):
    (a, _), (b, _) = unwrap(l), unwrap(r)
    if l == ERR or r == ERR:
        return None if l != ERR and (op in CMP + EQ and a == STR or a[0] in ("struct", "class", "ptr", "ref")) else SILENT
    if null:
        if op not in EQ:
            return None if a[0] in ("ptr", "ref", "str", "fn") else REJECT
        if a[0] in ("prim", "enum"):
            return REJECT
        return BOOL if a[0] in ("ptr", "str", "fn", "class") else None
    if "ref" in (a[0], b[0]):
        return None
    if op in CMP + EQ and a == STR or a[0] == "class":
        return None if a == STR else REJECT if op not in EQ else None
    if a[0] == "struct":
        return REJECT
    if a[0] == "ptr" and unwrap(a[1])[0][0] in ("struct", "class"):
        return None
    c = promoted(l, r)
    if op == "Range":
        return I64 if integral(l) and integral(r) and c not in (False, None) else REJECT if not (integral(l) and integral(r)) else None
    if c is None:
        return None
    if c is False:
        return REJECT
    c = unwrap(c)[0]
    if op in ARITH:
        if c[0] == "ptr":
            return (c if integer(b) else None if integral(b) else REJECT) if op in ("Add", "Sub") else REJECT
        if c[0] == "enum":
            return None
        if op == "Mod" and floating(c):
            return REJECT
        return c if numeric(c) else REJECT
    if op in BITS:
        if c[0] == "enum" or c == BOOL or c[0] == "prim" and c[1] in CHARS:
            return None
        return c if integer(c) else REJECT
    if op in LOGIC:
        return BOOL if c == BOOL else REJECT
    if op in CMP:
        return BOOL if numeric(c) else REJECT
    if op in EQ:
        if c[0] in ("struct", "tup", "union", "void", "arr"):
            return REJECT
        return BOOL
    return None


def want_unary(op, prefix, d, isconst):
    if d == ERR:
        return SILENT
    u, c = unwrap(d)
    if u[0] == "ref" and op not in ("Deref",):
        return None
    if op in ("PreInc", "PreDec", "PostInc", "PostDec"):
        if not numeric(u):
            return REJECT
        if isconst:
            return REJECT
        return None if c or u[0] == "enum" else u
    if op in ("Minus", "Plus"):
        return None if u[0] == "enum" else d if numeric(u) else REJECT
    if op == "Compl":
        return d if integer(u) else REJECT
    if op == "Not":
        return BOOL if u == BOOL else REJECT
    if op == "Deref":
        if u[0] == "ptr":
            return u[1]
        if u == STR:
            return CCHAR
        if u[0] == "arr":
            return u[1]
        return None if u[0] == "ref" else REJECT
    return None


COMPOUND_NUM, COMPOUND_INT = ("Add", "Sub", "Mul", "Div"), ("Mod", "BAnd", "BOr", "BXor", "Shl", "Shr")


def want_assign(op, l, r, isconst):
    if ERR in (l, r):
        return SILENT
    (a, ac), (b, _) = unwrap(l), unwrap(r)
    if isconst or ac:
        return REJECT
    if b[0] == "arr":
        return REJECT if b[2] is not None else None
    if "ref" in (a[0], b[0]):
        return None
    ok = assignable(l, r)
    if ok is None:
        return None
    if not ok:
        return None if a[0] in ("ptr",) and b == NULLT else REJECT
    if op == "Assign":
        return l
    if a[0] == "enum" or a[0] == "prim" and a[1] in CHARS or a == BOOL and op in COMPOUND_INT:
        return None
    if op in COMPOUND_NUM:
        return l if numeric(a) and numeric(b) else REJECT
    return l if integer(a) and integral(b) else REJECT


def want_index_assign(op, t, i, x):
    u, const_ = unwrap(t)
    if ERR in (t, i, x):
        return SILENT if t == ERR or u[0] in ("ptr", "arr") and (i == ERR or integer(i)) else None
    if u[0] in ("struct", "class", "ref"):
        return None
    if u[0] not in ("ptr", "arr"):
        return REJECT
    if not integer(i):
        return REJECT
    if u[0] == "ptr" and unwrap(u[1])[0][0] in ("struct", "class"):
        return None
    return want_assign(op, u[1], x, const_)


def want_truthy(d):
    if d == ERR:
        return SILENT
    u = unwrap(d)[0]
    if u[0] in ("prim", "ptr", "str", "enum"):
        return ANY
    if u[0] in ("void", "tup", "fn", "arr", "struct", "class"):
        return REJECT
    return None


def want_index(t, i):
    if ERR in (t, i):
        return SILENT
    (a, _), (b, _) = unwrap(t), unwrap(i)
    if b[0] == "ref":
        return None
    if a[0] == "arr" or a[0] == "ptr" and unwrap(a[1])[0][0] not in ("struct", "class", "arr"):
        return a[1] if integer(i) else REJECT
    if a == STR:
        return CCHAR if integer(i) else REJECT
    if a[0] in ("prim", "void", "tup", "fn", "enum", "union", "struct", "class"):
        return REJECT
    return None


def want_var(t, i, isconst, null=False):
    """a declared type (or None) and an initializer type (or None)"""
    if ERR in (t, i):
        return None if i == VOID else SILENT
    if i == VOID:
        return REJECT
    if t is None:
        r = i
    elif i is None:
        r = t
    else:
        if null and unwrap(t)[0][0] in ("tup", "union"):
            return None
        ok = assignable(t, i)
        if ok is None or unwrap(t)[0][0] == "union" and unwrap(t)[0] != unwrap(i)[0]:
            return REJECT if ok is False else None
        if not ok:
            return REJECT
        r = t
    return const(r) if isconst and not unwrap(r)[1] else r


def want_branches(a, b):
    if ERR in (a, b):
        return SILENT
    if "void" in (a[0], b[0]):
        return ANY
    ok = assignable(a, b)
    return None if ok is None else a if ok else REJECT


def want_return(ret, d):
    if d == ERR:
        return SILENT
    if ret is None:
        return d if d is not None else VOID
    ok = assignable(ret, d if d is not None else VOID)
    if ok is None or unwrap(ret)[0][0] == "union":
        return None if ok is not False else REJECT
    return bare(ret) if ok else REJECT


def want_range(s, e, st):
    if s == ERR:
        return SILENT
    if ERR in (e, st):
        return None
    if not numeric(s):
        return REJECT
    ok = assignable(s, e)
    if ok is False or st is not None and not numeric(st):
        return REJECT
    return s if ok else None


def want_elems(ds):
    if ERR in ds:
        return None
    if not ds:
        return ("arr", AUTO, 0)
    oks = [assignable(ds[0], d) for d in ds[1:]]
    return REJECT if False in oks else None if None in oks else ("arr", ds[0], len(ds))


def nodes(w, fields, **f):
    return w.obj("node", flags=0, type=0, next=0, parentScope=0, **dict(fields, **f))


def prims(w):
    for p in PRIMS:
        w.get(p)


def obligations(P):
    """(rule, file, function, instance, build, want)"""
    def c(n):
        return P.enum("ast" + n)
    A = [d for d in UNIV]
    for op in ARITH + BITS + LOGIC + CMP + EQ + ("Range",):
        for l in A:
            for r in A:
                yield "binary", "sema/binary.c", "checkBinaryExpr", "%s %s %s" % (text(l), op, text(r)), binary(P, op, l, r), want_binary(op, l, r)
            yield ("binary", "sema/binary.c", "checkBinaryExpr", "%s %s null" % (text(l), op), binary(P, op, l, NULL, "NullLit"),
                   want_binary(op, l, NULL, True))
    for op in ("PreInc", "PreDec", "Minus", "Plus", "Compl", "Not", "Deref", "PostInc", "PostDec"):
        for d in A:
            for k in (0, 1):
                def b(w, op=op, d=d, k=k):
                    prims(w)
                    return nodes(w, dict(tag=c("UnaryExpr"), unaryExpr__op=w.const("op" + op), unaryExpr__isPrefix=int(not op.startswith("Post")),
                                         unaryExpr__operand=expr(w, "operand", d, flags=w.flag("Const") if k else 0)))
                yield "unary", "sema/unary.c", "checkUnaryExpr", "%s %s%s" % (op, "constant " if k else "", text(d)), b, want_unary(op, 1, d, k)
    for op in ("Assign",) + COMPOUND_NUM + COMPOUND_INT:
        for l in A:
            for r in A:
                for k in (0, 1):
                    if k and (r != l or op not in ("Assign", "Add")):
                        continue

                    def b(w, op=op, l=l, r=r, k=k):
                        prims(w)
                        return nodes(w, dict(tag=c("AssignExpr"), assignExpr__op=w.const("op" + op),
                                             assignExpr__lhs=expr(w, "lhs", l, flags=w.flag("Const") if k else 0), assignExpr__rhs=expr(w, "rhs", r)))
                    yield ("assign", "sema/assign.c", "checkAssignExpr", "%s%s %s= %s" % ("constant " if k else "", text(l), op if op != "Assign" else "", text(r)), b,
                           want_assign(op, l, r, k))
    for t in [None] + A:
        for i in [None, NULL] + A:
            for k in (0, 1):
                if t is None and i in (None, NULL) or k and t not in (None, i):
                    continue

                def b(w, t=t, i=i, k=k):
                    prims(w)
                    name = w.obj("name", tag=c("Identifier"), flags=0, next=0)
                    return nodes(w, dict(tag=c("VarDecl"), varDecl__names=name, varDecl__type=expr(w, "typ", t, "TypeRef") if t else 0,
                                         varDecl__init=expr(w, "init", i, "NullLit" if i == NULL else "Path") if i else 0)) if not k else \
                        constnode(w, nodes(w, dict(tag=c("VarDecl"), varDecl__names=name, varDecl__type=expr(w, "typ", t, "TypeRef") if t else 0,
                                                   varDecl__init=expr(w, "init", i, "NullLit" if i == NULL else "Path") if i else 0)))
                yield ("variable", "sema/variables.c", "checkVarDecl", "%s: %s = %s" % ("const" if k else "var", text(t) if t else "auto", text(i) if i else "(none)"), b,
                       want_var(t, i, k, i == NULL))
                if not k and i:
                    def b(w, t=t, i=i):
                        prims(w)
                        return nodes(w, dict(tag=c("FieldDecl"), structField__type=expr(w, "typ", t, "TypeRef") if t else 0,
                                             structField__value=expr(w, "init", i, "NullLit" if i == NULL else "Path")))
                    want = want_var(t, i, 0, i == NULL)
                    yield ("field", "sema/check.c", "checkField", "field: %s = %s" % (text(t) if t else "auto", text(i)), b,
                           None if i in (NULL, VOID) or t and unwrap(t)[0][0] == "union" else want)
    for d in A:
        for kind, fn, file in (("ifStmt", "checkIfStmt", "sema/if.c"), ("whileStmt", "checkWhileStmt", "sema/check.c"), ("ternaryExpr", "checkTernaryExpr", "sema/check.c")):
            def b(w, kind=kind, d=d):
                prims(w)
                f = {kind + "__cond": expr(w, "cond", d), kind + "__body": expr(w, "body", I32)}
                if kind != "whileStmt":
                    f[kind + "__otherwise"] = expr(w, "other", I32)
                else:
                    f[kind + "__update"] = 0
                return nodes(w, dict(f, tag=c(kind[0].upper() + kind[1:])))
            yield "condition", file, fn, "%s (%s)" % (kind, text(d)), b, want_truthy(d)
        for x in A:
            for kind, fn, file in (("ifStmt", "checkIfStmt", "sema/if.c"), ("ternaryExpr", "checkTernaryExpr", "sema/check.c")):
                def b(w, kind=kind, d=d, x=x):
                    prims(w)
                    return nodes(w, {"tag": c(kind[0].upper() + kind[1:]), kind + "__cond": expr(w, "cond", BOOL), kind + "__body": expr(w, "body", d),
                                     kind + "__otherwise": expr(w, "other", x)})
                want = want_branches(d, x)
                yield "branches", file, fn, "%s of %s and %s" % (kind, text(d), text(x)), b, None if kind == "ternaryExpr" and want == ANY else want

            def b(w, d=d, x=x):
                prims(w)
                return nodes(w, dict(tag=c("IndexExpr"), indexExpr__target=expr(w, "target", d), indexExpr__index=expr(w, "index", x)))
            yield "index", "sema/index.c", "checkIndexExpr", "%s .[%s]" % (text(d), text(x)), b, want_index(d, x)

            def b(w, d=d, x=x):
                prims(w)
                return nodes(w, dict(tag=c("CastExpr"), castExpr__to=expr(w, "to", d, "TypeRef"), castExpr__expr=expr(w, "expr", x)))
            k = castable(d, x) if ERR not in (d, x) else None
            yield ("cast", "sema/cast.c", "checkCastExpr", "<%s>%s" % (text(d), text(x)), b,
                   SILENT if ERR in (d, x) else None if k is None or unwrap(x)[0][0] == "union" else d if k else REJECT)

            def b(w, d=d, x=x):
                prims(w)
                func = w.obj("func", tag=c("FuncDecl"), flags=0, funcDecl__signature=w.obj("signature", ret=expr(w, "ret", d, "TypeRef")))
                w.set(("&", ("h", "ret")), type=w.get(d))
                return nodes(w, dict(tag=c("ReturnStmt"), returnStmt__isRaise=0, returnStmt__func=func, returnStmt__expr=expr(w, "expr", x)))
            yield "return", "sema/check.c", "checkReturnStmt", "return %s from a function of %s" % (text(x), text(d)), b, None if d == ERR else want_return(d, x)

            for st in (None, I32, STR):
                def b(w, d=d, x=x, st=st):
                    prims(w)
                    return nodes(w, dict(tag=c("RangeExpr"), rangeExpr__start=expr(w, "start", d), rangeExpr__end=expr(w, "end", x),
                                         rangeExpr__step=expr(w, "step", st) if st else 0))
                yield "range", "sema/for.c", "checkRangeExpr", "range(%s, %s, %s)" % (text(d), text(x), text(st) if st else "none"), b, want_range(d, x, st)

            for n in (0, 1):
                def b(w, d=d, x=x, n=n):
                    prims(w)
                    es = [d, d, x] if n else [d, x]
                    el = [expr(w, "e%d" % i, t) for i, t in enumerate(es)]
                    for p, q in zip(el, el[1:]):
                        w.set(p, next=q)
                    return nodes(w, dict(tag=c("ArrayExpr"), arrayExpr__elements=el[0], arrayExpr__isLiteral=0))
                es = [d, d, x] if n else [d, x]
                yield "elements", "sema/array.c", "checkArrayExpr", "[%s]" % ", ".join(map(text, es)), b, want_elems(es)


    for d in A:
        def b(w, d=d):
            prims(w)
            return nodes(w, dict(tag=c("SwitchStmt"), switchStmt__cond=expr(w, "cond", d), switchStmt__cases=0, switchStmt__defaultCase=0, matchStmt__cases=0))
        u = unwrap(d)[0]
        yield ("switch", "sema/switch.c", "checkSwitchStmt", "switch (%s)" % text(d), b,
               None if d == ERR or integral(d) or u == STR or u[0] == "ref" else REJECT)
        for n in (1, 2, 3):
            for rng in (0, 1):
                if rng and not integer(d):
                    continue

                def b(w, d=d, n=n, rng=rng):
                    prims(w)
                    vs = [w.obj("v%d" % i, tag=c("VarDecl"), flags=0, next=0, type=0) for i in range(n)]
                    for x, y in zip(vs, vs[1:]):
                        w.set(x, next=y)
                    return nodes(w, dict(tag=c("ForStmt"), forStmt__var=vs[0], forStmt__range=expr(w, "range", d, "RangeExpr" if rng else "Path"),
                                         forStmt__body=expr(w, "body", VOID)))
                want = SILENT if d == ERR else (VOID if n == 1 else REJECT) if rng else \
                    (VOID if n < 3 else REJECT) if u[0] == "arr" or u == STR else None if u[0] in ("struct", "class", "ref", "ptr") else REJECT
                yield "for", "sema/for.c", "checkForStmt", "for %d variables in %s%s" % (n, "a range of " if rng else "", text(d)), b, want
        for tag, fn, k in (("PointerOf", "checkPointerOfExpr", "ptr"), ("ReferenceOf", "checkReferenceOfExpr", "ref")):
            for f in (0, 1):
                def b(w, d=d, tag=tag, f=f):
                    prims(w)
                    return nodes(w, dict(tag=c(tag), unaryExpr__operand=expr(w, "operand", d, flags=w.flag("Const") if f else 0)))
                want = SILENT if d == ERR else None if k == "ref" and u[0] not in ("struct", "class", "tup", "union") else const((k, d)) if f else (k, d)
                yield "address", "sema/unary.c", fn, "%s %s%s" % (tag, "constant " if f else "", text(d)), b, want
        for x in A:
            def b(w, d=d, x=x):
                prims(w)
                es = [expr(w, "e0", d), expr(w, "e1", x)]
                w.set(es[0], next=es[1])
                return nodes(w, dict(tag=c("TupleExpr"), tupleExpr__elements=es[0], tupleExpr__len=0))
            yield "tuple", "sema/tuple.c", "checkTupleExpr", "(%s, %s)" % (text(d), text(x)), b, SILENT if ERR in (d, x) else ("tup", (d, x))
    # assignments through an index
    for t in A + [const(("arr", I32, 3))]:
        for i in (I32, ("prim", "U8"), F64, BOOL, STR, ("prim", "Char"), E1, ptr(I32), ERR):
            for x in (I32, I64, BOOL, STR, S1, F64, ptr(I32), ("arr", I32, 3), ERR):
                for op in ("Assign", "Add"):
                    def b(w, t=t, i=i, x=x, op=op):
                        prims(w)
                        ix = w.obj("lhs", tag=c("IndexExpr"), flags=0, next=0, type=0, parentScope=0, indexExpr__target=expr(w, "target", t),
                                   indexExpr__index=expr(w, "index", i))
                        return nodes(w, dict(tag=c("AssignExpr"), assignExpr__op=w.const("op" + op), assignExpr__lhs=ix, assignExpr__rhs=expr(w, "rhs", x)))
                    yield ("assign", "sema/assign.c", "checkAssignExpr", "%s.[%s] %s= %s" % (text(t), text(i), op if op != "Assign" else "", text(x)), b,
                           want_index_assign(op, t, i, x))
    # arrays initialised by array literals
    for t in (("arr", I32, 3), ("arr", I64, 3), ("arr", I32, None), ("arr", STR, 2)):
        for x in (("arr", I32, 3), ("arr", I32, 2), ("arr", I32, 4), ("arr", U8, 3), ("arr", STR, 2), ("arr", STR, 3), ("arr", F64, 3), ("arr", AUTO, 0)):
            def b(w, t=t, x=x):
                prims(w)
                return nodes(w, dict(tag=c("VarDecl"), varDecl__names=w.obj("name", tag=c("Identifier"), flags=0, next=0),
                                     varDecl__type=expr(w, "typ", t, "TypeRef"), varDecl__init=expr(w, "init", x, "ArrayExpr")))
            ok = x[1] == AUTO or assignable(t[1], x[1]) and t[2] in (None, x[2])
            yield "variable", "sema/variables.c", "checkVarDecl", "var: %s = literal %s" % (text(t), text(x)), b, t if ok else REJECT
    # an error in any part of a construct is an error of the construct, and is not reported again
    E, OK = ERR, BOOL
    for fn, file, tag, parts in (("checkIfStmt", "sema/if.c", "IfStmt", ("ifStmt__cond", "ifStmt__body", "ifStmt__otherwise")),
                                 ("checkWhileStmt", "sema/check.c", "WhileStmt", ("whileStmt__cond", "whileStmt__body", "whileStmt__update")),
                                 ("checkTernaryExpr", "sema/check.c", "TernaryExpr", ("ternaryExpr__cond", "ternaryExpr__body", "ternaryExpr__otherwise")),
                                 ("checkForStmt", "sema/for.c", "ForStmt", ("forStmt__range", "forStmt__body")),
                                 ("checkDeferStmt", "sema/check.c", "DeferStmt", ("deferStmt__stmt",)),
                                 ("checkExprStmt", "sema/check.c", "ExprStmt", ("exprStmt__expr",)),
                                 ("checkStmtExpr", "sema/check.c", "StmtExpr", ("stmtExpr__stmt",)),
                                 ("checkGroupExpr", "sema/check.c", "GroupExpr", ("groupExpr__expr",)),
                                 ("checkBinaryExpr", "sema/binary.c", "BinaryExpr", ("binaryExpr__lhs", "binaryExpr__rhs")),
                                 ("checkAssignExpr", "sema/assign.c", "AssignExpr", ("assignExpr__lhs", "assignExpr__rhs")),
                                 ("checkUnaryExpr", "sema/unary.c", "UnaryExpr", ("unaryExpr__operand",)),
                                 ("checkIndexExpr", "sema/index.c", "IndexExpr", ("indexExpr__target", "indexExpr__index")),
                                 ("checkCastExpr", "sema/cast.c", "CastExpr", ("castExpr__to", "castExpr__expr")),
                                 ("checkTypedExpr", "sema/cast.c", "TypedExpr", ("typedExpr__expr",)),
                                 ("checkReturnStmt", "sema/check.c", "ReturnStmt", ("returnStmt__expr",)),
                                 ("checkArrayType", "sema/array.c", "ArrayType", ("arrayType__elementType", "arrayType__dim"))):
        for bad in parts:
            def b(w, tag=tag, parts=parts, bad=bad):
                prims(w)
                f = {p: expr(w, p, ERR if p == bad else BOOL, "IntegerLit" if p.endswith("dim") else "RangeExpr" if p.startswith("forStmt__r") else "Path") for p in parts}
                if tag == "GroupExpr":
                    f["stmtExpr__stmt"] = f["groupExpr__expr"]
                if tag == "ForStmt":
                    f["forStmt__var"] = w.obj("v", tag=c("VarDecl"), flags=0, next=0, type=0)
                if tag == "BinaryExpr":
                    f["binaryExpr__op"] = w.const("opLAnd")
                if tag == "AssignExpr":
                    f["assignExpr__op"] = w.const("opAssign")
                if tag == "UnaryExpr":
                    f.update(unaryExpr__op=w.const("opNot"), unaryExpr__isPrefix=1)
                if tag == "ReturnStmt":
                    f.update(returnStmt__isRaise=0, returnStmt__func=w.obj("func", tag=c("FuncDecl"), flags=0, funcDecl__signature=w.obj("signature", ret=0)))
                return nodes(w, dict(f, tag=c(tag)))
            yield "parts", file, fn, "%s with an error in %s" % (tag, bad.split("__")[1]), b, SILENT
        if tag in ("ExprStmt", "StmtExpr", "GroupExpr"):
            def b(w, tag=tag, parts=parts):
                prims(w)
                f = {parts[0]: expr(w, "part", I64)}
                f["stmtExpr__stmt"] = f[parts[0]]
                return nodes(w, dict(f, tag=c(tag)))
            yield "parts", file, fn, "%s of i64" % tag, b, I64
    yield from calls(P)


def call(w, c, functions, as_):
    """a call of a set of overloaded functions (parameter types, number with defaults, return type)"""
    prims(w)
    w.globals = {"S_this": w.obj("this")}
    decls = []
    for k, (ps, defaults, ret) in enumerate(functions):
        fd = ("fn", ret, ps)
        w.get(("fn", I32, ()))
        fn = w.get(fd)
        params = [w.obj("p%d.%d" % (k, i), tag=c("FuncParamDecl"), flags=0, next=0, funcParam__name=w.obj("name%d.%d" % (k, i)),
                        funcParam__def=expr(w, "def%d.%d" % (k, i), t) if i >= len(ps) - defaults else 0) for i, t in enumerate(ps)]
        for x, y in zip(params, params[1:]):
            w.set(x, next=y)
        sig = w.obj("signature%d" % k, params=params[0] if params else 0, ret=0)
        decl = w.obj("fdecl%d" % k, tag=c("FuncDecl"), flags=0, list__first=0, list__link=0, type=fn, parentScope=0, funcDecl__signature=sig,
                     funcDecl__this_=0, funcDecl__name=("str", "f"), next=0)
        w.set(fn, func__decl=decl, func__defaultValuesCount=defaults)
        w.desc[fn] = fd
        decls.append((decl, fn))
    if len(decls) > 1:
        for (x, _), (y, _) in zip(decls, decls[1:]):
            w.set(x, list__link=y)
        for x, _ in decls:
            w.set(x, list__first=decls[0][0])
    decl, fn = decls[0]
    el = [expr(w, "a%d" % i, t) for i, t in enumerate(as_)]
    for x, y in zip(el, el[1:]):
        w.set(x, next=y)
    elem = w.obj("element", tag=c("PathElem"), flags=0, next=0, type=fn, pathElement__resolvesTo=decl, pathElement__isKeyword=0, pathElement__name=("str", "f"))
    callee = w.obj("callee", tag=c("Path"), flags=0, next=0, type=0, path__elements=elem)
    w.types[callee] = fn
    return nodes(w, dict(tag=c("CallExpr"), callExpr__callee=callee, callExpr__args=el[0] if el else 0, callExpr__overload=0))


def want_overload(functions, as_):
    """the return type of the function that a call is resolved to"""
    if ERR in as_:
        return SILENT
    best, unknown = [], False
    for ps, defaults, ret in functions:
        if not len(ps) - defaults <= len(as_) <= len(ps):
            continue
        oks = [assignable(p, a) for p, a in zip(ps, as_)]
        if False in oks:
            continue
        if None in oks:
            return None
        best.append((sum(p == a for p, a in zip(ps, as_)) - len(as_), ret))
    if not best:
        return REJECT
    top = max(n for n, _ in best)
    rets = {r for n, r in best if n == top}
    return rets.pop() if len(rets) == 1 else None if top else best[[n for n, _ in best].index(0)][1]


def calls(P):
    """calls of functions with given parameters, number of defaults and arguments"""
    def c(n):
        return P.enum("ast" + n)
    sets = [(), (I32,), (I32, F64), (I32, STR), (STR,), (ptr(I32),), (I32, I32, I32), (S1,), (E1, BOOL)]
    args = [(), (I32,), (U8,), (I64,), (F64,), (STR,), (I32, F64), (I32, I32), (I32, STR), (U8, U8, U8), (I32, I32, I32), (I32, I32, STR), (S1,), (S2,), (E1, BOOL), (E1, I32), (E2, BOOL),
            (I32, ERR), (ERR,), (ptr(I32),), (ptr(I64),), (I64, I32, I32), (I32, I64, I32)]
    for ps in sets:
        for defaults in range(len(ps) + 1):
            for as_ in args:
                def b(w, ps=ps, defaults=defaults, as_=as_):
                    return call(w, c, [(ps, defaults, F64)], as_)
                n = len(as_)
                if ERR in as_:
                    want = SILENT
                elif n > len(ps) or n < len(ps) - defaults:
                    want = REJECT
                else:
                    oks = [assignable(p, a) for p, a in zip(ps, as_)]
                    want = REJECT if False in oks else None if None in oks else F64
                yield ("call", "sema/call.c", "checkCallExpr", "f(%s) with parameters (%s)%s" % (", ".join(map(text, as_)), ", ".join(map(text, ps)),
                                                                                                ", %d with defaults" % defaults if defaults else ""), b, want)
    for i, p in enumerate(sets):
        for q in sets[i + 1:] + [(I64,), (F64,), (U8, F64), (BOOL,)]:
            for d in (0, 1):
                for fs in ([(p, 0, F64), (q, d, STR)], [(q, d, STR), (p, 0, F64)]):
                    if d > len(q) or p == q:
                        continue
                    for as_ in args:
                        yield ("call", "sema/call.c", "checkCallExpr", "f(%s) overloaded with parameters %s" % (
                            ", ".join(map(text, as_)), " and ".join("(%s)%s" % (", ".join(map(text, ps)), " one with a default" if n else "") for ps, n, _ in fs)),
                            lambda w, fs=fs, as_=as_: call(w, c, fs, as_), want_overload(fs, as_))


def constnode(w, p):
    w.set(p, flags=w.flag("Const"))
    return p


def run(ctx):
    import prog
    P = prog.full()
    for k, what in (("binary", "binary operators accept the operand types they are defined for and have the type of the promoted operands (bool for comparisons)"),
                    ("unary", "unary operators accept the operand types they are defined for"),
                    ("assign", "assignments accept values that convert to the type of a variable target, and compound assignments operands of their operator"),
                    ("variable", "a variable's initializer converts to its declared type, and the variable has that type (or that of the initializer)"),
                    ("field", "a field's default value converts to its declared type"),
                    ("condition", "conditions are values that have a truth value"),
                    ("branches", "the second branch of a conditional converts to the type of the first"),
                    ("index", "arrays, pointers and strings are indexed by integers and give their element"),
                    ("cast", "explicit casts follow the cast relation"),
                    ("return", "a returned value converts to the declared return type"),
                    ("range", "ranges have numeric bounds and steps of compatible types"),
                    ("elements", "the elements of an array literal convert to the type of the first"),
                    ("switch", "switch conditions are integral or strings"),
                    ("for", "only ranges, arrays, strings and iterable types are enumerated, with the number of variables they provide"),
                    ("address", "the address of a value is a pointer or reference to its type, constant if the value is"),
                    ("tuple", "a tuple expression has the types of its elements in order"),
                    ("parts", "an error in a part of a construct is an error of the construct and is not reported again"),
                    ("call", "calls pass as many arguments as there are parameters without a default to all parameters, each converting to its parameter, and have the return type")):
        ctx.rule("R-" + k, what)
    N = 24
    ctx.fork([lambda c, i=i: part(P, c, i, N) for i in range(N)])
    for k, n in (("binary", 5000), ("unary", 200), ("assign", 3000), ("variable", 400), ("condition", 40), ("branches", 500), ("index", 300), ("cast", 400), ("return", 300),
                 ("range", 800), ("elements", 500), ("field", 300), ("switch", 10), ("for", 40), ("address", 60), ("tuple", 500), ("parts", 25), ("call", 200)):
        ctx.floor("R-" + k, n)


def judge(want, ok, t):
    """None, or what is wrong"""
    if ok is None:
        return t
    if want == REJECT:
        return None if ok is False else "is accepted with the type '%s'" % text(t)
    if want == SILENT:
        return None if ok == "silent" else "follows an error that was reported already, but %s" % ("reports another one" if ok is False else "is accepted")
    if ok is not True:
        return "is rejected"
    if want != ANY and unwrap(want) != unwrap(t):
        return "has the type '%s', not '%s'" % (text(t), text(want))
    return None


def part(P, ctx, i, n):
    gates, stats = {}, {}
    for k, (rule, file, fn, inst, build, want) in enumerate(obligations(P)):
        if want is None or hash_(inst) % n != i:
            continue
        g = gates.get(fn)
        if g is None:
            g = gates[fn] = Gate(P, fn, file)
        ok, t, e = g.outcome(build)
        why = judge(want, ok, t)
        ctx.check(why is None, "R-" + rule, inst, g.fn.loc(), "%s %s" % (inst, why))
        ctx.engine(e)


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())
