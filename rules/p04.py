"""P04: values convert implicitly and explicitly only where the language allows."""
from absint import Engine, Limit, Policy
from build import AnalysisBroken
from heap import Types, name_of

LEVEL = "other"
SIGNED = {"I8": 1, "I16": 2, "I32": 4, "I64": 8}
UNSIGNED = {"U8": 1, "U16": 2, "U32": 4, "U64": 8}
INTS = dict(SIGNED, **UNSIGNED)
FLOATS = {"F32": 4, "F64": 8}
CHARS = {"Char": 4, "CChar": 1}
SIZES = dict(INTS, Bool=1, **FLOATS, **CHARS)
PRIMS = [("prim", n) for n in SIZES]
VOID, NULLT, NULL, STR, AUTO, ERR = ("void",), ("nullt",), ("null",), ("str",), ("auto",), ("err",)


def ptr(d):
    return ("ptr", d)


def const(d):
    return ("const", d)


I32, I64, U8, U32, F64, BOOL, CHAR = (("prim", n) for n in ("I32", "I64", "U8", "U32", "F64", "Bool", "Char"))
S1, S2, C1, C2, C3, E1, E2 = ("struct", "S1"), ("struct", "S2"), ("class", "C1", None), ("class", "C2", ("class", "C1", None)), \
    ("class", "C3", None), ("enum", "E1", "I32"), ("enum", "E2", "I32")
E8 = ("enum", "E8", "U8")
TUP = ("tup", (I32, F64))
UN = ("union", (I32, STR))
FN = ("fn", I32, (I32, F64))


class World(Types):
    def __init__(self, P):
        super().__init__(P)
        self.made = {}

    def get(self, d):
        p = self.made.get(d)
        if p is None:
            p = self.made[d] = self.make(d)
            self.desc[p] = d
        return p

    def make(self, d):
        k, n = d[0], "t%d:%s" % (len(self.made), text(d))
        if k == "prim":
            return self.prim(d[1], SIZES[d[1]])
        if k == "void":
            return self.new(n, "Void")
        if k == "nullt":
            return self.new(n, "Null")
        if k == "str":
            return self.new(n, "String")
        if k == "auto":
            return self.new(n, "Auto")
        if k == "err":
            return self.new(n, "Error")
        if k == "null":
            return self.new(n, "Pointer", pointer__pointed=self.get(NULLT))
        if k == "ptr":
            return self.new(n, "Pointer", pointer__pointed=self.get(d[1]))
        if k == "ref":
            return self.new(n, "Reference", reference__referred=self.get(d[1]))
        if k == "const":
            return self.new(n, "Wrapped", flags=self.flag("Const"), wrapped__target=self.get(d[1]))
        if k == "alias":
            return self.new(n, "Alias", alias__aliased=self.get(d[1]), alias__decl=0)
        if k == "arr":
            return self.new(n, "Array", array__elementType=self.get(d[1]), array__len=(1 << 64) - 1 if d[2] is None else d[2])
        if k == "tup":
            return self.new(n, "Tuple", tuple__count=len(d[1]), tuple__members=self.array("m" + n, [self.get(x) for x in d[1]]),
                            tuple__copyFunc=0, tuple__destructorFunc=0)
        if k == "union":
            o = ("h", "m" + n)
            for i, x in enumerate(d[1]):
                self.mem[("fld", ("idx", o, i), "type")] = self.get(x)
            return self.new(n, "Union", tUnion__count=len(d[1]), tUnion__members=("&", ("idx", o, 0)))
        if k == "fn":
            return self.new(n, "Func", func__paramsCount=len(d[2]), func__retType=self.get(d[1]), func__decl=0,
                            func__params=self.array("m" + n, [self.get(x) for x in d[2]]))
        if k in ("struct", "class"):
            cont = self.obj("members " + n, count=0, members=0, sortedMembers=0)
            decl = self.decl("decl " + n, "StructDecl" if k == "struct" else "ClassDecl")
            if k == "struct":
                return self.new(n, "Struct", tStruct__members=cont, tStruct__decl=decl)
            inh = self.obj("inh " + n, base=self.get(d[2]) if d[2] else 0, interfaces=0, interfacesCount=0)
            return self.new(n, "Class", tClass__members=cont, tClass__decl=decl, tClass__inheritance=inh)
        if k == "enum":
            return self.new(n, "Enum", size=SIZES[d[2]], tEnum__base=self.get(("prim", d[2])), tEnum__decl=self.decl("decl " + n, "EnumDecl"),
                            tEnum__optionsCount=0, tEnum__options=0, tEnum__sortedOptions=0)
        raise AssertionError(d)


def text(d):
    k = d[0]
    if k == "prim":
        return {"CChar": "char", "Char": "wchar"}.get(d[1], d[1].lower())
    if k in ("ptr", "ref", "const", "alias"):
        return {"ptr": "^", "ref": "&", "const": "const ", "alias": "alias "}[k] + text(d[1])
    if k in ("arr",):
        return "[%s%s]" % (text(d[1]), "" if d[2] is None else ", %d" % d[2])
    if k == "tup":
        return "(%s)" % ", ".join(map(text, d[1]))
    if k == "union":
        return "|".join(map(text, d[1]))
    if k == "fn":
        return "func(%s)->%s" % (", ".join(map(text, d[2])), text(d[1]))
    if k in ("struct", "class", "enum"):
        return "%s %s" % (k, d[1])
    return k


def bare(d):
    while d[0] == "alias":
        d = d[1]
    return d


def unwrap(d):
    """(type without const wrappers, is const)"""
    c, d = False, bare(d)
    while d[0] == "const":
        c, d = True, d[1]
    return d, c


def derives(d, base):
    while d:
        if d == base:
            return True
        d = d[2]
    return False


PTRLIKE = ("ptr", "null")
OBJ = ("struct", "class", "tup", "union", "fn", "enum", "arr", "ptr", "null", "ref", "str", "void", "nullt")


def assignable(to, frm):
    """what the language says: True, False, or None where it says nothing"""
    to, frm = bare(to), bare(frm)
    if to == frm:
        return True
    (t, tc), (f, fc) = unwrap(to), unwrap(frm)
    if fc and not tc and t[0] in ("ptr", "ref") and f[0] in ("ptr", "ref"):
        return False
    if t == f:
        return True
    if t == ERR or f == ERR:
        return False if f == ERR else None
    if t == AUTO:
        return True
    if f == AUTO:
        return None
    if t[0] == "prim":
        if f[0] == "enum":
            return assignable(t, ("prim", f[2]))
        if f[0] != "prim":
            return False
        a, b = t[1], f[1]
        if a in SIGNED:
            return b in SIGNED and SIZES[a] >= SIZES[b] or b in UNSIGNED and SIZES[a] > SIZES[b]
        if a in UNSIGNED:
            return b in INTS and SIZES[a] >= SIZES[b]
        if a in FLOATS:
            return b in FLOATS or b in INTS
        if a in CHARS:
            return b in CHARS
        return False
    if t[0] in PTRLIKE:
        if t == NULL:
            return None
        if f == NULL:
            return True
        if f[0] == "ref" and unwrap(t[1])[0] == VOID:
            return None
        if f[0] in ("prim", "struct", "tup", "union", "fn", "enum", "ref", "void"):
            return False
        if unwrap(t[1])[0] == VOID:
            return True if f[0] in ("ptr", "str", "arr", "class") else None
        if f[0] == "ptr":
            return pointee(t[1], f[1])
        if f[0] == "arr":
            return pointee(t[1], f[1])
        return None if f[0] == "class" else False
    if t[0] == "ref":
        return pointee(t[1], f[1]) if f[0] == "ref" else False
    if t[0] == "arr":
        if f[0] != "arr":
            return False
        e = pointee(t[1], f[1])
        if t[2] is None:
            return e
        return e if t[2] == f[2] else False
    if t == STR:
        return f == NULL if f[0] != "nullt" else None
    if t[0] == "tup":
        if f[0] != "tup" or len(t[1]) != len(f[1]):
            return False
        return conj(assignable(a, b) for a, b in zip(t[1], f[1]))
    if t[0] == "union":
        return f in t[1]
    if t[0] == "fn":
        if f == NULL:
            return True
        if f[0] != "fn" or len(f[2]) != len(t[2]):
            return False
        return conj([assignable(t[1], f[1])] + [assignable(a, b) for a, b in zip(t[2], f[2])])
    if t[0] == "enum":
        return False
    if t[0] == "struct":
        return None if f == NULL else False
    if t[0] == "class":
        if f == NULL:
            return True
        return f[0] == "class" and derives(f, t)
    return None


def conj(xs):
    xs = list(xs)
    if False in xs:
        return False
    return None if None in xs else True


def pointee(t, f):
    t, f = bare(t), bare(f)
    if unwrap(t)[0] == VOID:
        return True
    a, b = unwrap(t)[0], unwrap(f)[0]
    if a[0] == "prim" and b[0] == "prim" and a != b:
        return False
    if a[0] == "prim" and b[0] == "enum" or b == VOID or a[0] in ("tup", "fn", "struct", "enum") and a != b:
        return None
    return assignable(t, f)


def castable(to, frm):
    t, f = unwrap(to)[0], unwrap(frm)[0]
    if t == f:
        return None if unwrap(frm)[1] and not unwrap(to)[1] else True
    if f[0] == "prim":
        b = f[1]
        if t[0] != "prim":
            return False
        a = t[1]
        if a in INTS:
            return True
        if a in FLOATS:
            return b != "Bool"
        if a in CHARS:
            if b in CHARS or b in UNSIGNED and SIZES[b] <= 4:
                return True
            return None if b in SIGNED else False
        return False
    if f[0] == "enum":
        if t[0] == "prim" and t[1] in INTS:
            return True
        return False if t[0] in ("struct", "class", "tup", "str", "union", "fn", "ref", "arr") or t == BOOL else None
    if f[0] in ("struct", "tup", "fn", "str", "class", "arr", "ref") and t[0] in ("prim", "enum"):
        return None if f[0] == "ref" else False
    if f[0] in ("struct", "tup", "fn", "class") and t[0] in ("struct", "tup", "fn", "class", "str", "union") and f[0] != t[0]:
        return False
    if f[0] == "union" and t[0] in ("prim", "str", "struct", "tup"):
        return t in f[1]
    if f[0] == "union" and t[0] == "union":
        return False
    return None


def promoted(l, r):
    """common type of two operands: a descriptor, False (none), or None (unspecified)"""
    if bare(l) == bare(r):
        return bare(l)
    (l, _), (r, _) = unwrap(l), unwrap(r)
    if l == r:
        return l
    el = ("prim", l[2]) if l[0] == "enum" else l
    er = ("prim", r[2]) if r[0] == "enum" else r
    if el[0] == "prim" and er[0] == "prim":
        a, b = el[1], er[1]
        if el == er:
            return None
        if "Bool" in (a, b):
            return False
        if a in FLOATS or b in FLOATS:
            if a in CHARS or b in CHARS:
                return None
            if a in FLOATS and b in FLOATS:
                return el if SIZES[a] >= SIZES[b] else er
            return el if a in FLOATS else er
        if a in INTS and b in INTS:
            return (el if SIZES[a] >= SIZES[b] else er)
        if {a, b} & {"Char"} and (a in INTS or b in INTS):
            i = a if a in INTS else b
            return ("prim", i) if SIZES[i] >= 4 else U32
        return None
    if r == NULL and l[0] in ("ptr", "str", "fn"):
        return l
    if l[0] == "ptr" and er[0] == "prim":
        if er[1] in FLOATS:
            return False
        return l if er[1] in INTS else None
    if (l[0] in ("struct", "tup", "class", "str", "fn", "union", "arr", "void") or r[0] in ("struct", "tup", "class", "fn", "union", "str", "void", "arr")) \
            and l[0] not in ("ptr", "ref", "null") and r[0] not in ("null", "ref"):
        return False
    return None


BASE = PRIMS + [STR, NULL, VOID, S1, S2, C1, C2, C3, E1, E2, E8, TUP, ("tup", (I64, F64)), ("tup", (I32,)), ("tup", (I32, STR)), UN, ("union", (I32, F64)),
                FN, ("fn", I32, (I32,)), ("fn", F64, (I32, F64)), ("fn", I32, (I32, STR)), ptr(I32), ptr(I64), ptr(U32), ptr(U8), ptr(F64),
                ptr(VOID), ptr(S1), ptr(S2), ptr(C1), ptr(C2), ptr(ptr(I32)), ptr(ptr(I64)), const(ptr(I32)), const(ptr(VOID)), const(ptr(S1)), const(I32), const(BOOL), const(F64), const(E1), const(UN),
                const(S1), ("ref", S1), ("ref", S2), ("ref", I32), ("ref", I64), ("ref", C1), ("ref", C2), const(("ref", S1)), ("arr", I32, 3), ("arr", I32, 4),
                ("arr", I64, 3), ("arr", I32, None), ("arr", S1, 3), ("alias", I32), ("alias", ptr(I32)), ("alias", S1), AUTO, ERR]


def run(ctx):
    import prog
    P = prog.full()
    ctx.rule("R1-implicit", "isTypeAssignableFrom accepts a pair of types exactly when the language converts one to the other implicitly")
    ctx.rule("R2-cast", "isTypeCastAssignable accepts and rejects casts as the language does")
    ctx.rule("R3-promote", "promoteType gives two operands the type both convert to, and none to operands that have none")
    ctx.rule("R4-class", "the classification of a type (integer, signed, unsigned, float, numeric, bool, character) and its size are those of its primitive")
    ctx.rule("R5-bigger", "isPrimitiveTypeBigger orders numeric types by what they can hold")
    ctx.fork([lambda c, i=i: pairs(P, c, i, "isTypeAssignableFrom", "R1-implicit", assignable) for i in range(6)] +
             [lambda c, i=i: pairs(P, c, i, "isTypeCastAssignable", "R2-cast", castable) for i in range(6)] +
             [lambda c, i=i: promote(P, c, i) for i in range(6)] + [lambda c: classes(P, c)])
    ctx.floor("R1-implicit", 1500)
    ctx.floor("R2-cast", 800)
    ctx.floor("R3-promote", 800)
    ctx.floor("R4-class", 8)


FILES = ("frontend/types.c", "frontend/types.h", "frontend/ttable.c", "frontend/ttable.h", "lang/frontend/flag.h", "core/utils.h")


def engine(P, w):
    only = {f.name for fs in P.fns.values() for f in fs if any(str(f.file).endswith(x) for x in FILES)}
    only -= {"getPrimitiveType", "makeAutoType", "makePointerType", "makeWrappedType"}

    def prim(eng, st, fr, args, node):
        for n, p in w.prims.items():
            if args[1] == w.mem[("fld", ("fld", p[1], "primitive"), "id")]:
                return [(st, p)]
        return None

    pol = type("Pol", (Policy,), dict(only=only, models={"getPrimitiveType": prim}, max_states=400, loop_bound=40))()
    return Engine(P, pol)


def call(P, e, w, fn, args):
    """the one result of fn on concrete types, or a text that says why there is none"""
    e.noret = []
    try:
        paths = e.run(fn, lambda en, st: w.install(en, st), args)
    except (RecursionError, Limit) as x:
        return None, "does not end on these types, or reads what they do not have (%s)" % type(x).__name__
    rs = {p.ret for p in paths}
    if e.noret:
        return None, "stops the compiler in %s at %s" % (e.noret[0][1], e.noret[0][2])
    if len(rs) != 1:
        return None, "depends on something the types do not have: %s" % (paths[0].describe(3) if paths else "no path")
    r = rs.pop()
    if isinstance(r, tuple) and r[0] not in ("&",):
        return None, "its result is %s" % (r,)
    return r, None


def pairs(P, ctx, part, name, rule, oracle):
    fn = P.need(name, "frontend/types")
    w = World(P)
    for d in BASE:
        w.get(d)
    e = engine(P, w)
    for i, to in enumerate(BASE):
        if i % 6 != part:
            continue
        for frm in BASE:
            want = oracle(to, frm)
            if want is None:
                continue
            got, why = call(P, e, w, fn, [w.get(to), w.get(frm)])
            ctx.check(not why and bool(got) == want, rule, "%s <- %s" % (text(to), text(frm)), fn.loc(),
                      "a conversion from '%s' to '%s' %s" % (text(frm), text(to), why or ("is accepted" if got else "is rejected")))
    ctx.engine(e)


def promote(P, ctx, part):
    fn = P.need("promoteType", "frontend/ttable")
    w = World(P)
    for d in BASE:
        w.get(d)
    e = engine(P, w)
    for i, l in enumerate(BASE):
        if i % 6 != part or l in (AUTO, ERR):
            continue
        for r in BASE:
            want = promoted(l, r) if r not in (AUTO, ERR) else None
            if want is None:
                continue
            got, why = call(P, e, w, fn, [0, w.get(l), w.get(r)])
            if not why and (got if got == 0 else unwrap(w.desc.get(got, ("?",)))[0]) != (0 if want is False else unwrap(want)[0]):
                why = "is '%s', not '%s'" % (text(w.desc[got]) if got else "none", text(want) if want else "none")
            ctx.check(not why, "R3-promote", "%s with %s" % (text(l), text(r)), fn.loc(), "the common type of '%s' and '%s' %s" % (text(l), text(r), why))
    ctx.engine(e)


CLASSES = {"isIntegerType": INTS, "isSignedType": dict(SIGNED, **FLOATS), "isSignedIntegerType": SIGNED, "isUnsignedType": UNSIGNED,
           "isFloatType": FLOATS, "isNumericType": {n: 1 for n in SIZES if n != "Bool"}, "isBooleanType": {"Bool": 1}, "isCharacterType": CHARS,
           "isIntegralType": {n: 1 for n in SIZES if n not in FLOATS}}
ENUM_TRUE = {"isNumericType", "isIntegralType"}


def classes(P, ctx):
    w = World(P)
    for d in BASE:
        w.get(d)
    e = engine(P, w)
    for name, yes in CLASSES.items():
        fn = P.fn(name)
        if fn is None:
            continue
        bad = []
        for d in BASE + [const(p) for p in PRIMS] + [("alias", p) for p in PRIMS]:
            u = unwrap(d)[0]
            if u[0] in ("err", "auto") or u[0] == "enum" and name not in ENUM_TRUE:
                continue
            want = u[0] == "prim" and u[1] in yes or u[0] == "enum"
            w.get(d)
            got, why = call(P, e, w, fn, [w.get(d)])
            if why:
                bad.append("'%s': %s" % (text(d), why))
            elif bool(got) != want:
                bad.append("'%s' is%s" % (text(d), "" if got else " not"))
        ctx.check(not bad, "R4-class", name, fn.loc(), "; ".join(bad[:6]))
    fn = P.need("getPrimitiveTypeSizeFromTag", "frontend/types")
    bad = []
    for n, z in SIZES.items():
        got, why = call(P, e, w, fn, [P.enum("prt" + n)])
        if got != z:
            bad.append("%s has %s bytes" % (n, why or got))
    ctx.check(not bad, "R4-class", "getPrimitiveTypeSizeFromTag", fn.loc(), "; ".join(bad))
    fn = P.need("isPrimitiveTypeBigger", "frontend/types")
    bad = []
    nums = [n for n in SIZES if n not in ("Bool",)]
    for a in nums:
        for b in nums:
            want = a in FLOATS and (b not in FLOATS or SIZES[a] > SIZES[b]) or a not in FLOATS and b not in FLOATS and SIZES[a] > SIZES[b]
            got, why = call(P, e, w, fn, [w.get(("prim", a)), w.get(("prim", b))])
            if why or bool(got) != want:
                bad.append("%s over %s: %s" % (a, b, why or bool(got)))
    ctx.check(not bad, "R5-bigger", "isPrimitiveTypeBigger", fn.loc(), "; ".join(bad[:6]))
    ctx.engine(e)
