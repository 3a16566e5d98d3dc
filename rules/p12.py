"""P12: the same type is one object, different types are never mixed up, and neither are the instances named after them.

The comparison and the hash of types are interpreted on every pair of a domain of concrete types built twice; each constructor of the
type table is interpreted with the table's search answering both ways; and the mangling of type arguments is evaluated on single types and
on pairs of types whose spelling could run into each other."""
import itertools

from absint import Engine, Ev, Limit, Policy
from build import AnalysisBroken
from heap import Types, name_of
from emit import split_format, strlit

LEVEL = "other"
ALIAS = {"tUnion": "tuple", "info": "optional", "wrapped": "optional"}
HASHES = ("hashUint8", "hashUint16", "hashUint32", "hashUint64", "hashPtr", "hashStr")


class World:
    def __init__(self, P):
        self.P = P
        self.tt = {f.name for f in P.all_fns() if f.file in (P.need("compareTypes").file, P.need("makeMangledName").file)}
        self.tt |= {"typeIs_", "nodeIs_", "hasFlag", "hasFlags", "isLiteralExpr", "hasFlagAny", "unThisType", "maybeUnThisType"}
        self.ids = {}

    def hash(self, *k):
        """hashes are numbered by the sequence that was fed to them"""
        return self.ids.setdefault(k, 1000 + len(self.ids))

    def engine(self, models=None, only=(), record=(), bound=40):
        def hashed(n):
            return lambda eng, st, fr, a, node: [(st, self.hash(n, a[0], a[1]))]
        ms = {n: hashed(n) for n in HASHES}
        ms["hashInit"] = lambda eng, st, fr, a, node: [(st, 1)]
        ms.update(models or {})

        class Pol(Policy):
            max_states, loop_bound, max_depth, alias = 4000, bound, 30, ALIAS
            record_calls = frozenset(record)
        Pol.only = frozenset((self.tt | set(only)) - set(ms) - set(record))
        Pol.models = ms
        return Engine(self.P, Pol())


def S(x):
    """an interned string"""
    return ("&", ("h", "'" + x))


def unS(t):
    if isinstance(t, tuple) and t[0] == "&" and isinstance(t[1], tuple) and t[1][0] == "h" and t[1][1].startswith("'"):
        return t[1][1][1:]
    return strlit(t)


class Dom(Types):
    """concrete types of a description, each made once per copy"""

    def __init__(self, P):
        super().__init__(P)
        self.made, self.n2 = {}, 0

    def fresh(self, k, d):
        self.n2 += 1
        return "%s#%s.%d" % (d[0], k, self.n2)

    def list(self, items, fields=None):
        o = ("h", "list%d" % self.n2)
        self.n2 += 1
        for i, x in enumerate(items):
            if fields:
                self.mem[("fld", ("idx", o, i), fields)] = x
            else:
                self.mem[("idx", o, i)] = x
        if not items:
            return 0
        if not fields:
            self.mem[o] = items[0]
        return ("&", ("idx", o, 0))

    def node(self, key, tag=None, **f):
        k = ("node", key)
        if k not in self.made:
            self.made[k] = self.obj("node " + key, tag=self.const("ast" + (tag or "StructDecl")), flags=0, next=0, parentScope=0, **f)
        return self.made[k]

    def t(self, d, k=0):
        p = self.made.get((d, k))
        if p is None:
            p = self.made[(d, k)] = getattr(self, "k_" + d[0])(d, k)
            self.desc[p] = d
        return p

    def base(self, k, d, tag, flags=(), **f):
        name, ns = f.pop("name", 0), f.pop("ns", 0)
        p = self.obj(self.fresh(k, d), tag=self.const("typ" + tag), flags=self.flag(*flags), size=8, retyped=0, index=self.n2, **f)
        for m, v in (("from", 0), ("name", name), ("ns", ns)):
            self.mem[("fld", p[1], m)] = v
        return p

    def k_prim(self, d, k):
        spell = {"Bool": "bool", "Char": "wchar", "CChar": "char"}.get(d[1], d[1].lower())
        return self.base(k, d, "Primitive", primitive__id=self.const("prt" + d[1]), name=S(spell))

    def k_plain(self, d, k):
        return self.base(k, d, d[1])

    def k_ptr(self, d, k):
        return self.base(k, d, "Pointer", d[2], pointer__pointed=self.t(d[1], k))

    def k_ref(self, d, k):
        return self.base(k, d, "Reference", d[2], reference__referred=self.t(d[1], k))

    def k_res(self, d, k):
        return self.base(k, d, "Result", result__target=self.t(d[1], k))

    def k_opt(self, d, k):
        return self.base(k, d, "Optional", optional__target=self.t(d[1], k))

    def k_info(self, d, k):
        return self.base(k, d, "Info", optional__target=self.t(d[1], k))

    def k_wrap(self, d, k):
        return self.base(k, d, "Wrapped", d[2], optional__target=self.t(d[1], k))

    def k_arr(self, d, k):
        return self.base(k, d, "Array", array__elementType=self.t(d[1], k), array__len=d[2])

    def k_map(self, d, k):
        return self.base(k, d, "Map", map__key=self.t(d[1], k), map__value=self.t(d[2], k))

    def k_tup(self, d, k):
        return self.base(k, d, "Tuple", d[2] if len(d) > 2 else (), tuple__count=len(d[1]), tuple__members=self.list([self.t(x, k) for x in d[1]]))

    def k_uni(self, d, k):
        return self.base(k, d, "Union", tuple__count=len(d[1]), tuple__members=self.list([self.t(x, k) for x in d[1]], "type"))

    def k_fn(self, d, k):
        _, name, scope, ps, ret, fl = d
        decl = 0
        if scope:
            decl = self.obj("decl of " + self.fresh(k, d), tag=self.const("astFuncDecl"), flags=0, parentScope=self.node(scope))
        return self.base(k, d, "Func", fl, func__paramsCount=len(ps), func__params=self.list([self.t(x, k) for x in ps]),
                         func__retType=self.t(ret, k), func__decl=decl, name=S(name) if name else 0)

    def k_named(self, d, k):
        _, tag, name, ns = d
        f = {}
        m = {"Struct": "tStruct", "Class": "tClass", "Interface": "tInterface", "Enum": "tEnum", "UntaggedUnion": "untaggedUnion", "Opaque": "opaque"}[tag]
        f[m + "__decl"] = self.node("decl %s %s %s %s" % (tag, name, ns, k))
        return self.base(k, d, tag, name=S(name), ns=S(ns) if ns else 0, **f)

    def k_mod(self, d, k):
        return self.base(k, d, "Module", name=S(d[1]), module__path=S(d[2]))

    def k_exc(self, d, k):
        return self.base(k, d, "Exception", name=S("E"), exception__decl=self.node(d[1]))

    def k_gen(self, d, k):
        return self.base(k, d, "Generic", name=S("G"), generic__decl=self.node(d[1]), generic__paramsCount=2)

    def k_app(self, d, k):
        return self.base(k, d, "Applied", applied__from=self.t(d[1], k), applied__args=self.list([self.t(x, k) for x in d[2]]),
                         applied__totalArgsCount=len(d[2]), applied__argsCount=len(d[2]))

    def k_alias(self, d, k):
        return self.base(k, d, "Alias", d[2], name=S(d[3]), alias__aliased=self.t(d[1], k))

    def k_lit(self, d, k):
        _, kind, v = d
        n = "literal %s %r %s" % (kind, v, k)
        f = {"Integer": dict(intLiteral__isNegative=int(v < 0), intLiteral__value=v, intLiteral__uValue=v % 2**64) if kind == "Integer" else {},
             "Bool": dict(boolLiteral__value=v), "Char": dict(charLiteral__value=v), "String": dict(stringLiteral__value=S(str(v))), "Null": {},
             "Float": dict(floatLiteral__value=v, floatLiteral___bits=v)}[kind]
        return self.base(k, d, "Literal", literal__value=self.node(n, kind + "Lit", **f))


def same(d):
    """what a type is, whatever name it is given"""
    if d and d[0] == "alias" and "Extern" not in d[2]:
        return ("alias", same(d[1]), d[2])
    return tuple(same(x) if isinstance(x, tuple) else x for x in d)


I32, U8, CH = ("prim", "I32"), ("prim", "U8"), ("prim", "CChar")
V = ("plain", "Void")
CI = ("wrap", I32, ("Const",))
S1 = ("named", "Struct", "S", None)


def domain():
    g, g2 = ("gen", "generic A"), ("gen", "generic B")
    ds = [I32, U8, CH, ("prim", "Char"), ("prim", "Bool"), ("prim", "F64"), ("plain", "Void"), ("plain", "Null"), ("plain", "Auto"), ("plain", "String"), CI, ("wrap", U8, ("Const",))]
    for k in ("ptr", "ref"):
        ds += [(k, I32, ()), (k, U8, ()), (k, I32, ("Const",)), (k, CI, ()), (k, ("ptr", I32, ()), ())]
    ds += [("res", I32), ("res", U8), ("opt", I32), ("opt", U8), ("info", I32), ("info", U8), ("map", I32, U8), ("map", U8, I32), ("map", I32, I32)]
    ds += [("arr", I32, 3), ("arr", I32, 4), ("arr", U8, 3), ("arr", I32, 2**64 - 1), ("arr", ("arr", I32, 3), 4), ("arr", ("arr", I32, 4), 3)]
    for k in ("tup", "uni"):
        ds += [(k, x) for x in ((I32, U8), (U8, I32), (I32, U8, U8), (I32, CI), (I32, ("ptr", U8, ())), (I32, ("ptr", CH, ())), (U8, U8))]
    ds += [("tup", (I32, U8), ("Const",)), ("tup", (V, V), ("FuncTypeParam",)), ("tup", (V, V))]
    for n, s in ((None, None), ("f", "scope 1"), ("f", "scope 2"), ("g", "scope 1")):
        ds += [("fn", n, s, ps, r, ()) for ps, r in (((), V), ((I32,), V), ((U8,), V), ((I32, U8), V), ((U8, I32), V), ((I32,), I32), ((I32,), U8), ((V, I32), V))]
    ds += [("fn", None, None, (I32,), V, ("Const",)), ("fn", None, None, (I32,), V, ("Closure",))]
    for tag in ("Struct", "Class", "Interface", "Enum"):
        ds += [("named", tag, n, ns) for n in "ST" for ns in (None, "m", "n")]
    ds += [("named", t, n, None) for t in ("UntaggedUnion", "Opaque") for n in "ST"]
    ds += [("mod", "m", "a/m"), ("mod", "n", "a/n"), ("exc", "exception A"), ("exc", "exception B"), g, g2]
    ds += [("app", x, a) for x in (g, g2) for a in ((I32,), (U8,), (I32, U8), (U8, I32), (("named", "Struct", "S", None),), (("named", "Struct", "T", None),), (("lit", "Integer", 5),), (("lit", "Integer", 6),))]
    ds += [("alias", I32, (), "A"), ("alias", I32, (), "B"), ("alias", U8, (), "A"), ("alias", I32, ("Extern",), "A"), ("alias", I32, ("Extern",), "B")]
    ds += [("lit", "Integer", v) for v in (5, 6, -5, 2**64 - 5)] + [("lit", "Bool", 0), ("lit", "Bool", 1), ("lit", "Char", 97), ("lit", "Char", 98),
                                                                     ("lit", "String", "x"), ("lit", "String", "y"), ("lit", "Null", 0), ("lit", "Float", 1), ("lit", "Float", 2)]
    ds += [("wrap", ("named", "Struct", "S", None), ("Const",)), ("ptr", ("named", "Struct", "S", None), ()), ("ptr", ("named", "Struct", "S", "m"), ()), ("ptr", ("named", "Class", "S", None), ())]
    assert len(set(ds)) == len(ds)
    return ds


def text(d):
    if d[0] in ("prim", "plain"):
        return d[1].lower()
    return "%s(%s)" % (d[0], ", ".join(text(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in KINDS else
                                       "(%s)" % " ".join(text(y) if isinstance(y, tuple) else str(y) for y in x) if isinstance(x, tuple) else str(x) for x in d[1:]))


KINDS = {k[2:] for k in dir(Dom) if k.startswith("k_")}


class Part:
    """the part of a heap that some pointers reach"""

    def __init__(self, h):
        self.by, self.memo = {}, {}
        for k, v in h.mem.items():
            self.by.setdefault(self.root(k), []).append((k, v))

    @staticmethod
    def root(l):
        while isinstance(l, tuple) and l and l[0] in ("fld", "idx"):
            l = l[1]
        return l

    def of(self, p):
        if p not in self.memo:
            out, todo, seen = {}, [p], set()
            while todo:
                v = todo.pop()
                if isinstance(v, tuple) and len(v) == 2 and v[0] == "&":
                    r = self.root(v[1])
                    if r not in seen:
                        seen.add(r)
                        for k, x in self.by.get(r, ()):
                            out[k] = x
                            todo.append(x)
            self.memo[p] = out
        return self.memo[p]

    def at(self, *ps):
        self.use = ps
        return self

    def install(self, eng, st):
        for p in self.use:
            st.mem.update(self.of(p))


def one(e, h, fn, args):
    try:
        ps = e.run(fn, lambda en, st: h.install(en, st), args)
    except (RecursionError, Limit) as x:
        return None, "no result (%s)" % type(x).__name__
    if len(ps) != 1:
        return None, "%s" % ("the compiler stops on an assertion" if not ps else "depends on " + ps[0].describe(4))
    return ps[0], None


def equality(ctx, w):
    P = w.P
    cmp, hsh = P.need("compareTypes"), P.need("hashType")
    h = Dom(P)
    ds = domain()
    a, b = [h.t(d, 0) for d in ds], [h.t(d, 1) for d in ds]
    e = w.engine()
    h = Part(h)
    codes = []
    for d, x, y in zip(ds, a, b):
        r = []
        for p in (x, y):
            q, why = one(e, h.at(p), hsh, [1, p])
            if why is None and not isinstance(q.ret, int):
                why = "the hash depends on something outside of the type"
            r.append((q.ret if why is None else None, why))
        ctx.check(r[0][1] is None and r[1][1] is None, "R1-hash", text(d), hsh.loc(), r[0][1] or r[1][1])
        codes.append((r[0][0], r[1][0]))
    for i, d in enumerate(ds):
        bad = None
        for j, f in enumerate(ds):
            q, why = one(e, h.at(a[i], b[j]), cmp, [a[i], b[j]])
            eq = same(d) == same(f)
            if why is None and not isinstance(q.ret, int):
                why = "undecided"
            if why is None and bool(q.ret) != eq:
                why = "two types %s are told apart" % text(d) if eq else "%s and %s are taken for one type" % (text(d), text(f))
            if why is None and eq and codes[i][0] != codes[j][1]:
                why = "equal types %s and %s have different hashes: the second one is not found in the type table" % (text(d), text(f))
            if why is None and i != j:      # ... and types that share the types they are made of
                q, why = one(e, h.at(a[i], a[j]), cmp, [a[i], a[j]])
                if why is None and q.ret not in (0, 1, False, True) or why is None and bool(q.ret) != eq:
                    why = "two types %s of one table are %s" % (text(d), "told apart" if eq else "taken for one type")
            bad = bad or why and "%s: %s" % (text(f), why)
        ctx.check(bad is None, "R1-equality", text(d), cmp.loc(), bad)
    ctx.engine(e)
    ctx.floor("R1-equality", 130)
    # function types compared as overloads
    fcmp = P.need("compareFuncTypes")
    fs = [(d, x, y) for d, x, y in zip(ds, a, b) if d[0] == "fn"]
    for ign in (0, 1):
        for d, x, _ in fs:
            bad = None
            for f, _, y in fs:
                q, why = one(e, h.at(x, y), fcmp, [x, y, ign])
                eq = d[3:] == f[3:] if ign else d == f
                if why is None and bool(q.ret) != eq:
                    why = "are %s" % ("told apart" if eq else "taken for one type")
                bad = bad or why and "%s and %s %s" % (text(d), text(f), why)
            ctx.check(bad is None, "R1-functions", "%s%s" % (text(d), " by signature" if ign else ""), fcmp.loc(), bad)
    ctx.floor("R1-functions", 60)


def anonymous(ctx, w):
    """a struct literal has the type of an earlier literal with the same fields"""
    P = w.P
    cmp, hsh = P.need("compareTypes"), P.need("hashType")
    h = Dom(P)
    fields = [(), (("a", I32),), (("a", U8),), (("b", I32),), (("a", I32), ("b", U8)), (("a", U8), ("b", I32)), (("a", I32), ("c", U8)), (("a", I32), ("b", U8), ("c", CH))]

    def make(fs, declared, k):
        ms = [(n, h.t(t, k), "FieldDecl" if declared else "FieldExpr") for n, t in fs]
        if declared:            # with the functions that createClassOrStructBuiltins adds
            ms = sorted(ms + [(n, h.t(("fn", n, "anon", (), V, ()), k), "FuncDecl") for n in ("op__copy", "op__destructor", "op__hash")], key=lambda m: m[0])
        items = [h.obj("member %s %s %s" % (h.fresh(k, ("m",)), n, tag), name=S(n), type=t, decl=h.obj("decl " + h.fresh(k, ("m",)), tag=P.enum("ast" + tag), flags=0)) for n, t, tag in ms]
        c = h.obj("container " + h.fresh(k, ("c",)), count=len(items), members=0, sortedMembers=h.list(items))
        return h.base(k, ("anon",), "Struct", ("Anonymous",), tStruct__members=c, name=S("anon%s" % h.n2))
    got = [(f, make(f, True, 0), make(f, False, 1)) for f in fields if f]
    e = w.engine()
    for f, x, _ in got:
        bad = None
        for g, _, y in got:
            q, why = one(e, h, cmp, [x, y])
            eq = f == g
            if why is None and bool(q.ret) != eq:
                why = "are %s" % ("told apart" if eq else "taken for one type")
            if why is None and eq:
                a, b = one(e, h, hsh, [1, x]), one(e, h, hsh, [1, y])
                why = a[1] or b[1] or (None if a[0].ret == b[0].ret else "have different hashes")
            bad = bad or why and "a declared struct with %s and a literal with %s %s" % (f, g, why)
        ctx.check(bad is None, "R2-anonymous", ", ".join("%s: %s" % (n, text(t)) for n, t in f), cmp.loc(), bad)
    ctx.engine(e)
    ctx.floor("R2-anonymous", 6)


def cells(st, o):
    """path below an object -> value"""
    out = {}
    for k, v in st.mem.items():
        path, x = [], k
        while isinstance(x, tuple) and x != o and x[0] in ("fld", "idx"):
            path.append(x[2])
            x = x[1]
        if x == o and path and not (isinstance(v, tuple) and v and v[0] in ("@zero", "@base")):
            out[tuple(reversed(path))] = v
    return out


STRIDE = {"type": 16, "value": 24, None: 8}


def copier(eng, st, fr, a, node):
    """memcpy of one object or of an array of pointers, union members or enum options"""
    dst, src, n = a[0], a[1], a[2]
    if isinstance(src, tuple) and src[0] == "&" and src[1][0] == "idx" and src[1][2] == 0:
        so = src[1][1]
        cs = cells(st, so)
        field = next((p[1] for p in cs if len(p) == 2), None)
        stride = 24 if field in ("value", "name") else STRIDE.get(field, 8)
        do = dst[1][1] if dst[1][0] == "idx" and dst[1][2] == 0 else dst[1]
        k = n // stride if isinstance(n, int) else 0
        for p, v in cs.items():
            if isinstance(p[0], int) and p[0] < k:
                l = do
                for i, s in enumerate(p):
                    l = ("idx" if i == 0 else "fld", l, s)
                eng.write(st, l, v)
        return [(st, dst)]
    if src == 0:
        return [(st, dst)]
    so = src[1] if src[0] == "&" else ("*", src)
    do = dst[1] if dst[0] == "&" else ("*", dst)
    eng.write(st, do, eng.load_obj(st, so))
    return [(st, dst)]


def world_table(w, found):
    P = w.P
    h = Dom(P)
    ns = S("the namespace")
    t = h.obj("table", memPool=("&", ("h", "pool")), strPool=("&", ("h", "strings")), typeCount=50, currentNamespace=ns, destructorType=0, types__size=1)
    for n in ("autoType", "voidType", "errorType"):
        h.mem[("fld", t[1], n)] = h.t(("plain", n[:-4].capitalize()), n)
    ex = ("&", ("h", "existing"))
    h.obj("existing", tag=77)
    h.mem[("h", "slot")] = ex
    count = [0]

    def alloc(eng, st, fr, a, node):
        count[0] += 1
        o = ("h", "allocated %d" % count[0])
        return [(st, ("&", o))]

    def snap(eng, st, v):
        p = eng.read(st, v[1]) if isinstance(v, tuple) and v[0] == "&" else v
        return p, cells(st, p[1]) if isinstance(p, tuple) and p[0] == "&" else None

    def find(eng, st, fr, a, node):
        p, c = snap(eng, st, a[1])
        eng.record(st, Ev("table", "find", (a[2], a[4], p, tuple(sorted(c.items(), key=repr)) if c else None), fr.fn.loc(node[1])))
        return [(st, ("&", ("h", "slot")) if found else 0)]

    def insert(eng, st, fr, a, node):
        p, c = snap(eng, st, a[1])
        eng.record(st, Ev("table", "insert", (a[2], a[4], p), fr.fn.loc(node[1])))
        return [(st, 1)]

    def remove(eng, st, fr, a, node):
        # the next element of the chain is moved here
        eng.record(st, Ev("table", "remove", (a[1],), fr.fn.loc(node[1])))
        if isinstance(a[1], tuple) and a[1][0] == "&":
            eng.write(st, a[1][1], ("&", ("h", "another type of the chain")))
        return [(st, ("void", 1))]

    def members(eng, st, fr, a, node):
        return [(st, ("members", a[1], a[2]))]
    ms = dict(findInHashTable=find, insertInHashTable=insert, removeFromHashTable=remove, memcpy=copier, __builtin_memcpy=copier,
              hashType=lambda eng, st, fr, a, node: [(st, w.hash("type", a[1] if found is None else 0))],
              makeTypeMembersContainer=members, makeTypeInheritance=lambda eng, st, fr, a, node: [(st, ("inheritance",) + tuple(a[1:]))],
              qsort=lambda eng, st, fr, a, node: [(st, ("void", 2))], getDeclarationName=lambda eng, st, fr, a, node: [(st, S("declared"))],
              countAstNodes=lambda eng, st, fr, a, node: [(st, 2)], mallocOrDie=alloc, callocOrDie=alloc, **{"malloc": alloc})
    for n in ("allocFromMemPool", "callocFromMemPool"):
        ms[n] = alloc
    return h, t, ex, ns, w.engine(models=ms)


def constructors(h, t):
    """name -> (arguments, what the type must hold, path -> value or a list of copied values)"""
    i32, u8, ci = h.t(I32), h.t(U8), h.t(CI)
    ty = [i32, u8, h.t(CH)]
    FC, TG = h.flag("Const"), lambda n: h.const("typ" + n)
    s = S
    um = h.list(ty, "type")
    arr = h.list(ty)
    opts = ("h", "options")
    for i, (n, v) in enumerate((("A", 0), ("B", 5))):
        h.mem[("fld", ("idx", opts, i), "name")] = s(n)
        h.mem[("fld", ("idx", opts, i), "value")] = v
        h.mem[("fld", ("idx", opts, i), "decl")] = 0
    decl = h.obj("the decl", tag=h.const("astStructDecl"), flags=FC, _namedNode__name=s("declared"), genericDecl__params=0, genericDecl__inferrable=0)
    mem = ("&", ("idx", ("h", "named members"), 0))
    fn = h.t(("fn", "f", "scope 1", (I32, U8, CH), V, ()))
    en = h.obj("enum description", tag=TG("Enum"), flags=0, tEnum__options=("&", ("idx", opts, 0)), tEnum__optionsCount=2, tEnum__base=i32, tEnum__decl=decl)
    h.set(en, name=s("E")) if False else h.mem.update({("fld", en[1], "name"): s("E")})
    app = h.t(("app", ("gen", "generic A"), (I32, U8, CH)))
    members3 = ("copy", 3, None)
    return {
        "makePointerType": ([t, i32, FC], {"tag": TG("Pointer"), "flags": FC, "pointer.pointed": i32}),
        "makeReferenceType": ([t, i32, FC], {"tag": TG("Reference"), "flags": FC, "reference.referred": i32}),
        "makeOptionalType": ([t, i32, 0], {"tag": TG("Optional"), "flags": 0, "optional.target": i32}),
        "makePointerType ": ([t, ci, 0], {"tag": TG("Pointer"), "flags": FC, "pointer.pointed": i32}),
        "makeReferenceType ": ([t, ci, 0], {"tag": TG("Reference"), "flags": FC, "reference.referred": i32}),
        "makeWrappedType": ([t, i32, FC], {"tag": TG("Wrapped"), "flags": FC, "optional.target": i32}),
        "makeMapType": ([t, i32, u8], {"tag": TG("Map"), "map.key": i32, "map.value": u8}),
        "makeArrayType": ([t, i32, 7], {"tag": TG("Array"), "array.elementType": i32, "array.len": 7}),
        "makeTypeInfo": ([t, i32], {"tag": TG("Info"), "optional.target": i32}),
        "makeResultType": ([t, i32], {"tag": TG("Result"), "result.target": i32}),
        "makeLiteralType": ([t, decl], {"tag": TG("Literal"), "literal.value": decl}),
        "makeAliasType": ([t, i32, s("A"), FC], {"tag": TG("Alias"), "flags": FC, "name": s("A"), "alias.aliased": i32}),
        "makeOpaqueTypeWithFlags": ([t, s("A"), decl, FC], {"tag": TG("Opaque"), "flags": FC, "name": s("A"), "opaque.decl": decl}),
        "makeExceptionType": ([t, decl], {"tag": TG("Exception"), "name": s("declared"), "exception.decl": decl}),
        "makeGenericType": ([t, decl], {"tag": TG("Generic"), "name": s("declared"), "generic.decl": decl, "generic.paramsCount": 2}),
        "makeUnionType": ([t, um, 3, FC], {"tag": TG("Union"), "flags": FC, "tuple.count": 3, "tuple.members": ("copy", um, 3, "type", ty)}),
        "makeTupleType": ([t, arr, 3, FC], {"tag": TG("Tuple"), "flags": FC, "tuple.count": 3, "tuple.members": ("copy", arr, 3, None, ty)}),
        "makeFuncType": ([t, fn], {"tag": TG("Func"), "name": s("f"), "func.paramsCount": 3, "func.retType": h.t(V), "func.decl": h.mem[("fld", ("fld", fn[1], "func"), "decl")],
                                   "func.params": ("copy", h.mem[("fld", ("fld", fn[1], "func"), "params")], 3, None, ty)}),
        "makeEnum": ([t, en], {"tag": TG("Enum"), "name": s("E"), "tEnum.optionsCount": 2, "tEnum.base": i32, "tEnum.decl": decl,
                               "tEnum.options": ("copy", ("&", ("idx", opts, 0)), 2, "value", [0, 5])}),
        "makeAppliedType": ([t, app], {"tag": TG("Applied"), "applied.from": h.t(("gen", "generic A")), "applied.totalArgsCount": 3,
                                       "applied.args": ("copy", h.mem[("fld", ("fld", app[1], "applied"), "args")], 3, None, ty)}),
        "makeStructType": ([t, s("A"), mem, 2, decl, FC], {"tag": TG("Struct"), "flags": FC, "name": s("A"), "tStruct.decl": decl, "tStruct.members": ("members", mem, 2)}),
        "makeClassType": ([t, s("A"), mem, 2, decl, i32, arr, 3, FC], {"tag": TG("Class"), "flags": FC, "name": s("A"), "tClass.decl": decl,
                                                                      "tClass.members": ("members", mem, 2), "tClass.inheritance": ("inheritance", i32, arr, 3)}),
        "makeInterfaceType": ([t, s("A"), mem, 2, decl, FC], {"tag": TG("Interface"), "flags": FC, "name": s("A"), "tInterface.decl": decl, "tInterface.members": ("members", mem, 2)}),
        "makeModuleType": ([t, s("A"), s("p"), mem, 2, FC], {"tag": TG("Module"), "flags": FC, "name": s("A"), "module.path": s("p"), "module.members": ("members", mem, 2)}),
        "makeUntaggedUnionType": ([t, decl, mem, 2], {"tag": TG("UntaggedUnion"), "flags": FC, "name": s("declared"), "untaggedUnion.decl": decl, "untaggedUnion.members": ("members", mem, 2)}),
    }


def result_type(p):
    r = p.ret
    if isinstance(r, tuple) and r[0] == "obj":      # a pair: whether it was found, and the type
        d = {pp[-1][1]: v for pp, v in r[2]}
        return d.get("s"), d.get("f")
    return r, None


def interning(ctx, w):
    P = w.P
    names = None
    for found in (False, True):
        h, t, ex, ns, e = world_table(w, found)
        table = constructors(h, t)
        names = len(table)
        for name, (args, want) in sorted(table.items()):
            fn = P.need(name.strip())
            p, why = one(e, h, fn, args)
            inst = "%s%s: the type is %s" % (name.strip(), " of a const type" if name[-1] == " " else "", "in the table" if found else "new")
            if why is None:
                ret, f = result_type(p)
                evs = [x for x in p.events if x.kind == "table"]
                fs, ins = [x for x in evs if x.name == "find"], [x for x in evs if x.name == "insert"]
                if not fs:
                    why = "the table is not searched"
                elif f is not None and bool(f) != found:
                    why = "the caller is told that the type was %sfound" % ("" if f else "not ")
                elif found:
                    if ret != ex:
                        why = "the result is not the type in the table but %s" % name_of(ret)
                    elif ins:
                        why = "a second one is inserted"
                    elif cells(p.st, ex[1]) != {("@",): 0, ("tag",): 77}:
                        why = "the type in the table is changed: %s" % sorted(set(map(str, cells(p.st, ex[1]))))
                else:
                    why = fresh(w, h, p, ret, fs, ins, want, ns)
            ctx.check(why is None, "R3-interned", inst, fn.loc(), why)
        ctx.engine(e)
    ctx.floor("R3-interned", 2 * names)
    # removal
    h, t, ex, ns, e = world_table(w, True)
    fn = P.need("removeFromTypeTable")
    p, why = one(e, h, fn, [t, h.t(I32)])
    if why is None:
        evs = [x.name for x in p.events if x.kind == "table"]
        why = None if p.ret == ex and evs == ["find", "remove"] else "the result is %s, after %s" % (name_of(p.ret), ", ".join(evs))
    ctx.check(why is None, "R3-interned", "removeFromTypeTable gives the type it removed", fn.loc(), why)


def fresh(w, h, p, ret, fs, ins, want, ns):
    if len(ins) != 1:
        return "%d insertions of a new type" % len(ins)
    if ins[0].args[2] != ret:
        return "the type that is returned is not the one that was inserted"
    if ins[0].args[1] != fs[-1].args[1]:
        return "the table is searched and extended by different comparisons"
    if not (isinstance(ret, tuple) and ret[0] == "&" and ret[1][0] == "h" and ret[1][1].startswith("allocated")):
        return "the new type is not in the table's memory: %s" % name_of(ret)
    got = {".".join(map(str, k)): v for k, v in cells(p.st, ret[1]).items()}
    key = dict(fs[-1].args[3] or ())
    key = {".".join(map(str, k)): v for k, v in key.items()}
    if got.get("ns", 0) != ns or key.get("ns", 0) != ns:
        return "the type does not belong to the current namespace"
    for k, v in want.items():
        g = got.get(k, 0)
        if isinstance(v, tuple) and v and v[0] == "copy":
            _, src, n, field, items = v
            if key.get(k, 0) != src:
                return "the table is searched without %s" % k
            if g == src or not (isinstance(g, tuple) and g[0] == "&"):
                return "%s of the type in the table still is the caller's array" % k
            o = g[1][1] if g[1][0] == "idx" else g[1]
            cs = cells(p.st, o)
            vals = [cs.get((i, field) if field else (i,)) for i in range(n)]
            if vals != items:
                return "%s of the type in the table are not the given ones" % k
        elif g != v:
            return "%s of the type in the table is %s instead of %s" % (k, name_of(g), name_of(v))
        elif isinstance(v, tuple) and v[0] == "members" or isinstance(v, tuple) and v[0] == "inheritance":
            continue
        elif key.get(k, 0) != v and k.split(".")[-1] not in ("decl", "paramsCount") and not k.startswith("module.path"):
            return "the table is searched without %s" % k
    return None


def spelled(w, h, fn, types, const=0, name="f"):
    """the name of an instance: the texts that are appended, in order"""
    def put(eng, st, s, node, fr):
        eng.record(st, Ev("text", s, (), fr.fn.loc(node[1])))

    def append(eng, st, fr, a, node):
        s = unS(a[1])
        put(eng, st, s[:a[2]] if s is not None and isinstance(a[2], int) else "<%s>" % name_of(a[1]), node, fr)
        return [(st, ("void", 1))]

    def append_string(eng, st, fr, a, node):
        s = unS(a[1])
        put(eng, st, s if s is not None else "<%s>" % name_of(a[1]), node, fr)
        return [(st, ("void", 1))]

    def fmt(eng, st, fr, a, node):
        vals, v = {}, a[2]
        if isinstance(v, tuple) and v[0] == "&":
            lv = v[1][1] if v[1][0] == "idx" and v[1][2] == 0 else v[1]
            for i in range(8):
                for k in cells(st, ("idx", lv, i)).items():
                    vals[i] = k[1]
        elif isinstance(v, tuple) and v[0] == "obj":
            vals = {p[0][1]: x for p, x in v[2]}
        out, i = "", 0
        for kind, x in split_format(unS(a[1]) or ""):
            if kind == "t":
                out += x
            elif kind == "a":
                v = vals.get(i, "?")
                if isinstance(v, int) and x[1:].isdigit() and x[0] in "ui":
                    v %= 1 << int(x[1:])
                    v -= (1 << int(x[1:])) if x[0] == "i" and v >> (int(x[1:]) - 1) else 0
                s = unS(v)
                out += s if s is not None else chr(v) if x == "c" and isinstance(v, int) and 32 <= v < 127 else ("true" if v else "false") if x == "b" else str(v)
                i += 1
        put(eng, st, out, node, fr)
        return [(st, ("void", 1))]
    def length(eng, st, fr, a, node):
        s = unS(a[0])
        return [(st, len(s))] if s is not None else None
    e = w.engine(models=dict(strlen=length, append=append, appendString=append_string, format=fmt, formatStateToString=lambda eng, st, fr, a, node: [(st, ("text",))],
                             makeString=lambda eng, st, fr, a, node: [(st, a[1])],
                             newFormatState=lambda eng, st, fr, a, node: [(st, ("state",))], freeFormatState=lambda eng, st, fr, a, node: [(st, ("void", 1))],
                             free=lambda eng, st, fr, a, node: [(st, ("void", 1))]))
    p, why = one(e, h, fn, [("&", ("h", "strings")), S(name), h.list([h.t(t) for t in types]), len(types), const])
    if why:
        return None, why
    if p.ret != ("text",):
        return None, "the result is not the text that was composed"
    return "".join(x.name for x in p.events if x.kind == "text"), None


def mangling(ctx, w):
    P = w.P
    fn = P.need("makeMangledName")
    h = Dom(P)
    nm = lambda n, ns=None, tag="Struct": ("named", tag, n, ns)
    ds = [I32, U8, ("prim", "I8"), ("prim", "U32"), CH, ("prim", "Char"), ("prim", "Bool"), ("prim", "F64"), V, ("plain", "String"), CI, ("wrap", CH, ("Const",)), ("wrap", S1, ("Const",))]
    ds += [(k, x, ()) for k in ("ptr", "ref") for x in (I32, CH, V, S1, CI)] + [("ptr", I32, ("Const",)), ("ref", S1, ("Const",)), ("ptr", ("ptr", I32, ("Const",)), ()), ("ptr", ("ptr", I32, ()), ())]
    ds += [("arr", I32, 1), ("arr", I32, 11), ("arr", I32, 257), ("arr", I32, 65537), ("arr", I32, 2**32 + 1), ("arr", ("arr", I32, 1), 1), ("arr", U8, 1), ("arr", I32, 2**64 - 1)]
    ds += [("tup", (I32, U8)), ("tup", (I32,)), ("tup", (("tup", (I32, U8)), U8)), ("tup", (I32, ("tup", (U8, U8)))), ("tup", (("tup", (I32,)), U8, U8)), ("tup", (CH, I32)), ("tup", (CI, I32)), ("tup", (CH, CI))]
    ds += [("uni", x) for x in ((I32, U8), (CH, I32), (CI, U8), (I32, U8, CH), (I32, U8, CH, V), (I32, U8, CH, S1), (("ptr", ("ptr", I32, ("Const",)), ()), U8))]
    ds += [("fn", None, None, ps, r, ()) for ps, r in (((), V), ((I32,), V), ((I32,), U8), ((I32, U8), V), ((), I32), ((), ("fn", None, None, (I32,), V, ())))]
    ds += [nm(n) for n in ("A", "B", "AB", "A_ZB", "B_ZC", "C", "ZA_", "i32", "A1")] + [nm(n, ns) for n, ns in (("A", "m"), ("mA", None), ("b", "ma"), ("ab", "m"), ("A", "n"), ("A", "A_ZB"))]
    ds += [("lit", "Integer", v) for v in (1, 11, 5, -5)] + [("lit", "Bool", 0), ("lit", "Bool", 1), ("lit", "Char", 97), ("lit", "Char", 98), ("lit", "Char", 40), ("lit", "Char", 0xe9), ("lit", "String", "x"), ("lit", "String", "y"), ("lit", "Null", 0)]
    ds += [("plain", t) for t in ("Null", "Auto")]
    code = {}
    seen = {}
    for d in ds:
        s, why = spelled(w, h, fn, [d])
        code[d] = s
        if why is None:
            if not s.startswith("f"):
                why = "the name does not start with the declaration's: %s" % s
            elif s in seen:
                why = "an instance for %s and one for %s are both %s" % (text(seen[s]), text(d), s)
            seen.setdefault(s, d)
        ctx.check(why is None, "R4-names", "one argument %s" % text(d), fn.loc(), why)
    if any(v is None for v in code.values()):
        return
    # two and three arguments: concatenations of the parts that the single names have
    h2, why = spelled(w, h, fn, [])
    pre = 0
    while all(s[pre:pre + 1] == next(iter(code.values()))[pre:pre + 1] for s in code.values()) and s_ok(code, pre):
        pre += 1
    inner = {d: s[len(h2) - 1:-1] for d, s in code.items()} if why is None and h2 and all(s.startswith(h2[:-1]) and s[-1] == h2[-1] for s in code.values()) else None
    if inner is None:
        raise AnalysisBroken("the names of instances are not made of a prefix, the arguments and a suffix: %s" % sorted(code.values())[:3])
    for a, b in ((I32, nm("A")), (nm("A"), I32), (CI, CH)):
        s, why = spelled(w, h, fn, [a, b])
        if s != h2[:-1] + inner[a] + inner[b] + h2[-1]:
            raise AnalysisBroken("the name of an instance is not the sequence of its arguments: %s" % s)
    alls = {}
    for n in (0, 1, 2):
        for ts in itertools.product(ds, repeat=n):
            alls.setdefault("".join(inner[t] for t in ts), []).append(ts)
    # ... and three, of the types whose parts are made of names or single letters
    three = [d for d in ds if d[0] == "named" or d in (I32, CH, CI, V, ("ptr", CH, ()), ("ptr", CI, ()))]
    for ts in itertools.product(three, repeat=3):
        alls.setdefault("".join(inner[t] for t in ts), []).append(ts)
    clash = {}
    for s, tss in alls.items():
        if len(tss) > 1:
            clash.setdefault(tuple(sorted({t[0] for ts in tss[:2] for t in ts})), (s, tss))
    for d in ds:
        c = next(((s, tss) for s, tss in clash.values() if any(d in ts for ts in tss)), None)
        ctx.check(c is None, "R4-arguments", "several arguments, with %s" % text(d), fn.loc(),
                  c and "instances for (%s) and for (%s) are both f...%s" % (", ".join(map(text, c[1][0])), ", ".join(map(text, c[1][1])), c[0]))
    a, b = spelled(w, h, fn, [I32], 1)[0], spelled(w, h, fn, [I32], 0)[0]
    ctx.check(a != b, "R4-names", "const functions", fn.loc(), "a const function and one that is not are both %s" % a)
    for d in ds:
        s = code[d]
        ctx.check(all(c.isalnum() or c == "_" for c in s), "R4-identifiers", text(d), fn.loc(), "%s is no identifier" % s)
    ctx.floor("R4-arguments", 70)
    ctx.note_count("sequences of arguments", len(alls)) if hasattr(ctx, "note_count") else None


def s_ok(code, pre):
    return pre < min(map(len, code.values()))


def run(ctx):
    import prog
    P = prog.full()
    ctx.rule("R1-hash", "the hash of a type is computed from the type alone")
    ctx.rule("R1-equality", "two types compare equal exactly if they are the same type, and equal types have the same hash")
    ctx.rule("R1-functions", "overloads are compared by their names, scopes, parameters and result, or by their signature alone")
    ctx.rule("R2-anonymous", "a struct literal has the type of an anonymous struct exactly if their fields have the same names and types")
    ctx.rule("R3-interned", "each constructor of the type table returns the type that is there, unchanged, or inserts one that holds what it was given in memory of its own")
    ctx.rule("R4-names", "the instances of a generic declaration for different arguments have different names")
    ctx.rule("R4-arguments", "the spellings of several arguments never run into each other")
    ctx.rule("R4-identifiers", "the name of an instance is an identifier")
    w = World(P)
    equality(ctx, w)
    anonymous(ctx, w)
    interning(ctx, w)
    mangling(ctx, w)
