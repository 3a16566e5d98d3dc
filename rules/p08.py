"""P08: source text becomes the syntax tree the language defines."""
import prog, grammar
from prog import walk
from absint import Engine, Limit, Policy, show, subterms, contains
from build import AnalysisBroken

LEVEL = "other"

# ---- the language definition -------------------------------------------------------------------------------------------
SYMBOLS = {
    "LParen": "(", "RParen": ")", "LBracket": "[", "RBracket": "]", "LBrace": "{", "RBrace": "}", "At": "@", "Hash": "#", "LNot": "!",
    "BNot": "~", "Dot": ".", "DotDot": "..", "Elipsis": "...", "Question": "?", "Comma": ",", "Colon": ":", "Semicolon": ";",
    "Assign": "=", "Equal": "==", "NotEqual": "!=", "FatArrow": "=>", "ThinArrow": "->", "Less": "<", "LessEqual": "<=", "Shl": "<<",
    "ShlEqual": "<<=", "Greater": ">", "GreaterEqual": ">=", "Shr": ">>", "ShrEqual": ">>=", "Plus": "+", "Minus": "-", "Mult": "*",
    "Div": "/", "Mod": "%", "BAnd": "&", "BXor": "^", "BOr": "|", "LAnd": "&&", "LOr": "||", "PlusPlus": "++", "MinusMinus": "--",
    "PlusEqual": "+=", "MinusEqual": "-=", "MultEqual": "*=", "DivEqual": "/=", "ModEqual": "%=", "BAndEqual": "&=", "BAndDot": "&.",
    "BXorEqual": "^=", "BOrEqual": "|=", "Quote": "`", "Substitutue": "#{", "IndexExpr": ".[", "AstMacroAccess": "#.", "Define": "##",
    "BangColon": "!:"}
KEYWORDS = dict((k, k.lower()) for k in (
    "Virtual Auto True False Null If Else Match For In Is While Break Return Yield Continue Func Var Const Type Native Extern Exception "
    "Struct Enum Pub Opaque Catch Raise Async Launch Ptrof Await Delete Discard Switch Case Default Defer Macro Void String Range Module "
    "Import Include As Asm From Unsafe Interface This Super Class Defined Test").split())
KEYWORDS.update(ThisClass="This", CDefine="cDefine", CInclude="cInclude", CSources="cSources", CBuild="__cc")
PRIMS = {"Bool": "bool", "Char": "wchar", "CChar": "char", "I8": "i8", "U8": "u8", "I16": "i16", "U16": "u16", "I32": "i32", "U32": "u32",
         "I64": "i64", "U64": "u64", "F32": "f32", "F64": "f64"}
# operator: (precedence, token, spelling); a smaller precedence binds tighter
BINARY = {"Range": (13, "DotDot", ".."), "Catch": (10, "Catch", "catch"), "Add": (3, "Plus", "+"), "Sub": (3, "Minus", "-"),
          "Mul": (2, "Mult", "*"), "Div": (2, "Div", "/"), "Mod": (2, "Mod", "%"), "BAnd": (7, "BAnd", "&"), "BOr": (9, "BOr", "|"),
          "BXor": (8, "BXor", "^"), "Shl": (4, "Shl", "<<"), "Shr": (4, "Shr", ">>"), "Eq": (6, "Equal", "=="), "Ne": (6, "NotEqual", "!="),
          "Is": (6, "Is", "is"), "Gt": (5, "Greater", ">"), "Lt": (5, "Less", "<"), "Geq": (5, "GreaterEqual", ">="),
          "Leq": (5, "LessEqual", "<="), "LAnd": (11, "LAnd", "&&"), "LOr": (12, "LOr", "||")}
ASSIGN = {"Assign": ("Assign", "="), "Add": ("PlusEqual", "+="), "Sub": ("MinusEqual", "-="), "Mul": ("MultEqual", "*="),
          "Div": ("DivEqual", "/="), "Mod": ("ModEqual", "%="), "BAnd": ("BAndEqual", "&="), "BOr": ("BOrEqual", "|="),
          "BXor": ("BXorEqual", "^="), "Shl": ("ShlEqual", "<<="), "Shr": ("ShrEqual", ">>=")}
PREFIX = {"PreDec": ("MinusMinus", "--"), "PreInc": ("PlusPlus", "++"), "Minus": ("Minus", "-"), "Plus": ("Plus", "+"),
          "Deref": ("Mult", "*"), "Not": ("LNot", "!"), "Compl": ("BNot", "~"), "Refof": ("BAnd", "&"), "Move": ("LAnd", "&&"),
          "Spread": ("Elipsis", "..."), "Await": ("Await", "await"), "Delete": ("Delete", "delete"), "Ptrof": ("Ptrof", "ptrof")}
POSTFIX = {"PostDec": ("MinusMinus", "--"), "PostInc": ("PlusPlus", "++")}
# the parts of a node in the order in which they are written
ORDER = {
    "assignExpr": "lhs rhs", "binaryExpr": "lhs rhs", "ternaryExpr": "cond body otherwise", "ifStmt": "cond body otherwise",
    "forStmt": "var range body", "whileStmt": "cond body", "switchStmt": "cond cases", "caseStmt": "match variable body",
    "matchStmt": "expr cases", "rangeExpr": "start end step", "closureExpr": "params ret body", "funcType": "params ret",
    "arrayType": "elementType dim", "fieldExpr": "value", "structField": "type value", "varDecl": "names type init",
    "funcParam": "type def", "enumDecl": "base options", "classDecl": "base members", "asmOperand": "operand",
    "macroDecl": "params body", "genericDecl": "params decl", "inlineAssembly": "outputs inputs clobbers",
    "typedExpr": "expr type", "indexExpr": "target index", "memberExpr": "target member", "callExpr": "callee args",
    "genericParam": "constraints defaultValue", "xForm": "target args xForm cond", "program": "module top decls", "define": "names type container"}
ISBITS = {0x100: "upper", 0x200: "lower", 1024: "alpha", 2048: "digit", 4096: "xdigit", 8192: "space", 8: "alnum", 4: "punct"}


def fld(b, *names):
    for n in names:
        b = ("fld", b, n)
    return b


def run(ctx):
    P = prog.full()
    ctx.rule("R1-spelling", "each token is produced by exactly its own spelling, and the longest one wins")
    ctx.rule("R2-number", "a number literal is read in the base of its prefix, from its first digit, over digits of that base")
    ctx.rule("R3-keyword", "a word is a keyword exactly when it is spelled as one")
    ctx.rule("R4-operator", "every operator has its own token, spelling and precedence")
    ctx.rule("R5-precedence", "binary operators bind by precedence and associate to the left")
    ctx.rule("R6-expression", "assignment, ?:, prefix and postfix expressions take their operands and operator from their own positions")
    ctx.rule("R7-order", "the parts of a node are the subtrees read at the corresponding positions of the source")
    ctx.rule("R8-dropped", "no subtree that was read is dropped")
    ctx.rule("R9-literal", "a literal node carries the value and sign of its token")
    ctx.rule("R10-modifier", "a modifier keyword sets exactly its own flag")
    ctx.rule("R11-role", "types are read where a type is expected and expressions where an expression is expected")
    ctx.rule("R13-name", "a renamed entity keeps its own name and its alias apart")
    ctx.rule("R12-sign", "a signed literal carries the sign written in front of it")
    grammar.grammar_fns(P)
    jobs = [lambda c: symbols(P, c), lambda c: keywords(P, c), lambda c: operators(P, c), lambda c: precedence(P, c),
            lambda c: expressions(P, c), lambda c: literals(P, c), lambda c: names(P, c)]
    slow = ["block", "parsePath", "program"]
    fns = [n for n in grammar.grammar_fns(P) if n in grammar.KNOWN]
    for n in slow + [x for x in fns if x not in slow]:
        jobs.append(lambda c, n=n: shapes(P, c, n))
    res = ctx.fork(jobs)
    kinds = set()
    n = 0
    for r in res[6:]:
        if r:
            kinds |= set(r)
            n += 1
    if len(kinds) < 30 or n < 60:
        raise AnalysisBroken("only %d node kinds built by %d grammar functions were recognised" % (len(kinds), n))


# ---- the scanner ----------------------------------------------------------------------------------------------------------
BUF = ("*", fld(("*", ("p", 0)), "buffer"))
DATA = ("*", fld(BUF, "fileData"))


def ch(k):
    return DATA if k == 0 else ("idx", DATA, k)


def scan(P):
    pol = Policy()
    pol.opaque = frozenset({"logError", "strtoumax", "strtoull", "strtoul", "strtod", "findInHashTable", "multilineString",
                            "skipMultiLineComment", "skipSingleLineComment", "convertEscapeSeq", "skipUntilSpaceOrPunctuation", "hashRawBytes"})
    pol.pure = frozenset({"__ctype_b_loc"})
    pol.loop_bound = 1
    pol.bound_endless = True
    pol.max_states = 20000
    e = Engine(P, pol)

    def init(eng, st):
        eng.write(st, fld(("*", ("p", 0)), "flags"), 0)
        eng.write(st, fld(BUF, "fileSize"), 1000)
        eng.write(st, fld(BUF, "filePos", "byteOffset"), 0)
        eng.write(st, fld(BUF, "prev"), 0)
        eng.set_fact(st, fld(("*", ("p", 0)), "buffer"), ne=0)
        # the first character is not a blank
        sp = ("band", ("idx", ("*", ("*", ("call", "__ctype_b_loc", (), None))), DATA), 8192)
        eng.set_fact(st, sp, lo=0, hi=0)
    f = P.need("advanceLexer", "frontend/lexer")
    return f, e, e.run(f, init)


def ofield(v, *path):
    if not (isinstance(v, tuple) and v[0] == "obj"):
        return None
    for p, x in v[2]:
        if tuple(s[1] for s in p) == path:
            return x
    return None


def offset(pos):
    """the byte offset of a FilePos value"""
    v = ofield(pos, "byteOffset")
    return v if isinstance(v, int) else None


class Chars:
    """what a path knows about the input's characters"""

    def __init__(self, p):
        self.p = p
        self.cls = {}
        self.consts = []
        for t, f in p.st.facts.items():
            if isinstance(t, tuple) and t[0] == "band" and isinstance(t[2], int) and isinstance(t[1], tuple) and t[1][0] == "idx":
                k = self.index(t[1][2])
                if isinstance(t[1][2], int) and 0 <= t[1][2] < 256 and t[2] in ISBITS:
                    b = True if (0 in f[2] or f[0] > 0) else False if f[0] == f[1] == 0 else None
                    if b is not None:
                        self.consts.append((chr(t[1][2]), ISBITS[t[2]], b))
                if k is not None and t[2] in ISBITS:
                    b = True if (0 in f[2] or f[0] > 0) else False if f[0] == f[1] == 0 else None
                    if b is not None:
                        self.cls[(k, ISBITS[t[2]])] = b

    @staticmethod
    def index(t):
        while isinstance(t, tuple) and t[0] == "cast":
            t = t[2]
        if t == DATA:
            return 0
        if isinstance(t, tuple) and t[0] == "idx" and t[1] == DATA and isinstance(t[2], int):
            return t[2]
        return None

    def fact(self, k):
        return self.p.st.facts.get(ch(k))

    def pinned(self, k):
        f = self.fact(k)
        if f and f[0] is not None and f[0] == f[1] and 0 <= f[0] < 256:
            return chr(f[0])
        return None

    def excludes(self, k, c):
        f = self.fact(k)
        if f is None:
            return False
        o = ord(c)
        return o in f[2] or (f[0] is not None and o < f[0]) or (f[1] is not None and o > f[1])

    def within(self, k, lo, hi):
        f = self.fact(k)
        return f is not None and f[0] is not None and f[1] is not None and f[0] >= ord(lo) and f[1] <= ord(hi)


def impossible(c):
    """a path whose character classes contradict a character it has pinned"""
    known = [(c.pinned(k), name, b) for (k, name), b in c.cls.items()] + c.consts
    for x, name, b in known:
        if x is None:
            continue
        t = {"alpha": x.isalpha(), "digit": x.isdigit(), "xdigit": x in "0123456789abcdefABCDEF", "space": x in " \t\n\v\f\r",
             "alnum": x.isalnum(), "punct": x.isprintable() and not x.isalnum() and x != " ", "upper": x.isupper(), "lower": x.islower()}[name]
        if t != b:
            return True
    return False


def symbols(P, ctx):
    f, e, ps = scan(P)
    ctx.engine(e)
    tags = {P.enum("tok" + n): n for n in SYMBOLS}
    other = {P.enum("tok" + n): n for n in ("Ident", "IntLiteral", "FloatLiteral", "StringLiteral", "CharLiteral", "EoF", "Error", "LString")}
    made = {}
    numbers = 0
    words = 0
    spell = {v: k for k, v in SYMBOLS.items()}
    ext = dict(spell)
    ext["//"] = "comment"
    ext["/*"] = "comment"
    bad = {}
    for p in ps:
        tag = ofield(p.ret, "tag")
        b, en = offset(ofield(p.ret, "fileLoc", "begin")), offset(ofield(p.ret, "fileLoc", "end"))
        c = Chars(p)
        if impossible(c):
            continue
        if tag in tags and b is not None and en is not None:
            n = tags[tag]
            s = "".join(c.pinned(k) or "?" for k in range(b, en))
            made.setdefault(n, set()).add(s)
            if s != SYMBOLS[n]:
                bad.setdefault(n, "tok%s is produced by `%s` instead of `%s`" % (n, s, SYMBOLS[n]))
                continue
            if offset_now(p) != en:
                bad.setdefault(n, "after tok%s the scanner continues at another position than its end" % n)
            for o in ext:
                if len(o) > len(s) and o.startswith(s) and not any(c.excludes(b + i, o[i]) for i in range(len(s), len(o))):
                    bad.setdefault(n, "tok%s is produced without ruling out `%s`" % (n, o))
        elif tag in other and other[tag] in ("IntLiteral", "FloatLiteral"):
            numbers += number(ctx, P, f, p, c, other[tag], b)
        elif isinstance(tag, tuple) or (tag in other and other[tag] == "Ident"):
            words += word(ctx, P, f, p, c, tag, b)
    for n in SYMBOLS:
        w = bad.get(n)
        if w is None and n not in made:
            w = "no path of the scanner produces tok%s" % n
        ctx.check(w is None, "R1-spelling", "tok%s" % n, f.loc(), w or "")
    if numbers < 5:
        raise AnalysisBroken("only %d number literal paths recognised" % numbers)
    if words < 2:
        raise AnalysisBroken("only %d identifier paths recognised" % words)


def offset_now(p):
    return p.st.mem.get(fld(BUF, "filePos", "byteOffset"))


def at(t):
    """k when t is &data[k]"""
    if isinstance(t, tuple) and t[0] == "&":
        return Chars.index(t[1])
    if isinstance(t, tuple) and t[0] == "+" and t[1] == DATA[1] and isinstance(t[2], int):
        return t[2]
    return 0 if t == DATA[1] else None


def uncast(t):
    while isinstance(t, tuple) and t[0] == "cast":
        t = t[2]
    return t


def number(ctx, P, f, p, c, kind, b):
    v = uncast(ofield(p.ret, "iVal" if kind == "IntLiteral" else "fVal"))
    end = offset(ofield(p.ret, "fileLoc", "end"))
    if not (isinstance(v, tuple) and v[0] == "call"):
        ctx.bad("R2-number", "%s value" % kind, f.loc(), "the literal's value is %s" % show(v))
        return 1
    start = at(v[2][0])
    pre = (c.pinned(b), c.pinned(b + 1))
    base, first = {("0", "b"): (2, b + 2), ("0", "x"): (16, b + 2), ("0", "o"): (8, b + 2)}.get(pre, (10, b))
    inst = "%s base %d" % (kind, base)
    if start != first:
        ctx.bad("R2-number", inst, f.loc(), "digits are read from character %s instead of %d" % (start, first - b))
        return 1
    if kind == "IntLiteral":
        ctx.check(v[1] in ("strtoumax", "strtoull", "strtoul") and len(v[2]) > 2 and v[2][2] == base, "R2-number", inst, f.loc(),
                  "a literal with prefix %s is read as %s" % (pre if base != 10 else "none", show(v)))
    else:
        ctx.check(v[1] in ("strtod", "strtold"), "R2-number", inst, f.loc(), "a floating-point literal is read as %s" % show(v))
        dots = [k for k in range(b, end) if c.pinned(k) == "."]
        ctx.check(len(dots) == 1, "R2-number", inst + " dot", f.loc(), "a floating-point literal without exactly one `.`")
    good = True
    for k in range(first, end):
        if base == 2:
            good = good and c.within(k, "0", "1")
        elif base == 8:
            good = good and c.within(k, "0", "7")
        elif base == 16:
            good = good and c.cls.get((k, "xdigit")) is True
        elif kind == "IntLiteral":
            good = good and isdigit(c, k)
        else:
            good = good and (isdigit(c, k) or c.pinned(k) in (".", "e", "E", "+", "-"))
    ctx.check(good, "R2-number", inst + " digits", f.loc(), "a literal of base %d extends over characters that are not digits of that base" % base)
    if base != 10:
        ctx.check(c.cls.get((end, "space")) or c.cls.get((end, "punct")), "R2-number", inst + " end", f.loc(),
                  "a literal of base %d may be followed by another letter or digit" % base)
    return 1


def isdigit(c, k):
    return c.cls.get((k, "digit")) is True or c.within(k, "0", "9")


def word(ctx, P, f, p, c, tag, b):
    fs = p.calls("findInHashTable")
    if not fs:
        return 0
    end = offset_now(p)
    found = e_truth(p, fs[-1].res)
    key = fs[-1].args[1]
    ident = P.enum("tokIdent")
    if found:
        ctx.check(contains(tag, lambda t: t == fs[-1].res), "R3-keyword", "keyword tag", f.loc(), "a keyword becomes token %s" % show(tag))
    else:
        ctx.check(tag == ident, "R3-keyword", "identifier tag", f.loc(), "a word that is no keyword becomes token %s" % show(tag))
    h = p.calls("hashRawBytes")
    if h:
        ctx.check(at(h[-1].args[1]) == b and h[-1].args[2] == end - b, "R3-keyword", "word extent", f.loc(),
                  "the word looked up is not the word read: %s, %s" % (show(h[-1].args[1]), show(h[-1].args[2])))
    return 1


def e_truth(p, t):
    f = p.st.facts.get(t)
    return f is not None and (0 in f[2] or (f[0] is not None and f[0] > 0))


def keywords(P, ctx):
    fs = [f for f in P.all_fns() if f.file.endswith("frontend/lexer.c") and any(n == "insertInHashTable" for n, _ in P.calls(f))]
    if len(fs) != 1:
        raise AnalysisBroken("%d functions register keywords" % len(fs))
    f = fs[0]
    want = dict(KEYWORDS)
    want.update(PRIMS)
    pol = Policy()
    pol.opaque = frozenset({"insertInHashTable", "hashStr", "hashRawBytes"})
    pol.models = {"insertInHashTable": registered}
    pol.max_states = 20000
    e = Engine(P, pol)
    ps = e.run(f)
    ctx.engine(e)
    got = {}
    for p in ps:
        for ev in p.events:
            if ev.kind == "reg":
                o = ev.args[1]
                vals = {pp[-1][1]: v for pp, v in o[2]} if isinstance(o, tuple) and o[0] == "obj" else {}
                nm, tag, ln = vals.get("name"), vals.get("tag"), vals.get("len")
                if isinstance(nm, tuple) and nm[0] == "str":
                    got.setdefault(tag, set()).add(nm[1])
                    h = ev.args[2]
                    hs = [t for t in subterms(h) if isinstance(t, tuple) and t[0] == "str"]
                    okl = ln == len(nm[1]) or (isinstance(ln, tuple) and contains(ln, lambda t: t == nm))
                    ctx.check(okl and hs == [nm], "R3-keyword", "registration of `%s`" % nm[1], f.loc(),
                              "`%s` is registered under the hash of %s with length %s" % (nm[1], [x[1] for x in hs], show(ln)))
    n = 0
    for k, s in want.items():
        v = P.econst.get("tok" + k)
        if v is None:
            continue
        n += 1
        ctx.check(got.get(v) == {s}, "R3-keyword", "tok%s" % k, f.loc(), "tok%s is spelled %s instead of `%s`" % (k, sorted(got.get(v, ())), s))
    if n < 60:
        raise AnalysisBroken("only %d keywords" % n)
    # the comparison looks at the length and at every byte
    cmp = [x for x in P.all_fns() if x.file.endswith("frontend/lexer.c") and x.name == "compareKeywords"]
    for g in cmp:
        pol = Policy()
        pol.only = frozenset()
        e = Engine(P, pol)
        for p in e.run(g):
            if e.truth(p.st, p.ret) is False:
                continue
            m = [t for t in list(p.st.facts) + [p.ret] for t in subterms(t) if isinstance(t, tuple) and t[0] == "call" and t[1] in ("memcmp", "strncmp")]
            lens = [t for t in p.st.facts if contains(t, lambda x: isinstance(x, tuple) and x[0] == "fld" and x[2] == "len")]
            ctx.check(bool(m) and bool(lens), "R3-keyword", "compareKeywords", g.loc(), "words compare equal without comparing length and text")


def registered(eng, st, fr, args, node):
    from absint import Ev
    a = list(args)
    if isinstance(a[1], tuple) and a[1][0] == "&":
        a[1] = eng.load_obj(st, a[1][1])
    eng.record(st, Ev("reg", "keyword", tuple(a), fr.fn.loc(node[1]), None, fr.fn.name, node))
    return [(st, 1)]


# ---- the operator tables -----------------------------------------------------------------------------------------------------
def table(P, ctx, name):
    """{argument value: returned value} of a function that maps one enumerator to a constant; paths without a fixed argument give None"""
    f = P.need(name, "frontend")
    pol = Policy()
    pol.max_states = 20000
    e = Engine(P, pol)
    out = {}
    for p in e.run(f):
        fa = p.st.facts.get(("p", 0))
        k = fa[0] if fa and fa[0] == fa[1] else None
        out.setdefault(k, set()).add(p.ret)
    ctx.engine(e)
    return f, out


def operators(P, ctx):
    def one(name, want, show_key):
        f, t = table(P, ctx, name)
        for k, v in want.items():
            ctx.check(t.get(k) == {v}, "R4-operator", "%s(%s)" % (name, show_key[k]), f.loc(),
                      "%s(%s) yields %s instead of %s" % (name, show_key[k], ", ".join(map(show, t.get(k, t.get(None, ())))), show(v)))
        return f, t
    op = lambda n: P.enum("op" + n)
    tk = lambda n: P.enum("tok" + n)
    f, t = one("tokenToBinaryOperator", {tk(x[1]): op(n) for n, x in BINARY.items()}, {tk(x[1]): "tok" + x[1] for x in BINARY.values()})
    bt = {tk(x[1]) for x in BINARY.values()}
    extra = [k for k, v in t.items() if k is not None and k not in bt and v != {op("Invalid")}]
    ctx.check(not extra and t.get(None) == {op("Invalid")}, "R4-operator", "tokenToBinaryOperator(other)", f.loc(),
              "tokens %s are binary operators" % extra)
    one("tokenToUnaryOperator", {tk(x[0]): op(n) for n, x in PREFIX.items()}, {tk(x[0]): "tok" + x[0] for x in PREFIX.values()})
    one("tokenToPostfixUnaryOperator", {tk(x[0]): op(n) for n, x in POSTFIX.items()}, {tk(x[0]): "tok" + x[0] for x in POSTFIX.values()})
    one("tokenToAssignmentOperator", {tk(x[0]): op(n) for n, x in ASSIGN.items()}, {tk(x[0]): "tok" + x[0] for x in ASSIGN.values()})
    f, t = one("isAssignmentOperator", {tk(x[0]): 1 for x in ASSIGN.values()}, {tk(x[0]): "tok" + x[0] for x in ASSIGN.values()})
    at_ = {tk(x[0]) for x in ASSIGN.values()}
    extra = [k for k, v in t.items() if k not in at_ and v != {0}]
    ctx.check(not extra, "R4-operator", "isAssignmentOperator(other)", f.loc(), "tokens %s start an assignment" % extra)
    names = {op(n): "op" + n for n in list(BINARY) + list(PREFIX) + list(POSTFIX) + ["Assign"]}
    one("getBinaryOpString", {op(n): ("str", x[2]) for n, x in BINARY.items()}, names)
    one("getUnaryOpString", {op(n): ("str", x[1]) for n, x in list(PREFIX.items()) + list(POSTFIX.items())}, names)
    one("getAssignOpString", {op(n): ("str", x[1]) for n, x in ASSIGN.items()}, names)
    # primitive type names
    f = P.fn("tokenToPrimitiveTypeId", "frontend")
    if f:
        want = {tk(n): P.enum("prt" + n) for n in PRIMS if "tok" + n in P.econst and "prt" + n in P.econst}
        one("tokenToPrimitiveTypeId", want, {tk(n): "tok" + n for n in PRIMS if "tok" + n in P.econst})


# ---- expressions ----------------------------------------------------------------------------------------------------------------
def tagof(eng_or_p, t):
    f = eng_or_p.st.facts.get(t)
    if f and f[0] is not None and f[0] == f[1]:
        return f[0]
    return t if isinstance(t, int) else None


def precedence(P, ctx):
    """run the operator loop for every bound it can be called with and see which operators it takes"""
    tk = {P.enum("tok" + x[1]): n for n, x in BINARY.items()}
    f = grammar.grammar_fns(P).get("binary")
    if f is None:
        raise AnalysisBroken("the binary expression parser was not found")
    # bounds handed out: by the other grammar functions and by the loop itself
    bounds = {}
    start = None
    for n, g in grammar.grammar_fns(P).items():
        if n != "binary" and any(x == "binary" for x, _ in P.calls(g)) and n in grammar.KNOWN:
            ps, e = grammar.run(P, n)
            for p in ps:
                for ev in p.calls("binary"):
                    start = ev.args[2]
                    bounds.setdefault(start, []).append((n, g))
    maxop = max(x[0] for x in BINARY.values())
    if start is None:
        raise AnalysisBroken("no caller of the binary expression parser")
    todo = list(bounds)
    done = {}
    n = 0
    for b in todo:
        if not isinstance(b, int):
            b2 = max_precedence(P, b)
            if b2 is None:
                raise AnalysisBroken("precedence bound %s" % show(b))
            done[b] = accepted(P, ctx, f, b2, tk)
        else:
            done[b] = accepted(P, ctx, f, b, tk)
        for g, _ in bounds[b]:
            take = done[b][0]
            miss = [x for x in BINARY if x not in take]
            ctx.check(not miss, "R5-precedence", "%s: all operators" % g, f.loc(), "an expression does not continue with operators %s" % miss)
        seen = {}
        for name, rb in done[b][1]:
            seen.setdefault(name, set()).add(rb)
        for name, rbs in seen.items():
            for rb in rbs:
                if not isinstance(rb, int):
                    ctx.bad("R5-precedence", "right operand of %s" % name, f.loc(), "the right operand is read with bound %s" % show(rb))
                    continue
                t2 = done.get(rb) or accepted(P, ctx, f, rb, tk)
                done[rb] = t2
                pr = BINARY[name][0]
                want = {x for x in BINARY if BINARY[x][0] < pr}
                extra, miss = sorted(t2[0] - want), sorted(want - t2[0])
                n += 1
                ctx.check(not extra and not miss, "R5-precedence", "right operand of %s" % name, f.loc(),
                          "the right operand of `%s` %s" % (BINARY[name][2], " and ".join(
                              (["wrongly includes following %s" % extra] if extra else []) + (["wrongly ends before %s" % miss] if miss else []))))
    if n < len(BINARY):
        raise AnalysisBroken("only %d operators recognised in the binary expression parser" % n)


def max_precedence(P, t):
    """the bound kept in a variable that is filled on first use"""
    g = P.fn("getMaxBinaryOpPrecedence", "frontend")
    if g is None:
        return None
    pol = Policy()
    e = Engine(P, pol)
    vals = {p.ret for p in e.run(g) if isinstance(p.ret, int)}
    return vals.pop() if len(vals) == 1 else None


def accepted(P, ctx, f, bound, tk):
    """(operators taken with this bound, [(operator, bound of its right operand)])"""
    def setup(eng, st):
        eng.write(st, ("v", 0, 0, 0), 0)
    ps, e = grammar.run(P, "binary", setup=lambda eng, st: (eng.set_fact(st, ("p", 2), lo=bound, hi=bound), eng.set_fact(st, ("p", 1), ne=0)))
    ctx.engine(e)
    take, rhs = set(), []
    refused = set()
    T = fld(("tk", -3), "tag")
    for p in ps:
        v = tagof(p, T)
        nodes = [x for x in p.events if x.kind == "node" and tagis(P, x, "astBinaryExpr")]
        if v not in tk:
            if nodes:
                ctx.bad("R5-precedence", "operator token", f.loc(), "a binary expression is built for token %s" % v)
            continue
        name = tk[v]
        if not nodes:
            refused.add(name)
            continue
        take.add(name)
        x = nodes[0]
        r = x.res
        lhs, op, rr = (grammar.node_field(r, "binaryExpr", q) for q in ("lhs", "op", "rhs"))
        ctx.check(lhs == ("p", 1) and op == P.enum("op" + name), "R6-expression", "binary %s" % name, x.loc,
                  "`%s` builds a node with left operand %s and operator %s" % (BINARY[name][2], show(lhs), show(op)))
        if isinstance(rr, tuple) and rr[0] == "call":
            ctx.check(rr[1] == "binary" and rr[2][1] == 0, "R6-expression", "binary %s right" % name, x.loc,
                      "the right operand of `%s` is %s" % (BINARY[name][2], show(rr)))
            rhs.append((name, rr[2][2] if rr[1] == "binary" else None))
        elif name != "Catch":
            ctx.bad("R6-expression", "binary %s right" % name, x.loc, "the right operand of `%s` is %s" % (BINARY[name][2], show(rr)))
        # the loop goes on with the node it has built
        if p.ret != r and len(nodes) == 1:
            ctx.bad("R6-expression", "binary %s result" % name, x.loc, "the expression built for `%s` is not the result" % BINARY[name][2])
    # `-` in front of a function is not taken
    return take, rhs


def tagis(P, ev, tag):
    return ofield(ev.args[1], "tag") == P.enum(tag)


def expressions(P, ctx):
    fns = grammar.grammar_fns(P)
    tk = lambda n: P.enum("tok" + n)
    # assignment
    amap = {tk(x[0]): n for n, x in ASSIGN.items()}
    ps, e = grammar.run(P, "assign")
    ctx.engine(e)
    f = fns["assign"]
    seen = set()
    for p in ps:
        pre = p.calls("prefix")
        if not pre:
            ctx.bad("R6-expression", "assign target", f.loc(), "the left side of an assignment is not a prefix expression")
            continue
        # the token after the left side
        nx = [t for t, x in p.st.facts.items() if isinstance(t, tuple) and t[0] == "fld" and t[2] == "tag" and t[1] == ("tk", pre[0].res[3] + 2)]
        t = tagof(p, nx[0]) if nx else None
        nodes = [x for x in p.events if x.kind == "node" and tagis(P, x, "astAssignExpr")]
        if t in amap:
            n = amap[t]
            seen.add(n)
            if not nodes:
                ctx.bad("R6-expression", "assign %s" % n, f.loc(), "`%s` does not build an assignment" % ASSIGN[n][1])
                continue
            x = nodes[0]
            l, o, r = (grammar.node_field(x.res, "assignExpr", q) for q in ("lhs", "op", "rhs"))
            ok = l == pre[0].res and o == P.enum("op" + n) and isinstance(r, tuple) and r[0] == "call" and r[1] in ("ternary", "expression") and p.ret == x.res
            ctx.check(ok, "R6-expression", "assign %s" % n, x.loc, "`%s` assigns %s %s %s" % (ASSIGN[n][1], show(l), show(o), show(r)))
        else:
            ok = not nodes and isinstance(p.ret, tuple) and p.ret[0] == "call" and p.ret[1] == "binary" and p.ret[2][1] == pre[0].res
            ctx.check(ok, "R6-expression", "assign other", f.loc(), "without an assignment operator the result is %s" % show(p.ret))
    if len(seen) < len(ASSIGN):
        ctx.bad("R6-expression", "assign operators", f.loc(), "no assignment is parsed for %s" % sorted(set(ASSIGN) - seen))
    # ternary
    ps, e = grammar.run(P, "ternary")
    ctx.engine(e)
    f = fns["ternary"]
    full = 0
    for p in ps:
        nodes = [x for x in p.events if x.kind == "node"]
        c = p.calls("assign")
        if not nodes:
            ctx.check(bool(c) and p.ret == c[0].res, "R6-expression", "ternary none", f.loc(), "without `?` the result is %s" % show(p.ret))
            continue
        x = nodes[0]
        cond, body, other = (grammar.node_field(x.res, "ternaryExpr", q) for q in ("cond", "body", "otherwise"))
        t = p.calls("ternary")
        two = len(t) == 2
        full += two
        ok = bool(c) and bool(t) and cond == c[0].res and other == t[-1].res and body == (t[0].res if two else 0) and p.ret == x.res
        ctx.check(ok, "R6-expression", "ternary %s" % ("?x:" if two else "?:"), x.loc,
                  "c ? a : b is parsed with condition %s, first %s, second %s" % (show(cond), show(body), show(other)))
        toks = consumed(p)
        want = [tk("Question"), tk("Colon")]
        ctx.check(toks == want, "R6-expression", "ternary tokens", x.loc, "c ? a : b is parsed over tokens %s" % toks)
    if not full:
        raise AnalysisBroken("no full ternary expression recognised")
    # prefix operators and signed literals
    ps, e = grammar.run(P, "prefix")
    ctx.engine(e)
    f = fns["prefix"]
    T, T1 = fld(("tk", -3), "tag"), fld(("tk", -2), "tag")
    pm = {tk(x[0]): n for n, x in PREFIX.items()}
    seen = set()
    for p in ps:
        v, v1 = tagof(p, T), tagof(p, T1)
        lit = [c for c in p.calls("parseInteger", "parseFloat") if p.ret == c.res]
        if lit:
            sign = lit[0].args[1]
            s = e.truth(p.st, sign) if not isinstance(sign, int) else bool(sign)
            ok = v in (tk("Minus"), tk("Plus")) and s == (v == tk("Minus")) and v1 == (tk("IntLiteral") if lit[0].name == "parseInteger" else tk("FloatLiteral"))
            ctx.check(ok, "R6-expression", "signed %s" % lit[0].name, f.loc(), "a literal after token %s is read with negation %s" % (v, show(sign)))
            continue
        nodes = [x for x in p.events if x.kind == "node" and p.ret == x.res]
        un = [x for x in nodes if ofield(x.args[1], "unaryExpr", "operand") is not None]
        if un:
            x = un[0]
            tag = ofield(x.args[1], "tag")
            want = {"Ptrof": "astPointerOf", "Refof": "astReferenceOf"}.get(pm.get(v), "astUnaryExpr")
            o, operand = grammar.node_field(x.res, "unaryExpr", "op"), grammar.node_field(x.res, "unaryExpr", "operand")
            pf = grammar.node_field(x.res, "unaryExpr", "isPrefix")
            n = pm.get(v)
            seen.add(n)
            ok = n is not None and tag == P.enum(want) and (o == P.enum("op" + n)) and isinstance(operand, tuple) and operand[0] == "call" and operand[1] == "prefix"
            if ok and want != "astPointerOf":
                ok = pf == 1
            ctx.check(ok, "R6-expression", "prefix %s" % n, x.loc, "token %s builds %s with operator %s over %s (prefix: %s)" % (v, tag, show(o), show(operand), show(pf)))
        elif isinstance(p.ret, tuple) and p.ret[0] == "call" and p.ret[1] == "postfix":
            ctx.check(v not in pm, "R6-expression", "prefix none", f.loc(), "prefix operator %s is ignored" % pm.get(v))
    miss = set(PREFIX) - seen
    ctx.check(not miss, "R6-expression", "prefix operators", f.loc(), "no prefix expression is parsed for %s" % sorted(miss))
    # postfix operators
    ps, e = grammar.run(P, "postfix", loop_bound=2)
    ctx.engine(e)
    f = fns["postfix"]
    om = {tk(x[0]): n for n, x in POSTFIX.items()}
    seen = set()
    for p in ps:
        un = [x for x in p.events if x.kind == "node" and tagis(P, x, "astUnaryExpr")]
        for x in un:
            o, operand, pf = (grammar.node_field(x.res, "unaryExpr", q) for q in ("op", "operand", "isPrefix"))
            prev = [c for c in p.events if c.kind in ("call", "node") and c.res is not None and c.res == operand]
            got = [tagof(p, fld(t, "tag")) for t in taken(p)]
            n = next((om[g] for g in got if g in om), None)
            seen.add(n)
            ok = n is not None and o == P.enum("op" + n) and bool(prev) and p.ret == x.res and pf == 0
            ctx.check(ok, "R6-expression", "postfix %s" % n, x.loc, "a postfix operator builds %s over %s" % (show(o), show(operand)))
    miss = set(POSTFIX) - seen
    ctx.check(not miss, "R6-expression", "postfix operators", f.loc(), "no postfix expression is parsed for %s" % sorted(miss))


def consumed(p):
    """tags of the tokens a path has consumed itself (as far as they are fixed)"""
    return [tagof(p, fld(t, "tag")) for t in taken(p)]


def taken(p):
    """the tokens a path has consumed itself: the current token at each fetch of a new one"""
    out = []
    cur = [("tk", -4), ("tk", -3), ("tk", -2), ("tk", -1)]
    for x in p.events:
        if x.kind != "call":
            continue
        if x.name == "advanceLexer_":
            out.append(cur[1])
            cur = [cur[1], cur[2], cur[3], x.res]
        elif x.res is not None and isinstance(x.args[-1], tuple) and x.args[-1][0] == "at":
            n = x.res[3]
            cur = [("tk", n + 1 + i) for i in range(4)]
    return out


# ---- literals --------------------------------------------------------------------------------------------------------------
def literals(P, ctx):
    fns = grammar.grammar_fns(P)
    from absint import binop
    n = 0
    for name, tag, member in (("parseInteger", "astIntegerLit", "intLiteral"), ("parseFloat", "astFloatLit", "floatLiteral"),
                              ("parseBool", "astBoolLit", "boolLiteral"), ("parseChar", "astCharLit", "charLiteral")):
        f = fns.get(name)
        if f is None:
            raise AnalysisBroken("literal parser %s not found" % name)
        pol = dict(record_fields=frozenset({"isNegative", "value", "uValue"}))
        ps, e = grammar.run(P, name, **pol)
        ctx.engine(e)
        tok = ("tk", -3)
        for p in ps:
            nodes = [x for x in p.events if x.kind == "node" and tagis(P, x, tag)]
            if not nodes:
                continue
            x = nodes[0]
            neg = e.truth(p.st, ("p", 1)) if name in ("parseInteger", "parseFloat") else None
            want_tok = {"parseInteger": "IntLiteral", "parseFloat": "FloatLiteral", "parseChar": "CharLiteral"}.get(name)
            got = consumed(p)
            if want_tok:
                ctx.check(got[:1] == [P.enum("tok" + want_tok)], "R9-literal", name + " token", x.loc, "the literal is read from token %s" % got[:1])
            final = {}
            for pp, v in (x.args[1][2] if x.args[1][0] == "obj" else ()):
                if len(pp) == 2 and pp[0][1] == member:
                    final[pp[1][1]] = v
            for w in p.events:
                if w.kind == "write" and contains(w.args[0], lambda t: t == x.res) and contains(w.args[0], lambda t: isinstance(t, tuple) and t[0] == "fld" and t[2] == member):
                    final[w.name] = w.args[1]
            n += 1
            if name == "parseInteger":
                v = uncast(final.get("value", final.get("uValue")))
                iv = [fld(tok, "iVal"), fld(tok, "uVal")]
                if neg:
                    v = uncast(final.get("value"))
                    ok = final.get("isNegative") == 1 and isinstance(v, tuple) and v[0] in ("-", "neg", "u-") and contains(v, lambda t: t in iv)
                else:
                    ok = final.get("isNegative", 0) == 0 and v in iv
                ctx.check(ok, "R9-literal", "%s %s" % (name, "negative" if neg else "positive"), x.loc,
                          "value %s, negative %s" % (show(v), show(final.get("isNegative", 0))))
            elif name == "parseFloat":
                v = uncast(final.get("value"))
                iv = fld(tok, "fVal")
                ok = (v == iv) if not neg else (isinstance(v, tuple) and v[0] in ("-", "neg", "u-") and contains(v, lambda t: t == iv) and v != iv)
                ctx.check(ok, "R9-literal", "%s %s" % (name, "negative" if neg else "positive"), x.loc, "value %s" % show(v))
            elif name == "parseChar":
                ctx.check(uncast(final.get("value")) == fld(tok, "cVal"), "R9-literal", name, x.loc, "value %s" % show(final.get("value")))
            else:
                v = final.get("value")
                t = tagof(p, fld(tok, "tag"))
                b = bool(v) if isinstance(v, int) else e.truth(p.st, v)
                ctx.check(b is not None and b == (t == P.enum("tokTrue")), "R9-literal", name, x.loc, "token %s becomes the literal %s" % (t, show(v)))
    if n < 6:
        raise AnalysisBroken("only %d literal nodes recognised" % n)


# ---- all other nodes -------------------------------------------------------------------------------------------------------
# an operator loop that ends by returning: its body has to be seen once before the return
BOUND = {"postfix": 2}
SKIP_DROP = {"parseMany", "parseMany2", "parseManyNoSeparator", "parseAtLeastOne", "block", "program", "parsePath"}


def root(lv):
    while isinstance(lv, tuple) and lv[0] in ("fld", "idx"):
        lv = lv[1]
    return lv


def reachable(p):
    """the grammar results a path returns, stores outside its own locals or hands to another function"""
    todo = [p.ret]
    under = []
    for lv, v in p.st.mem.items():
        r = root(lv)
        if not isinstance(r, tuple) or r[0] == "v" or r[0] == "lit":
            continue
        inside = [t for t in subterms(r) if isinstance(t, tuple) and t and t[0] in ("call", "node")]
        if inside:
            under.append((inside, v))
        else:
            todo.append(v)
    for x in p.events:
        if x.kind == "call":
            todo.extend(a for a in x.args if not (isinstance(a, tuple) and a and a[0] == "at"))
            # what the address of a local refers to is handed over too
            for a in x.args:
                if isinstance(a, tuple) and a[0] == "&":
                    rr = root(a[1])
                    todo.extend(v for lv, v in p.st.mem.items() if root(lv) == rr and isinstance(rr, tuple) and rr[0] == "v")
        elif x.kind == "write":
            inside = [t for t in subterms(x.args[0]) if isinstance(t, tuple) and t and t[0] in ("call", "node")]
            if inside:
                under.append((inside, x.args[1]))
            elif not (isinstance(root(x.args[0]), tuple) and root(x.args[0])[0] in ("v", "lit")):
                todo.append(x.args[1])
    keep = set()
    while todo:
        for v in todo:
            for t in subterms(v):
                if isinstance(t, tuple) and t and t[0] in ("call", "node"):
                    keep.add(t)
        todo = [v for i, v in under if any(t in keep for t in i)]
        under = [(i, v) for i, v in under if not any(t in keep for t in i)]
    return keep


def shapes(P, ctx, name):
    f = grammar.grammar_fns(P)[name]
    try:
        ps, e = grammar.run(P, name, max_states=4000, loop_bound=BOUND.get(name, 1), record_fields=frozenset({"next", "first", "flags"}))
    except Limit:
        return ()
    ctx.engine(e)
    kinds = set()
    bad = {}
    drop = {}
    good = set()
    for p in ps:
        when = {}
        for i, x in enumerate(p.events):
            if x.res is not None and x.kind in ("call", "node"):
                when[x.res] = i
        # where a value was read: a node built around subtrees counts from its first subtree
        def pos(v):
            i = when.get(v)
            if i is None:
                return None
            if v[0] == "node":
                inner = [pos(t) for t in subterms(v[2]) if isinstance(t, tuple) and t in when]
                inner = [k for k in inner if k is not None]
                return min(inner) if inner else None
            return i if isinstance(v, tuple) and v[0] == "call" and v[1] in grammar.KNOWN or v[1].startswith("<") else None
        for x in p.events:
            if x.kind != "node":
                continue
            o = x.args[1]
            if not (isinstance(o, tuple) and o[0] == "obj"):
                continue
            parts = {}
            for pp, v in o[2]:
                if len(pp) == 2 and pp[0][1] in ORDER and pp[1][1] in ORDER[pp[0][1]].split():
                    parts.setdefault(pp[0][1], {})[pp[1][1]] = v
            for m, d in parts.items():
                last, lastn = -1, None
                good.add(m)
                kinds.add(m)
                used = {}
                for q in ORDER[m].split():
                    v = d.get(q)
                    if not isinstance(v, tuple):
                        continue
                    if v in used and v in when:
                        bad.setdefault(m, (x.loc, "%s and %s are the same subtree %s" % (used[v], q, show(v))))
                    used[v] = q
                    k = pos(v)
                    if k is None:
                        continue
                    if k < last:
                        bad.setdefault(m, (x.loc, "%s is read before %s" % (q, lastn)))
                    last, lastn = k, q
        if name in SKIP_DROP or p.ret == 0 or any(x.kind == "call" and x.name in grammar.KNOWN and e.truth(p.st, x.res) is False for x in p.events):
            continue
        # every subtree read has to end up somewhere
        keep = reachable(p)
        # nor may it only have been tested
        for x in p.events:
            if x.kind == "call" and x.res is not None and isinstance(x.res, tuple) and x.name in grammar.KNOWN and x.res not in keep \
                    and e.truth(p.st, x.res) is not False:
                drop.setdefault(x.name, (x.loc, "the subtree read by %s() is dropped" % x.name))
            elif x.kind == "call":
                good.add("keep")
    modifiers(P, ctx, f, name, ps, e)
    roles(P, ctx, f, name, ps)
    signs(P, ctx, f, name, ps, e)
    for m in sorted(kinds):
        w = bad.get(m)
        ctx.check(w is None, "R7-order", "%s builds %s" % (name, m), w[0] if w else f.loc(), w[1] if w else "")
    if ps and name not in SKIP_DROP:
        if drop:
            for k, w in sorted(drop.items()):
                ctx.bad("R8-dropped", "%s: %s" % (name, k), w[0], w[1])
        else:
            ctx.ok("R8-dropped", name)
    return tuple(kinds) or ("-",)


# ---- modifiers ------------------------------------------------------------------------------------------------------------
MODS = {"Const": ("Const",), "Async": ("Async",), "Elipsis": ("Variadic",), "Pub": ("Public",), "Virtual": ("Virtual",), "Unsafe": ("Unsafe",),
        "Default": ("Default",), "Quote": ("Annotation",), "Hash": ("Comptime", "Builtin")}
_roles = None


def declared_roles(P):
    """{function: {argument position: flag}} for the modifiers a declaration hands to the function that parses the rest of it"""
    global _roles
    if _roles is None:
        _roles = {}
        for d, names in (("declaration", ("Pub", "Extern")), ("parseClassOrStructMember", ("Minus", "Virtual"))):
            ps, e = grammar.run(P, d, max_states=4000)
            for n, flag in zip(names, ("Public", "Extern") if d == "declaration" else ("Private", "Virtual")):
                t = P.enum("tok" + n)
                seen = {}
                for p in ps:
                    had = t in consumed(p)
                    for x in calls_of(p):
                        if x.name in grammar.KNOWN and x.name not in ("attributes", "parseIdentifier"):
                            for i, a in enumerate(x.args):
                                if a in (0, 1) and not isinstance(a, bool):
                                    seen.setdefault((x.name, i), set()).add((had, a))
                for (fn, i), v in seen.items():
                    if v == {(True, 1), (False, 0)}:
                        _roles.setdefault(fn, {})[i] = flag
                    elif v == {(True, 0), (False, 1)}:
                        _roles.setdefault(fn, {})[i] = "Public" if flag == "Private" else "!" + flag
    return _roles


def bits(t):
    """(constants or-ed together in a flags expression, whether something else is or-ed in)"""
    if isinstance(t, int):
        return t, False
    if isinstance(t, tuple) and t and t[0] in ("|", "bor"):
        a, b = bits(t[1]), bits(t[2])
        return a[0] | b[0], a[1] or b[1]
    if isinstance(t, tuple) and t and t[0] == "cast":
        return bits(t[2])
    return 0, True


def modifiers(P, ctx, f, name, ps, e):
    flag = lambda n: P.flag("flg" + n)
    role = declared_roles(P).get(name, {})
    seen, bad = set(), {}
    for p in ps:
        got = consumed(p)
        own = 0
        handed = 0
        for x in p.events:
            if x.kind == "node":
                v = ofield(x.args[1], "flags")
                if v is not None:
                    own |= bits(v)[0]
            elif x.kind == "write" and x.name == "flags":
                own |= bits(x.args[1])[0]
            elif x.kind == "call" and x.name in grammar.KNOWN:
                for a in x.args:
                    if isinstance(a, (int, tuple)) and not (isinstance(a, tuple) and a and a[0] == "at"):
                        handed |= bits(a)[0]
        if p.ret == 0:
            continue
        for m, fl in MODS.items():
            t = P.enum("tok" + m)
            want = 0
            for x in fl:
                want |= flag(x)
            if m == "Quote" and name != "member" or m == "Virtual" and not p.calls("funcDecl") or \
                    m == "Pub" and any(x.name in grammar.KNOWN and (1 in x.args or x.name in ("define", "testDecl")) for x in calls_of(p)):
                continue
            if m == "Default" and name == "matchCaseStatement":
                t = P.enum("tokElse")
            if t in got:
                seen.add(m)
                if not (own | handed) & want and not (m, name) in NOT_MODIFIER:
                    bad.setdefault(m, "the modifier `%s` is read but sets no flag" % m.lower())
            elif own & want and m in ("Const", "Async", "Elipsis", "Default", "Unsafe") and name not in IMPLIED.get(m, ()):
                if not any(role.get(i) == fl[0] for i in role):
                    bad.setdefault(m, "flag %s is set although `%s` was not read" % (fl[0], m.lower()))
        for i, fl in role.items():
            neg = fl.startswith("!")
            v = e.truth(p.st, ("p", i))
            w = flag(fl.lstrip("!"))
            if fl == "Extern" and name not in ("variable", "aliasDecl", "classOrStructDecl"):
                continue
            seen.add(fl)
            nodes = [x for x in p.events if x.kind == "node" and x.res == p.ret]
            if not nodes:
                continue
            b = bits(ofield(nodes[0].args[1], "flags") or 0)
            extra = 0
            for x in p.events:
                if x.kind == "write" and x.name == "flags" and contains(x.args[0], lambda t: t == p.ret):
                    extra |= bits(x.args[1])[0]
            has = bool((b[0] | extra) & w) != neg
            if v is None and not b[1] and not contains(nodes[0].args[1], lambda t: t == ("p", i)):
                bad.setdefault(fl, "whether the declaration is %s is ignored" % fl.lower())
            elif v is not None and has != v and not b[1]:
                bad.setdefault(fl, "the declaration is marked %s when it is%s" % (fl.lower(), "" if not v else " not"))
        # tokens that select a flag or a kind in one place only
        for (fn, tk_), (kind, what) in ONE.items():
            if fn != name:
                continue
            had = P.enum("tok" + tk_) in got
            if kind == "flag":
                if not [x for x in p.events if x.kind == "node" and x.res == p.ret] and fn != "matchCaseStatement":
                    continue
                has = bool(own & flag(what))
            elif kind == "tag":
                has = any(x.kind == "node" and x.res == p.ret and tagis(P, x, what) for x in p.events)
            else:
                fd = p.calls(kind)
                if not fd:
                    continue
                want = flag(what.lstrip("!")) if len(fd[0].args) == 3 and fd[0].name == "funcDecl" else 1
                has = bool(bits(fd[0].args[1])[0] & want) != what.startswith("!")
            seen.add(tk_ + " " + what)
            if had != has:
                bad.setdefault(tk_ + " " + what, "%s %s although `%s` was%s read" % (what, "is set" if has else "is not set", tk_, "" if had else " not"))
    for m in seen | set(bad):
        ctx.check(m not in bad, "R10-modifier", "%s %s" % (name, m), f.loc(), bad.get(m, ""))


# the same token with another meaning: the spread operator, `async` blocks, #Type, the `#` that introduces a comptime statement
NOT_MODIFIER = {("Elipsis", "prefix"), ("Elipsis", "parseCallArguments"), ("Async", "async"), ("Hash", "untypedExpr"), ("Hash", "comptime")}
ONE = {("matchCaseStatement", "BAnd"): ("flag", "Reference"), ("continueStatement", "Continue"): ("tag", "astContinueStmt"),
       ("continueStatement", "Break"): ("tag", "astBreakStmt"), ("declaration", "Extern"): ("funcDecl", "Extern"), ("postfixCast", "LNot"): ("flag", "BitUnionCast"),
       ("declaration", "Pub"): ("funcDecl", "Public"), ("parseClassOrStructMember", "Minus"): ("funcDecl", "!Public"),
       ("parseStructField", "Assign"): ("flag", "x")}
del ONE[("parseStructField", "Assign")]
IMPLIED = {"Elipsis": ("macroDecl",)}
TYPES = {"parseType", "parseTypeImpl", "funcReturnType", "parseUnionType", "primitive", "parseTupleType", "parseArrayType", "parsePointerType",
         "parseReferenceType", "parseFuncType", "xFormType"}
EXPRS = {"expression", "expressionWithStructs", "expressionWithoutStructs", "ternary", "assign", "binary", "prefix", "postfix", "statement",
         "statementOrExpression", "statementOnly", "block", "parseCallArguments"}
TYPE_FIELD = {("castExpr", "to"), ("typedExpr", "type"), ("structField", "type"), ("varDecl", "type"), ("funcParam", "type"), ("closureExpr", "ret"),
              ("funcType", "ret"), ("arrayType", "elementType"), ("pointerType", "pointed"), ("referenceType", "referred"), ("typeDecl", "aliased")}
EXPR_FIELD = {("castExpr", "expr"), ("typedExpr", "expr"), ("structField", "value"), ("varDecl", "init"), ("funcParam", "def"), ("fieldExpr", "value"),
              ("ifStmt", "cond"), ("ifStmt", "body"), ("ifStmt", "otherwise"), ("whileStmt", "cond"), ("whileStmt", "body"), ("forStmt", "range"),
              ("forStmt", "body"), ("switchStmt", "cond"), ("matchStmt", "expr"), ("caseStmt", "body"), ("callExpr", "args"), ("indexExpr", "index"),
              ("rangeExpr", "start"), ("rangeExpr", "end"), ("rangeExpr", "step"), ("returnStmt", "expr"), ("ternaryExpr", "cond"),
              ("closureExpr", "body"), ("exprStmt", "expr"), ("enumOption", "value"), ("arrayType", "dim")}


def roles(P, ctx, f, name, ps):
    bad, seen = {}, set()
    for p in ps:
        for x in p.events:
            if x.kind != "node" or not (isinstance(x.args[1], tuple) and x.args[1][0] == "obj"):
                continue
            for pp, v in x.args[1][2]:
                k = tuple(q[1] for q in pp)
                if not (isinstance(v, tuple) and v and v[0] == "call"):
                    continue
                if k in TYPE_FIELD:
                    seen.add(k)
                    if v[1] in EXPRS:
                        bad.setdefault(k, (x.loc, "the type in .%s is read as an expression by %s()" % (k[1], v[1])))
                elif k in EXPR_FIELD:
                    seen.add(k)
                    if v[1] in TYPES:
                        bad.setdefault(k, (x.loc, "the expression in .%s is read as a type by %s()" % (k[1], v[1])))
    for k in seen:
        w = bad.get(k)
        ctx.check(w is None, "R11-role", "%s %s.%s" % (name, k[0], k[1]), w[0] if w else f.loc(), w[1] if w else "")


def signs(P, ctx, f, name, ps, e):
    bad, pos = {}, {}
    minus, plus = P.enum("tokMinus"), P.enum("tokPlus")
    for p in ps:
        cur = None
        for x in p.calls("parseInteger", "parseFloat"):
            # the token consumed last before the literal
            i = p.events.index(x)
            toks = [tagof(p, fld(t, "tag")) for t in taken(_upto(p, i))]
            last = toks[-1] if toks and p.events[i - 1].kind == "call" and p.events[i - 1].name == "advanceLexer_" else None
            s = e.truth(p.st, x.args[1]) if not isinstance(x.args[1], int) else bool(x.args[1])
            pos.setdefault(x.name, set()).add(last)
            if s is None or s != (last == minus):
                bad.setdefault(x.name, (x.loc, "%s() is called with negation %s after token %s" % (x.name, show(x.args[1]), last)))
    for k, t in pos.items():
        w = bad.get(k)
        if w is None and name in ("attribute", "prefix") and not {minus, plus} <= t:
            w = (f.loc(), "no signed literal is accepted")
        ctx.check(w is None, "R12-sign", "%s %s" % (name, k), w[0] if w else f.loc(), w[1] if w else "")


class _upto:
    def __init__(self, p, n):
        self.events, self.st = p.events[:n], p.st


def calls_of(p):
    return [x for x in p.events if x.kind == "call"]


def names(P, ctx):
    """`name as alias` in imports, `alias => name` elsewhere"""
    for fn, member, nm, first in (("parseImportEntity", "importEntity", "name", "name"), ("parseIdentifierWithAlias", "ident", "value", "alias")):
        f = grammar.grammar_fns(P).get(fn)
        if f is None:
            raise AnalysisBroken("%s not found" % fn)
        ps, e = grammar.run(P, fn)
        ctx.engine(e)
        both = 0
        for p in ps:
            x = [x for x in p.events if x.kind == "node" and x.res == p.ret]
            if not x:
                continue
            n, a = grammar.node_field(p.ret, member, nm), grammar.node_field(p.ret, member, "alias")
            t = [c.res for c in p.calls("getTokenString")]
            ids = [k for k in consumed(p) if k == P.enum("tokIdent")]
            if len(ids) == 2:
                both += 1
                want = (t[0], t[1]) if first == "name" else (t[1], t[0])
                ctx.check(len(t) == 2 and (n, a) == want, "R13-name", fn + " renamed", x[0].loc, "name is %s and alias is %s" % (show(n), show(a)))
            else:
                ctx.check(len(t) >= 1 and n == t[0] and a in (0, n), "R13-name", fn + " plain", x[0].loc, "name is %s and alias is %s" % (show(n), show(a)))
        if not both:
            raise AnalysisBroken("%s: no renaming path" % fn)
