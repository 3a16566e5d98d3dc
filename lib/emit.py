"""What the C backend's functions print, as a text with markers, for every path."""
import re
import prog
from absint import Engine, Policy, Ev, Limit, show, subterms
from build import AnalysisBroken

NODE = ("*", ("p", 1))


def strlit(t):
    if isinstance(t, tuple) and t[0] == "str":
        return t[1]
    if isinstance(t, tuple) and t[0] == "&" and isinstance(t[1], tuple) and t[1][0] == "idx" and t[1][2] == 0:
        return strlit(t[1][1])
    if isinstance(t, tuple) and t[0] == "*" and isinstance(t[1], tuple) and t[1][0] == "str":
        return t[1][1]
    return None


def name_of(t):
    """node->binaryExpr.lhs as `binaryExpr.lhs`"""
    if t == ("p", 1):
        return "node"
    if isinstance(t, tuple):
        if t[0] == "fld":
            b = name_of(t[1])
            return t[2] if b == "node" else "%s.%s" % (b, t[2])
        if t[0] == "*":
            return name_of(t[1])
        if t[0] == "cast":
            return name_of(t[2])
        if t[0] == "call":
            return "%s(%s)" % (t[1], ",".join(name_of(a) for a in t[2] if a != ("p", 0)))
        if t[0] == "&":
            return name_of(t[1])
        if t[0] == "p":
            return "p%d" % t[1]
        if t[0] == "idx":
            return "%s[%s]" % (name_of(t[1]), name_of(t[2]))
        if t[0] == "str":
            return repr(t[1])
    return show(t)


SPEC = re.compile(r"\{(?:(\{)|([<>])|([a-zA-Z0-9]+))\}?")


class Piece:
    """kind: text | arg (a formatted value) | child (a visited node) | type | name"""
    __slots__ = ("kind", "text", "term", "loc", "spec")

    def __init__(self, kind, text, term, loc, spec=None):
        self.kind, self.text, self.term, self.loc, self.spec = kind, text, term, loc, spec


def split_format(fmt):
    out = []
    i = 0
    buf = ""
    while i < len(fmt):
        c = fmt[i]
        if c == "{":
            if fmt[i + 1:i + 2] == "{":
                buf += "{"
                i += 2
                continue
            j = fmt.index("}", i)
            w = fmt[i + 1:j]
            if w and w[0] in "<>":
                if buf:
                    out.append(("t", buf))
                    buf = ""
                out.append(("i", w[0]))
            else:
                if buf:
                    out.append(("t", buf))
                    buf = ""
                out.append(("a", w))
            i = j + 1
            continue
        buf += c
        i += 1
    if buf:
        out.append(("t", buf))
    return out


def record(kind, arg):
    def m(eng, st, fr, args, node):
        eng.record(st, Ev("emit", kind, args, fr.fn.loc(node[1]), None, fr.fn.name, node))
        st.nid += 1
        return [(st, ("void", st.nid))]
    return m


def fmt(eng, st, fr, args, node):
    a = list(args)
    vals = ()
    v = a[2] if len(a) > 2 else 0
    if isinstance(v, tuple) and v[0] == "&":
        lv = v[1]
        if isinstance(lv, tuple) and lv[0] == "idx" and lv[2] == 0:
            lv = lv[1]
        vals = eng.load_obj(st, lv)
    elif v != 0:
        try:
            vals = eng.load_obj(st, ("*", v)) if not (isinstance(v, tuple) and v[0] == "v") else eng.load_obj(st, v)
        except Exception:
            vals = ("?", v)
    eng.record(st, Ev("emit", "format", (a[0], a[1], vals), fr.fn.loc(node[1]), None, fr.fn.name, node))
    return [(st, 0)]


def snprintf_(eng, st, fr, args, node):
    eng.record(st, Ev("emit", "snprintf", args, fr.fn.loc(node[1]), None, fr.fn.name, node))
    st.nid += 1
    return [(st, ("void", st.nid))]


def sprintf_(eng, st, fr, args, node):
    return snprintf_(eng, st, fr, (args[0], None) + tuple(args[1:]), node)


def policy(P, file="backend/c/generate.c", opaque=()):
    pol = Policy()
    pol.relevant = {f for f in P.all_fns() if f.file.endswith(file)}
    pol.opaque = frozenset({"addDebugInfo", "generateType", "newFormatState", "makeAnonymousVariable", "getLastAstNode", "findAttribute",
                            "getAttributeArgument", "getTypeDecl"} | set(opaque))
    pol.only = frozenset(f.name for f in pol.relevant)
    pol.models = {"format": fmt, "snprintf": snprintf_, "sprintf": sprintf_, "appendString": record("append", 1), "appendString0": record("append", 1), "appendChar": record("char", 1),
                  "printUtf8": record("utf8", 1), "astConstVisit": record("visit", 1), "astConstVisitManyNodes": record("visitall", 1)}
    pol.record_fields = frozenset({"loopUpdate", "loopUpdateUsed", "inLoop"})
    pol.loop_bound = 2
    pol.max_states = 20000
    return pol


def buffer_of(t):
    while isinstance(t, tuple) and t and (t[0] in ("&", "cast") or (t[0] == "idx" and t[2] == 0)):
        t = t[-1] if t[0] == "cast" else t[1]
    return t


def sprinted(f, args, loc):
    """the pieces of a printf-style format"""
    out, n, i = [], 0, 0
    for m in re.finditer(r"%(%|[-+ #0]*\d*(?:\.\d+)?[hlzjt]*[a-zA-Z])", f):
        if m.start() > i:
            out.append(Piece("text", f[i:m.start()], None, loc))
        i = m.end()
        if m.group(1) == "%":
            out.append(Piece("text", "%", None, loc))
        else:
            out.append(Piece("arg", None, args[n] if n < len(args) else ("?", n), loc, "%" + m.group(1)))
            n += 1
    if f[i:]:
        out.append(Piece("text", f[i:], None, loc))
    return out


def pieces(path):
    out = []
    bufs = {}
    for x in path.events:
        if x.kind == "emit":
            if x.name == "format":
                f = strlit(x.args[1])
                if f is None:
                    out.append(Piece("arg", None, x.args[1], x.loc, "?format"))
                    continue
                vals = {}
                o = x.args[2]
                while isinstance(o, tuple) and o and o[0] in ("*", "&", "cast"):
                    o = o[-1] if o[0] == "cast" else o[1]
                if isinstance(o, tuple) and o and o[0] == "obj":
                    for p, v in o[2]:
                        if len(p) == 2 and p[0][0] == "idx":
                            vals.setdefault(p[0][1], []).append((p[1][1], v))
                        elif len(p) == 1:
                            vals.setdefault(0, []).append((p[0][1], v))
                n = 0
                for k, w in split_format(f):
                    if k == "t":
                        out.append(Piece("text", w, None, x.loc))
                    elif k == "i":
                        out.append(Piece("indent", w, None, x.loc))
                    else:
                        v = vals.get(n, [(None, ("?", n))])[0]
                        b = buffer_of(v[1])
                        if b in bufs and w == "s":
                            out.extend(bufs[b])
                        else:
                            out.append(Piece("arg", None, v[1], x.loc, w))
                        n += 1
            elif x.name == "append":
                s = strlit(x.args[1])
                b = buffer_of(x.args[1])
                if s is None and b in bufs:
                    out.extend(bufs[b])
                else:
                    out.append(Piece("text", s, None, x.loc) if s is not None else Piece("arg", None, x.args[1], x.loc, "s"))
            elif x.name == "snprintf":
                f = strlit(x.args[2])
                bufs[buffer_of(x.args[0])] = sprinted(f, x.args[3:], x.loc) if f is not None else [Piece("arg", None, x.args[2], x.loc, "?printf")]
            elif x.name == "char":
                c = x.args[1]
                out.append(Piece("text", chr(c), None, x.loc) if isinstance(c, int) else Piece("arg", None, c, x.loc, "c"))
            elif x.name == "utf8":
                out.append(Piece("arg", None, x.args[1], x.loc, "utf8"))
            elif x.name == "visit":
                out.append(Piece("child", None, x.args[1], x.loc))
            elif x.name == "visitall":
                out.append(Piece("children", None, x.args[1], x.loc))
            elif x.name in NAMERS:
                out.append(Piece(NAMERS[x.name], None, x.args[-1] if x.name != "generateCustomTypeName" else x.args[2], x.loc, x.name))
    return out


NAMERS = {"generateTypeName": "type", "generateCustomTypeName": "ctype", "generateFunctionName": "name", "generateVariableName": "name",
          "generateModuleName": "name", "generateStructOrClassName": "name", "generateEnumOptionName": "name", "generateMainFunction": "main"}


def marker(p):
    return "‹%s%s›" % ({"arg": (p.spec or "") + ":", "ctype": "K:", "child": "@", "children": "@@", "type": "T:", "name": "N:", "main": "main:"}[p.kind], name_of(p.term))


def text(ps):
    """the printed text with markers, whitespace normalised"""
    s = "".join(p.text if p.kind == "text" else "" if p.kind == "indent" or (p.kind in ("child", "children") and p.term == 0) else marker(p) for p in ps)
    return norm(s)


def norm(s):
    s = re.sub(r"\s+", " ", s)
    s = s.replace(" ... ", "\1")                 # a range of cases needs its spaces (1...2 is one token)
    s = re.sub(r" ?([^\w\s‹›\"'\1]) ?", r"\1", s).replace("\1", " ... ")
    return s.strip()


def run(P, fn, models=(), opaque=(), setup=None, **kw):
    pol = policy(P, opaque=opaque)
    for n in NAMERS:
        pol.models[n] = record(n, 1)
    pol.models.update(models or {})
    for k, v in kw.items():
        setattr(pol, k, v)
    e = Engine(P, pol)

    def init(e, st):
        if fn.params:
            for i in range(len(fn.params)):
                if e.P and fn.tu.types[fn.params[i][2]].get("k") == "ptr":
                    e.set_fact(st, ("p", i), ne=0)
        if setup:
            setup(e, st)
    return [p for p in e.run(fn, init) if feasible(p)], e


def feasible(path):
    """no element of a list is its own successor"""
    for t, (lo, hi, ne) in path.facts().items():
        if lo == hi == 1 and isinstance(t, tuple) and t[0] == "==" and (follows(t[1], t[2]) or follows(t[2], t[1])):
            return False
    return True


def follows(a, b):
    while isinstance(a, tuple) and a[0] == "fld" and a[2] == "next":
        a = a[1][1]
        if a == b:
            return True
    return False
