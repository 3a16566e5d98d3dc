"""Program model: all extracted translation units merged into one resolved program."""
import os, re
import build
from build import AnalysisBroken


class TU:
    __slots__ = ("rel", "types", "gid")


class Fn:
    __slots__ = ("name", "qname", "file", "line", "static", "ret", "noreturn", "variadic", "params",
                 "body", "tu", "did", "size", "_calls", "_labels")

    def __repr__(self):
        return "%s@%s:%d" % (self.name, self.file, self.line)

    def loc(self, line=None):
        return "%s:%d" % (self.file, line or self.line)


def walk(e):
    """all nodes (expressions and statements) below e, pre-order"""
    st = [e]
    while st:
        x = st.pop()
        if not x:
            continue
        if isinstance(x[0], str):
            yield x
            if x[0] == "decl":
                st.extend(v[3] for v in reversed(x[2]) if v[3])
                continue
            if x[0] == "init":
                st.extend(v[1] for v in reversed(x[3]) if v[1])
                continue
        for c in reversed(x):
            if c.__class__ is list:
                st.append(c)


class Prog:
    def __init__(self, tus, root=None):
        self.root = (root or build.REPO) + "/"
        self.fns = {}          # name -> [Fn]
        self.globals = {}      # name -> [(tu, dict)]
        self.enums = {}        # enum name -> {const: value}
        self.econst = {}       # const -> value
        self.ename = {}        # enum name -> {value: [consts]}
        self.records = {}      # name -> dict
        self.tus = []
        seen = {}
        for rel, d in build.extract(tus):
            tu = TU()
            tu.rel = rel
            tu.types = d["types"]
            self.tus.append(tu)
            for f in d["functions"]:
                key = (f["name"], f["file"], f["line"])
                if key in seen:
                    continue
                o = Fn()
                seen[key] = o
                o.name, o.qname = f["name"], f["qname"]
                o.file = self.relpath(f["file"])
                o.line, o.static, o.ret = f["line"], f["static"], f["ret"]
                o.noreturn, o.variadic = f["noreturn"], f["variadic"]
                o.params, o.body, o.tu, o.did = f["params"], f["body"], tu, f["id"]
                o._calls = o._labels = None
                o.size = None
                self.fns.setdefault(o.name, []).append(o)
            for g in d["globals"]:
                g["tu"] = tu
                g["rfile"] = self.relpath(g["file"])
                self.globals.setdefault(g["name"], []).append(g)
            for e in d["enums"]:
                m = self.enums.setdefault(e["name"] or ("<anon>%s" % (e["consts"][0][0] if e["consts"] else "")), {})
                for n, v in e["consts"]:
                    m[n] = int(v)
                    self.econst[n] = int(v)
            for r in d["records"]:
                r["tu"] = tu
                if r["name"] and r["name"] not in self.records:
                    self.records[r["name"]] = r
        for n, m in self.enums.items():
            r = self.ename.setdefault(n, {})
            for c, v in m.items():
                r.setdefault(v, []).append(c)
        self._mods = None
        self._pure = None

    def relpath(self, p):
        return p[len(self.root):] if p.startswith(self.root) else p

    def fn(self, name, file=None, tu=None):
        """the definition a call to `name` (from `tu`) resolves to, or None"""
        c = self.fns.get(name)
        if not c:
            return None
        if len(c) == 1:
            return c[0]
        if tu is not None:
            for f in c:
                if f.tu is tu and f.static:
                    return f
            for f in c:
                if f.static and f.file == tu.rel:
                    return f
        if file:
            for f in c:
                if f.file.endswith(file) or ("/" in file and file in f.file):
                    return f
        for f in c:
            if not f.static:
                return f
        return c[0]

    def need(self, name, file=None):
        f = self.fn(name, file)
        if f is None:
            raise AnalysisBroken("anchor function %s (%s) not found" % (name, file or "any file"))
        return f

    def ty(self, fn, i):
        return fn.tu.types[i]

    def all_fns(self, prefix=None):
        for c in self.fns.values():
            for f in c:
                if prefix is None or f.file.startswith(prefix):
                    yield f

    def flag(self, n):
        """the value of a `static const` integer"""
        if n in self.econst:
            return self.econst[n]
        def val(i):
            if i[0] in ("cast", "paren"):
                return val(i[-1])
            if i[0] == "int":
                return int(i[3])
            if i[0] == "bin":
                x, y = val(i[4]), val(i[5])
                return x << y if i[3] == "<<" else x | y if i[3] == "|" else x + y
            raise AnalysisBroken("constant %s is not constant" % n)
        for g in self.globals.get(n, ()):
            if g.get("init"):
                return val(g["init"])
        raise AnalysisBroken("constant %s not found" % n)

    def enum(self, c):
        if c not in self.econst:
            raise AnalysisBroken("enumerator %s not found" % c)
        return self.econst[c]

    # ---- syntactic helpers
    def calls(self, fn):
        """[(name, callnode)] of direct calls in fn (name None when indirect)"""
        if fn._calls is None:
            r = []
            for n in walk(fn.body):
                if n[0] == "call":
                    c = n[3]
                    r.append((c[3] if c[0] == "ref" and c[4] == "f" else None, n))
            fn._calls = r
        return fn._calls

    def callees(self, fn):
        out = []
        for name, _ in self.calls(fn):
            if name:
                g = self.fn(name, tu=fn.tu)
                if g:
                    out.append(g)
        return out

    def reach(self, roots, stop=()):
        """functions reachable through direct calls and function references"""
        seen, st = set(), list(roots)
        while st:
            f = st.pop()
            if f in seen:
                continue
            seen.add(f)
            for n in walk(f.body):
                if n[0] == "ref" and n[4] == "f":
                    g = self.fn(n[3], tu=f.tu)
                    if g and g not in seen and g.name not in stop:
                        st.append(g)
        return seen

    def callers_closure(self, targets, names_only=False):
        """set of function objects that (transitively) directly call one of the named targets"""
        rev = {}
        for f in self.all_fns():
            for name, _ in self.calls(f):
                if name:
                    rev.setdefault(name, set()).add(f)
        out, st = set(), list(targets)
        seen = set(st)
        while st:
            n = st.pop()
            for f in rev.get(n, ()):
                if f not in out:
                    out.add(f)
                    if f.name not in seen:
                        seen.add(f.name)
                        st.append(f.name)
        return out

    PURE_EXT = {"strlen", "strcmp", "strncmp", "isalpha", "isdigit", "isalnum", "isspace", "isupper", "islower",
                "isxdigit", "isprint", "ispunct", "toupper", "tolower", "abs", "memcmp", "strchr", "strrchr",
                "strstr", "cxyAbort", "__builtin_expect", "__builtin_unreachable", "abort"}

    def is_pure(self, fn):
        """no writes but to locals, and only pure callees (greatest fixpoint)"""
        if self._pure is None:
            pure, cal = set(), {}
            for f in self.all_fns():
                ok = not f.variadic
                cs = []
                for n in walk(f.body):
                    if n[0] == "asg":
                        ok = ok and pure_lv(n[4])
                    elif n[0] == "un" and n[3] in ("++", "--", "p++", "p--"):
                        ok = ok and pure_lv(n[4])
                    elif n[0] == "call":
                        nm = callee_name(n)
                        if nm is None:
                            ok = False
                        else:
                            g = self.fn(nm, tu=f.tu)
                            if g is None:
                                ok = ok and nm in self.PURE_EXT
                            else:
                                cs.append(g)
                    if not ok:
                        break
                if f.tu.types[f.ret].get("k") == "void":
                    ok = False
                if ok:
                    pure.add(f)
                    cal[f] = cs
            ch = True
            while ch:
                ch = False
                for f in list(pure):
                    if any(g not in pure for g in cal[f]):
                        pure.discard(f)
                        ch = True
            self._pure = pure
        return fn in self._pure

    def mods(self, fn):
        """transitive set of field names written by fn (direct calls only)"""
        if self._mods is None:
            self._mods = {}
            direct, cal = {}, {}
            for f in self.all_fns():
                s = set()
                for n in walk(f.body):
                    if n[0] == "asg":
                        s |= lv_field(n[4])
                    elif n[0] == "un" and n[3] in ("++", "--", "p++", "p--"):
                        s |= lv_field(n[4])
                direct[f] = s
                cal[f] = self.callees(f)
            # fixpoint
            changed = True
            while changed:
                changed = False
                for f in direct:
                    b = len(direct[f])
                    for g in cal[f]:
                        direct[f] |= direct[g]
                    if len(direct[f]) != b:
                        changed = True
            self._mods = direct
        return self._mods.get(fn, set())


def lv_field(e):
    k = e[0]
    if k == "mem":
        return {e[4]}
    if k == "un" and e[3] == "*":
        return {"*"}
    if k == "idx":
        return {"[]"}
    if k == "cond":
        return lv_field(e[4]) | lv_field(e[5])
    return set()


def pure_lv(e):
    """assignment to a local variable (or a member of a local struct)"""
    while e[0] in ("mem", "idx"):
        if e[0] == "mem" and e[5]:
            return False
        e = e[3]
    return e[0] == "ref" and e[4] in ("v", "p")


def callee_name(n):
    c = n[3]
    return c[3] if c[0] == "ref" and c[4] == "f" else None


_full = None


def full():
    global _full
    if _full is None:
        _full = Prog(build.compiler_tus())
    return _full
