"""Preset heaps of concrete objects for the abstract interpreter.

An object is the term ("h", name); a pointer to it is ("&", ("h", name)).  A field that an object does not have stays a
symbolic term, so a decision that depends on it forks the analysed path, which the rules report."""
from absint import Engine, show
from build import AnalysisBroken


class Heap:
    def __init__(self, P):
        self.P, self.mem, self.n = P, {}, 0

    def obj(self, name, /, **fields):
        """a pointer to a new object; fields: a__b for a nested member"""
        o = ("h", name)
        assert not any(k[1] == o for k in self.mem if k[0] == "fld"), name
        self.mem[("fld", o, "@")] = 0
        p = ("&", o)
        self.set(p, **fields)
        return p

    def set(self, p, **fields):
        for k, v in fields.items():
            lv = p[1]
            for part in k.split("__"):
                lv = ("fld", lv, part)
            self.mem[lv] = v

    def array(self, name, items):
        """a pointer to the first of a sequence of values"""
        if not items:
            return 0
        o = ("h", name)
        for i, v in enumerate(items):
            self.mem[("idx", o, i)] = v
        self.mem[o] = items[0]
        return ("&", ("idx", o, 0))

    def mem_since(self, n):
        """what was added to the heap since it had n cells"""
        ks = list(self.mem)
        return {k: self.mem[k] for k in ks[n:]}

    def install(self, eng, st):
        st.mem.update(self.mem)


class Types(Heap):
    """a heap of types"""

    def __init__(self, P):
        super().__init__(P)
        self.prims, self.desc = {}, {}

    def const(self, name):
        return self.P.enum(name)

    def flag(self, *names):
        r = 0
        for n in names:
            r |= self.P.flag("flg" + n)
        return r

    def new(self, name, tag, /, flags=0, size=0, d=None, **fields):
        p = self.obj(name, tag=self.const("typ" + tag), flags=flags, size=size, retyped=0, name=("str", name), ns=0, index=0, **fields)
        self.mem[("fld", p[1], "from")] = 0
        self.desc[p] = d if d is not None else (tag,)
        return p

    def prim(self, name, size):
        p = self.prims.get(name)
        if p is None:
            p = self.prims[name] = self.new(name, "Primitive", size=size, d=("prim", name), primitive__id=self.const("prt" + name))
        return p

    def decl(self, name, tag, flags=0):
        return self.obj(name, tag=self.const("ast" + tag), flags=flags, next=0)


def name_of(p):
    return p[1][1] if isinstance(p, tuple) and p and p[0] == "&" and p[1][0] == "h" else show(p)
