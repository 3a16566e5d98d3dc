"""Path-sensitive abstract interpreter over the extracted ASTs (no solver, nothing is executed).

Values are python ints (known constants), ("str", text), ("fn", name), ("&", lvalue), ("obj", ...) or
opaque terms.  The value of an lvalue nobody has written yet is the lvalue itself.  Lvalues:
  ("v", uid, declid, name)   local variable / parameter of an inlined frame
  ("p", i)                   value of the i-th parameter of the entry function
  ("g", name)                global
  ("*", term)                what a pointer points to
  ("fld", lvalue, name), ("idx", lvalue, index)
Facts restrict terms to an interval with holes; a path forks at a condition the facts do not settle.
"""
import sys
from build import AnalysisBroken
from prog import callee_name, walk

sys.setrecursionlimit(20000)
INF = float("inf")


class Limit(AnalysisBroken):
    pass


def is_const(v):
    return isinstance(v, int)


def is_lv(t):
    return isinstance(t, tuple) and t and t[0] in ("v", "g", "*", "fld", "idx", "h")


class St:
    __slots__ = ("mem", "facts", "ev", "hav", "nid", "gc")

    def __init__(self):
        self.mem, self.facts, self.ev, self.hav, self.nid, self.gc = {}, {}, None, {}, 0, {}

    def copy(self):
        n = St.__new__(St)
        n.mem, n.facts, n.ev, n.hav, n.nid, n.gc = \
            dict(self.mem), dict(self.facts), self.ev, dict(self.hav), self.nid, self.gc
        return n

    def events(self):
        r, e = [], self.ev
        while e is not None:
            r.append(e[0])
            e = e[1]
        r.reverse()
        return r

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.ev,
                frozenset(self.hav.items()))


class Ev:
    """an event on a path: an opaque call, or a recorded write"""
    __slots__ = ("kind", "name", "args", "loc", "res", "fn", "node")

    def __init__(self, kind, name, args, loc, res=None, fn=None, node=None):
        self.kind, self.name, self.args, self.loc, self.res, self.fn, self.node = \
            kind, name, args, loc, res, fn, node

    def k(self):
        return (self.kind, self.name, self.args, self.loc, self.res)

    def __eq__(self, o):
        return isinstance(o, Ev) and self.k() == o.k()

    def __hash__(self):
        return hash((self.kind, self.name, self.loc))

    def __repr__(self):
        return "%s(%s)@%s" % (self.name, ", ".join(show(a) for a in self.args), self.loc)


class Out:
    __slots__ = ("b", "c", "r", "g")

    def __init__(self):
        self.b, self.c, self.r, self.g = [], [], [], {}


class Frame:
    __slots__ = ("fn", "uid", "depth", "chain", "out", "var")

    def __init__(self, fn, uid, depth, chain):
        self.fn, self.uid, self.depth, self.chain, self.out, self.var = fn, uid, depth, chain, None, None


class Policy:
    """what to inline, what to keep opaque, what to record; subclass or set attributes"""
    max_depth = 6
    max_size = 400          # AST nodes of an inlined callee
    loop_bound = 2
    const_loop = 400
    alias = {}              # member names of a union that stand for one of them
    bound_endless = False   # `while (true)` counts against loop_bound
    max_states = 6000
    opaque = frozenset()    # never inlined
    force = frozenset()     # inlined whatever their size
    pure = frozenset()      # opaque, same args => same result, no event
    record_fields = frozenset()   # writes to these fields are events
    models = {}
    only = None             # when set: inline only these names
    recursive = True        # ... also inside themselves
    relevant = None         # when set (set of Fn): inline only these
    small = 0               # ... and callees of at most this many AST nodes
    keep = None             # predicate on terms: facts on other terms are joined (interval hull)
    join_at = 8             # ... once there are more states than this
    havoc_recs = frozenset()      # record names whose pointees an opaque call may change
    record_calls = None     # None: all opaque calls; else a set of names
    casts = False           # keep narrowing conversions of unknown values as ("cast", kind, term); 2: sign changes and narrow stores, too
    on_bin = None           # hook(eng, st, fr, op, a, b, ty, e) on every arithmetic operation
    union = frozenset()     # member names sharing storage: reading one after writing another is ("clobbered", ...)

    def inline(self, eng, fn, fr):
        if fn.name in self.opaque or fn.name in self.pure:
            return False
        if self.only is not None:
            return fn.name in self.only and (self.recursive or fn not in fr.chain)
        if fr.depth >= self.max_depth or fn in fr.chain:
            return False
        if fn.name in self.force:
            return True
        sz = eng.size(fn)
        if self.relevant is not None:
            return sz <= self.max_size and (fn in self.relevant or sz <= self.small)
        return sz <= self.max_size


def show(t, depth=0):
    if isinstance(t, int):
        return str(t)
    if isinstance(t, float):
        return repr(t)
    if t is None:
        return "void"
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == "str":
        return '"%s"' % t[1][:40]
    if k == "fn":
        return t[1]
    if k == "v":
        return t[3]
    if k == "p":
        return "param%d" % t[1] if len(t) < 3 else str(t[2])
    if k == "g":
        return t[1] if len(t) == 2 else t[1]
    if k == "*":
        return "*" + show(t[1])
    if k == "&":
        return "&" + show(t[1])
    if k == "band":
        return "(%s & %s)" % (show(t[1]), show(t[2]))
    if k == "fld":
        b = t[1]
        if b[0] == "*":
            return "%s->%s" % (show(b[1]), t[2])
        return "%s.%s" % (show(b), t[2])
    if k == "idx":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "call":
        return "%s(%s)%s" % (t[1], ", ".join(show(a) for a in t[2]), "#%s" % t[3] if t[3] is not None else "")
    if k == "hv":
        return show(t[2]) + "'%s" % t[1]
    if k == "!":
        return "!" + show(t[1])
    if k == "obj":
        return "{%s%s}" % (show(t[1]) + "; " if t[1] else "", ", ".join(
            ".%s=%s" % (".".join(map(str, p)), show(v)) for p, v in t[2]))
    if len(t) == 3 and isinstance(k, str):
        return "(%s %s %s)" % (show(t[1]), k, show(t[2]))
    return "(" + " ".join(show(x) for x in t) + ")"


COMM = {"==", "!=", "+", "*", "&", "|", "^"}


def okey(t):
    return (0, t) if isinstance(t, int) else (1, repr(t))


def wrap(v, ty):
    if ty and ty.get("k") in ("int", "uint", "enum") and "z" in ty:
        bits = ty["z"] * 8
        v &= (1 << bits) - 1
        if ty["k"] == "int" and v >> (bits - 1):
            v -= 1 << bits
    elif ty and ty.get("k") == "bool":
        v = 1 if v else 0
    return v


def binop(op, a, b, ty=None):
    if op == "band":
        op = "&"
    ia, ib = isinstance(a, int), isinstance(b, int)
    if ia and ib:
        try:
            if op == "+": return wrap(a + b, ty)
            if op == "-": return wrap(a - b, ty)
            if op == "*": return wrap(a * b, ty)
            if op == "/" and b: return wrap(int(a / b) if abs(a) < 2**50 else (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1), ty)
            if op == "%" and b: return wrap(a - b * int(a / b) if abs(a) < 2**50 else a % b, ty)
            if op == "&": return wrap(a & b, ty)
            if op == "|": return wrap(a | b, ty)
            if op == "^": return wrap(a ^ b, ty)
            if op == "<<" and 0 <= b < 128: return wrap(a << b, ty)
            if op == ">>" and 0 <= b < 128: return wrap(a >> b, ty)
            if op == "==": return int(a == b)
            if op == "!=": return int(a != b)
            if op == "<": return int(a < b)
            if op == "<=": return int(a <= b)
            if op == ">": return int(a > b)
            if op == ">=": return int(a >= b)
        except OverflowError:
            pass
    if op in ("==", "!="):
        if a == b and not has_float(a):
            return int(op == "==")
        # distinct known objects
        if is_heap(a) and is_heap(b):
            return int(op != "==")
        da, db = distinct_kind(a), distinct_kind(b)
        if da and db and (da != db or (da in ("fn",) and a != b)):
            if not (da == "str" or db == "str") or 0 in (a, b):
                return int(op != "==")
        if isinstance(a, tuple) and a[0] == "!" and b == 0:
            return a[1] if op == "==" else a
        if isinstance(b, tuple) and b[0] == "!" and a == 0:
            return b[1] if op == "==" else b
    if op == "-" and a == b:
        return 0
    if op in ("+", "-", "|", "^", "<<", ">>") and ib and b == 0:
        return a
    if op in ("+", "|", "^") and ia and a == 0:
        return b
    if op == "*":
        if (ia and a == 0) or (ib and b == 0): return 0
        if ia and a == 1: return b
        if ib and b == 1: return a
    if op == "&" and ((ia and a == 0) or (ib and b == 0)):
        return 0
    # (x op1 c1) op c2 folding for + and -
    if op in ("+", "-") and ib and isinstance(a, tuple) and a[0] in ("+",) and len(a) == 3 and isinstance(a[2], int):
        return binop("+", a[1], a[2] + (b if op == "+" else -b))
    if op == "-" and ib:
        return binop("+", a, -b)
    if op == "-" and isinstance(a, tuple) and a[0] == "+" and isinstance(a[2], int) and a[1] == b:
        return a[2]
    if op == "&" and ib and isinstance(a, tuple) and a[0] == "|" and isinstance(a[2], int):
        return binop("|", binop("&", a[1], b), a[2] & b)
    if op in ("|",) and ib and isinstance(a, tuple) and a[0] == "|" and isinstance(a[2], int):
        return ("|", a[1], a[2] | b)
    if op == "&" and ib and isinstance(a, tuple) and a[0] == "band" and isinstance(a[2], int):
        return binop("&", a[1], a[2] & b)
    if op == ">":
        return ("<", b, a)
    if op == ">=":
        return ("!", ("<", a, b))
    if op == "<=":
        return ("!", ("<", b, a))
    if op == "!=":
        return neg(binop("==", a, b))
    if op in COMM:
        if ia and not ib:
            a, b = b, a
        elif not ia and not ib and okey(b) < okey(a):
            a, b = b, a
    return ("band" if op == "&" else op, a, b)


def has_float(a):
    return isinstance(a, float)


def narrowing(v, src, dst, signs=False):
    sk, dk = src.get("k"), dst.get("k")
    num = ("int", "uint", "float", "enum", "bool", "char")
    if sk not in num or dk not in num or "z" not in src or "z" not in dst or is_bool(v):
        return v
    if dk == "bool":
        return v
    if dst["z"] < src["z"] or signs and dk != sk and dk in ("int", "uint"):
        return ("cast", "%s%d" % (dk[0], dst["z"] * 8), v)
    return v


def neg(t):
    if isinstance(t, int):
        return int(not t)
    if isinstance(t, tuple):
        if t[0] == "!":
            return t[1] if is_bool(t[1]) else ("!", t)
        if t[0] in ("str", "fn", "&", "obj", "mk", "clone"):
            return 0
    return ("!", t)


def is_bool(t):
    return isinstance(t, tuple) and t[0] in ("!", "==", "<", "lt")


def distinct_kind(v):
    if isinstance(v, int):
        return "int0" if v == 0 else "int"
    if isinstance(v, tuple) and v[0] in ("str", "fn", "&", "mk", "clone"):
        return v[0]
    return None


def is_heap(v):
    """a pointer to an object of a preset heap (lib/heap.py)"""
    return isinstance(v, tuple) and v[0] == "&" and v[1][0] == "h"


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)


def contains(t, pred):
    return any(pred(s) for s in subterms(t))


TOP = (-INF, INF, frozenset())


class Engine:
    def __init__(self, P, policy):
        self.P, self.pol = P, policy
        self.uid = 0
        self.npaths = 0
        self.nforks = 0
        self.fns_seen = set()
        self.frozen_ = {}
        self.sizes = {}
        self.contains_cache = {}
        self.decl_cache = {}
        self.lim = policy.max_states
        self.noret = []      # states that ended in a noreturn call: (st, name, loc)
        self.trace = None

    def size(self, fn):
        if fn.size is None:
            fn.size = sum(1 for _ in walk(fn.body))
        return fn.size

    # ------------------------------------------------------------------ facts
    def fact(self, st, t):
        return st.facts.get(t, TOP)

    def simp(self, st, t):
        """replace a term by a constant when the facts settle it"""
        if isinstance(t, tuple):
            f = st.facts.get(t)
            if f is not None and f[0] == f[1]:
                return f[0]
            if t[0] == "!":
                x = self.truth(st, t[1])
                if x is not None:
                    return int(not x)
            elif t[0] == "==" or t[0] == "<":
                x = self.truth(st, t)
                if x is not None:
                    return int(x)
        return t

    def truth(self, st, t):
        """True/False/None for `t != 0`"""
        if isinstance(t, (int, float)):
            return bool(t)
        if t is None:
            return None
        k = t[0]
        if k in ("str", "fn", "&", "mk", "clone"):
            return True
        if k == "obj":
            return None
        if k == "!":
            x = self.truth(st, t[1])
            return None if x is None else not x
        f = st.facts.get(t)
        if f is not None:
            if f[0] == f[1]:
                return f[0] != 0
            if 0 in f[2] or f[0] > 0 or f[1] < 0:
                return True
        if k == "==":
            a, b = t[1], t[2]
            if isinstance(b, int):
                fa = st.facts.get(a)
                if fa is not None:
                    if fa[0] == fa[1]:
                        return fa[0] == b
                    if b in fa[2] or b < fa[0] or b > fa[1]:
                        return False
                # bool-valued lhs
                if is_bool(a):
                    x = self.truth(st, a)
                    if x is not None:
                        return int(x) == b
                ng = self.nonneg_of(a)
                if ng is not None and (b < 0 or b > ng):
                    return False
            else:
                fa, fb = st.facts.get(a), st.facts.get(b)
                if fa and fb:
                    if fa[0] == fa[1] and fb[0] == fb[1]:
                        return fa[0] == fb[0]
                    if fa[1] < fb[0] or fb[1] < fa[0]:
                        return False
                if fa and fa[0] == fa[1] and distinct_kind(b) and distinct_kind(b) != "int" and fa[0] == 0:
                    return False
                if fb and fb[0] == fb[1] and distinct_kind(a) and fb[0] == 0:
                    return False
        elif k == "<":
            a, b = t[1], t[2]
            la, ha = self.interval(st, a)
            lb, hb = self.interval(st, b)
            if ha < lb:
                return True
            if la >= hb:
                return False
            # a < b decided by  b < a  or a == b facts
            g = st.facts.get(("<", b, a))
            if g is not None and g[0] == g[1] == 1:
                return False
        elif k == "|":
            for x in t[1:]:
                if self.truth(st, x):
                    return True
        elif k == "band" and isinstance(t[2], int):
            # known value of the masked term
            fa = st.facts.get(t[1])
            if fa is not None and fa[0] == fa[1] and isinstance(fa[0], int):
                return bool(fa[0] & t[2])
            # stronger/weaker masks known
            m = t[2]
            if bin(m).count("1") > 1:
                known0 = True
                bit = m
                while bit:
                    lb = bit & -bit
                    x = st.facts.get(("band", t[1], lb))
                    if x is not None and (x[0] > 0 or 0 in x[2]):
                        return True
                    if x is None or not (x[0] == x[1] == 0):
                        known0 = False
                    bit &= bit - 1
                if known0:
                    return False
        return None

    def nonneg_of(self, t):
        """upper bound of a term known to be within [0, bound] structurally"""
        if isinstance(t, tuple) and t[0] == "band" and isinstance(t[2], int) and t[2] >= 0:
            return t[2]
        if is_bool(t):
            return 1
        return None

    def interval(self, st, t):
        if isinstance(t, (int, float)):
            return t, t
        if not isinstance(t, tuple):
            return -INF, INF
        f = st.facts.get(t)
        lo, hi = (f[0], f[1]) if f else (-INF, INF)
        ng = self.nonneg_of(t)
        if ng is not None:
            lo, hi = max(lo, 0), min(hi, ng)
        if t[0] == "+" and len(t) == 3:
            a, b = self.interval(st, t[1]), self.interval(st, t[2])
            lo, hi = max(lo, a[0] + b[0]), min(hi, a[1] + b[1])
        if t[0] == "zx":
            lo = max(lo, 0)
        return lo, hi

    def set_fact(self, st, t, lo=None, hi=None, ne=None):
        f = st.facts.get(t, TOP)
        l, h, n = f
        ng = self.nonneg_of(t)
        if ng is not None:
            l, h = max(l, 0), min(h, ng)
        if lo is not None:
            l = max(l, lo)
        if hi is not None:
            h = min(h, hi)
        if ne is not None:
            n = n | {ne}
        while l in n and l <= h:
            l += 1
        while h in n and l <= h:
            h -= 1
        if l > h:
            return False
        st.facts[t] = (l, h, n if l != h else frozenset())
        return True

    def assume(self, st, t, pol):
        """st (mutated) with `t` truthy/falsy, or None"""
        x = self.truth(st, t)
        if x is not None:
            return st if x == pol else None
        k = t[0]
        if k == "!":
            return self.assume(st, t[1], not pol)
        if k == "==":
            a, b = t[1], t[2]
            if isinstance(b, int):
                if is_bool(a) and b in (0, 1):
                    return self.assume(st, a, (b == 1) == pol)
                if pol:
                    if not self.set_fact(st, a, lo=b, hi=b):
                        return None
                    self.propagate_eq(st, a, b)
                else:
                    if not self.set_fact(st, a, ne=b):
                        return None
                return st
            st.facts[t] = (1, 1, frozenset()) if pol else (0, 0, frozenset())
            if pol:
                fa, fb = st.facts.get(a, TOP), st.facts.get(b, TOP)
                m = (max(fa[0], fb[0]), min(fa[1], fb[1]), fa[2] | fb[2])
                if m[0] > m[1]:
                    return None
                if m != TOP:
                    st.facts[a] = m
                    st.facts[b] = m
            return st
        if k == "<":
            a, b = t[1], t[2]
            st.facts[t] = (1, 1, frozenset()) if pol else (0, 0, frozenset())
            if isinstance(b, int):
                ok = self.set_fact(st, a, hi=b - 1) if pol else self.set_fact(st, a, lo=b)
                return st if ok else None
            if isinstance(a, int):
                ok = self.set_fact(st, b, lo=a + 1) if pol else self.set_fact(st, b, hi=a)
                return st if ok else None
            la, ha = self.interval(st, a)
            lb, hb = self.interval(st, b)
            if pol:
                if hb != INF and not self.set_fact(st, a, hi=hb - 1): return None
                if la != -INF and not self.set_fact(st, b, lo=la + 1): return None
            else:
                if lb != -INF and not self.set_fact(st, a, lo=lb): return None
                if ha != INF and not self.set_fact(st, b, hi=ha): return None
            return st
        if k == "|" and not pol:
            for x in t[1:]:
                if isinstance(x, int):
                    if x:
                        return None
                    continue
                st = self.assume(st, x, False)
                if st is None:
                    return None
            return st
        if k == "obj":
            return st
        if pol:
            return st if self.set_fact(st, t, ne=0) else None
        if k == "band" and isinstance(t[2], int) and bin(t[2]).count("1") > 1:
            m = t[2]
            while m:
                lb = m & -m
                if not self.set_fact(st, ("band", t[1], lb), lo=0, hi=0):
                    return None
                m &= m - 1
        return st if self.set_fact(st, t, lo=0, hi=0) else None

    def propagate_eq(self, st, a, b):
        pass

    def branch(self, st, t):
        """(true-state or None, false-state or None)"""
        x = self.truth(st, t)
        if x is True:
            return st, None
        if x is False:
            return None, st
        self.nforks += 1
        o = st.copy()
        return self.assume(st, t, True), self.assume(o, t, False)

    # ------------------------------------------------------------------ memory
    def type_of(self, e, fr):
        return fr.fn.tu.types[e[2]]

    def read(self, st, lv, ty=None):
        if self.pol.union:
            u = umember(lv, self.pol.union)
            if u is not None:
                w = st.mem.get(("um", u[0]))
                if w is not None and w != u[1]:
                    return ("clobbered", lv)
        m = st.mem.get(lv)
        if m is not None:
            if isinstance(m, tuple) and m and m[0] in ("@zero", "@base"):
                return self.load_obj(st, lv)
            return self.simp(st, m)
        # inherited from an enclosing object
        path = []
        b = lv
        while isinstance(b, tuple) and b[0] in ("fld", "idx"):
            path.append((b[0], b[2]))
            b = b[1]
            m = st.mem.get(b)
            if m is not None:
                if m[0] == "@zero" if isinstance(m, tuple) else False:
                    if ty and ty.get("k") in ("rec", "arr"):
                        return self.load_obj(st, lv)
                    return 0
                if isinstance(m, tuple) and m[0] == "@base":
                    t = m[1]
                    for k, x in reversed(path):
                        t = (k, t, x)
                    return self.simp(st, t)
                break
        if lv[0] in ("fld", "idx", "g") or lv[0] == "*":
            v = self.global_init(st, lv)
            if v is not None:
                return v
        if ty and ty.get("k") == "rec" or any(True for k in ()):
            return self.load_obj(st, lv)
        if lv[0] == "fld":
            h = st.hav.get((lv[1], lv[2]))
            if h is None:
                h = st.hav.get((None, lv[2]))
            if h is None:
                h = st.hav.get((lv[1], None))
            if h is not None:
                return self.simp(st, ("hv", h, lv))
        elif lv in st.hav:
            return self.simp(st, ("hv", st.hav[lv], lv))
        return self.simp(st, lv)

    def load_obj(self, st, lv):
        items = []
        n = len(lv)
        base = lv
        m = st.mem.get(lv)
        if isinstance(m, tuple) and m[0] == "@zero":
            base = None
        elif isinstance(m, tuple) and m[0] == "@base":
            base = m[1]
        else:
            p, path = lv, []
            while isinstance(p, tuple) and p[0] in ("fld", "idx"):
                path.append((p[0], p[2]))
                p = p[1]
                mm = st.mem.get(p)
                if isinstance(mm, tuple) and mm[0] == "@zero":
                    base = None
                    break
                if isinstance(mm, tuple) and mm[0] == "@base":
                    t = mm[1]
                    for k, x in reversed(path):
                        t = (k, t, x)
                    base = t
                    break
                if mm is not None:
                    break
        for k, v in st.mem.items():
            path = under(k, lv)
            if path and not (isinstance(v, tuple) and v and v[0] in ("@zero", "@base")):
                items.append((path, v))
        if not items and base is not None:
            return base
        items.sort(key=repr)
        return ("obj", base, tuple(items))

    def clear_under(self, st, lv):
        dead = [k for k in st.mem if k == lv or under(k, lv)]
        for k in dead:
            del st.mem[k]

    def write(self, st, lv, v, ty=None):
        if self.pol.union:
            u = umember(lv, self.pol.union)
            if u is not None:
                st.mem[("um", u[0])] = u[1]
            elif ("um", lv) in st.mem:
                del st.mem[("um", lv)]
        if self.pol.casts == 2 and ty and ty.get("z", 8) < 4 and ty.get("k") in ("int", "uint") and isinstance(v, tuple) \
                and not is_bool(v):
            v = ("cast", "%s%d" % (ty["k"][0], ty["z"] * 8), v)
        if isinstance(v, tuple) and v and v[0] == "obj":
            self.clear_under(st, lv)
            st.mem[lv] = ("@zero",) if v[1] is None else ("@base", v[1])
            for path, x in v[2]:
                l = lv
                for k, n in path:
                    l = (k, l, n)
                st.mem[l] = x
            return
        if ty and ty.get("k") == "rec" or (ty is None and is_lv(v) and any(under(k, lv) for k in st.mem)):
            self.clear_under(st, lv)
            st.mem[lv] = ("@base", v)
            return
        st.mem[lv] = v

    def global_init(self, st, lv):
        """value of a constant global (table), or None"""
        path = []
        b = lv
        while b[0] in ("fld", "idx"):
            path.append(b)
            b = b[1]
        if b[0] == "*" and isinstance(b[1], tuple) and b[1][0] == "str":
            if not path:
                s = b[1][1]
                return ord(s[0]) if s else 0
            if len(path) == 1 and path[0][0] == "idx" and isinstance(path[0][2], int):
                s, i = b[1][1], path[0][2]
                if 0 <= i < len(s):
                    return ord(s[i])
                if i == len(s):
                    return 0
            return None
        if b[0] != "g" or len(b) < 3:
            return None
        g = b[2]
        if not g.d.get("const"):
            return None
        node, tu = g.d["init"], g.d["tu"]
        cur = node
        for p in reversed(path):
            if cur is None:
                return 0
            while cur[0] in ("cl", "cast"):
                cur = cur[3]
            if cur[0] == "str" and p[0] == "idx":
                if isinstance(p[2], int):
                    s = cur[3]
                    return ord(s[p[2]]) if p[2] < len(s) else 0
                return None
            if cur[0] != "init":
                return None
            key = p[2]
            if p[0] == "idx" and not isinstance(key, int):
                return None
            nxt = None
            for k, x in cur[3]:
                if k == key:
                    nxt = x
            cur = nxt
        if cur is None:
            return 0
        if cur[0] == "init" and not path:
            return None
        if cur[0] == "init":
            return None
        fr = Frame(g.fakefn, -1, 99, ())
        r = self.ev(cur, st, fr)
        if len(r) == 1:
            return r[0][1]
        return None

    # ------------------------------------------------------------------ lvalues
    def lv(self, e, st, fr):
        """[(state, lvalue)]"""
        k = e[0]
        if k == "ref":
            return [(st, self.var_lv(e, fr))]
        if k == "mem":
            if e[5]:  # arrow
                out = []
                for s, p in self.ev(e[3], st, fr):
                    out.append((s, ("fld", deref(p), self.pol.alias.get(e[4], e[4]))))
                return out
            if e[3][0] in ("call", "cond", "sx", "cl", "init", "ctor"):
                out = []
                for s, v in self.ev(e[3], st, fr):
                    out.append((s, ("fld", v if isinstance(v, tuple) else ("val", v), self.pol.alias.get(e[4], e[4]))))
                return out
            return [(s, ("fld", l, self.pol.alias.get(e[4], e[4]))) for s, l in self.lv(e[3], st, fr)]
        if k == "idx":
            out = []
            bt = self.type_of(e[3], fr)
            if bt.get("k") == "arr":
                for s, l in self.lv(e[3], st, fr):
                    for s2, i in self.ev(e[4], s, fr):
                        out.append((s2, ("idx", l, i)))
            else:
                for s, p in self.ev(e[3], st, fr):
                    for s2, i in self.ev(e[4], s, fr):
                        out.append((s2, deref(binop("+", p, i)) if not is_ptr_idx(p) else idx_of(p, i)))
            return out
        if k == "un" and e[3] == "*":
            return [(s, deref(p)) for s, p in self.ev(e[4], st, fr)]
        if k == "un" and e[3] in ("++", "--"):
            out = []
            for s, _ in self.ev(e, st, fr):
                out.extend(self.lv(e[4], s, fr))
            return out
        if k == "asg":
            out = []
            for s, _ in self.ev(e, st, fr):
                out.extend(self.lv(e[4], s, fr))
            return out
        if k == "cond":
            t, f = self.cond(e[3], st, fr)
            out = []
            for s in t:
                out.extend(self.lv(e[4], s, fr))
            for s in f:
                out.extend(self.lv(e[5], s, fr))
            return out
        if k == "cast":
            return self.lv(e[3], st, fr)
        if k == "bin" and e[3] == ",":
            out = []
            for s, _ in self.ev(e[4], st, fr):
                out.extend(self.lv(e[5], s, fr))
            return out
        if k in ("cl", "init"):
            # address of a compound literal: fresh anonymous object
            self.uid += 1
            l = ("v", fr.uid, -self.uid, "<literal>")
            out = []
            for s, v in self.ev(e, st, fr):
                self.write(s, l, v)
                out.append((s, l))
            return out
        if k == "str":
            return [(st, ("*", ("str", e[3])))]
        out = []
        for s, v in self.ev(e, st, fr):
            out.append((s, v if is_lv(v) else ("val", v)))
        return out

    def var_lv(self, e, fr):
        if e[4] in ("v", "p"):
            return ("v", fr.uid, e[5], e[3])
        if e[4] == "f":
            return ("fn", e[3])
        return self.glv(e[3], e[4] == "s", fr)

    def glv(self, name, local, fr):
        c = self.P.globals.get(name)
        if c:
            best = None
            for d in c:
                if local:
                    if d.get("func") == fr.fn.name and (d["tu"] is fr.fn.tu or d["rfile"] == fr.fn.file):
                        best = d
                elif "func" not in d and (d["tu"] is fr.fn.tu or d["rfile"] == fr.fn.file):
                    best = d
            if best is None and not local:
                for d in c:
                    if "func" not in d:
                        best = d
            if best is not None:
                if "ref" not in best:
                    best["ref"] = GRef(best)
                return ("g", name, best["ref"])
        return ("g", name)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        """[(state, value)]"""
        k = e[0]
        if k == "int":
            return [(st, int(e[3]))]
        if k == "enum":
            return [(st, int(e[4]))]
        if k == "str":
            return [(st, ("str", e[3]))]
        if k == "flt":
            return [(st, ("flt", e[3]))]
        if k == "ref":
            if e[4] == "f":
                return [(st, ("fn", e[3]))]
            ty = self.type_of(e, fr)
            l = self.var_lv(e, fr)
            if ty.get("k") == "arr":
                return [(st, ("&", l))]
            return [(st, self.read(st, l, ty))]
        if k == "mem":
            ty = self.type_of(e, fr)
            out = []
            for s, l in self.lv(e, st, fr):
                if ty.get("k") == "arr":
                    out.append((s, ("&", l)))
                else:
                    out.append((s, self.read_any(s, l, ty)))
            return out
        if k == "idx":
            ty = self.type_of(e, fr)
            out = []
            for s, l in self.lv(e, st, fr):
                if ty.get("k") == "arr":
                    out.append((s, ("&", l)))
                else:
                    out.append((s, self.loaded(self.read_any(s, l, ty), ty)))
            return out
        if k == "bin":
            op = e[3]
            if op in ("&&", "||"):
                t, f = self.cond(e, st, fr)
                return [(s, 1) for s in t] + [(s, 0) for s in f]
            if op == ",":
                out = []
                for s, _ in self.ev(e[4], st, fr):
                    out.extend(self.ev(e[5], s, fr))
                return out
            out = []
            ty = self.type_of(e, fr)
            for s, a in self.ev(e[4], st, fr):
                for s2, b in self.ev(e[5], s, fr):
                    if self.pol.on_bin:
                        self.pol.on_bin(self, s2, fr, op, a, b, ty, e)
                    out.append((s2, self.simp(s2, binop(op, a, b, ty))))
            return out
        if k == "un":
            return self.ev_un(e, st, fr)
        if k == "asg":
            return self.ev_asg(e, st, fr)
        if k == "cond":
            t, f = self.cond(e[3], st, fr)
            out = []
            for s in t:
                out.extend(self.ev(e[4], s, fr))
            for s in f:
                out.extend(self.ev(e[5], s, fr))
            return out
        if k == "bcond":
            out = []
            for s, v in self.ev(e[3], st, fr):
                a, b = self.branch(s, v)
                if a is not None:
                    out.append((a, v))
                if b is not None:
                    out.extend(self.ev(e[4], b, fr))
            return out
        if k == "cast":
            ty = self.type_of(e, fr)
            out = []
            for s, v in self.ev(e[3], st, fr):
                if isinstance(v, int):
                    v = wrap(v, ty)
                elif isinstance(v, float) and ty.get("k") in ("int", "uint"):
                    v = ("ftoi", v)
                elif self.pol.casts and isinstance(v, tuple):
                    v = narrowing(v, self.type_of(e[3], fr), ty, self.pol.casts == 2)
                out.append((s, v))
            return out
        if k == "cl":
            return self.ev(e[3], st, fr)
        if k == "init":
            return self.ev_init(e, st, fr)
        if k == "call":
            return self.ev_call(e, st, fr)
        if k == "sx":
            return self.ev_sx(e, st, fr)
        if k == "sizeof":
            return [(st, int(e[3]) if e[3] is not None else ("sizeof", e[4]))]
        if k == "this":
            return [(st, ("this",))]
        if k == "ctor":
            return self.ev_list(e[4], st, fr, lambda s, a: ("ctor", e[3]) + tuple(a))
        if k == "lambda":
            return [(st, ("lambda", fr.fn.file, e[1]))]
        if k == "other":
            return self.ev_list(e[4], st, fr, lambda s, a: ("other", e[3]) + tuple(a))
        raise AnalysisBroken("unknown expression kind %s" % k)

    def loaded(self, v, ty):
        """an unknown byte of memory, read as unsigned"""
        if self.pol.casts == 2 and isinstance(v, tuple) and ty.get("z") == 1 and ty.get("k") in ("uint", "bool") \
                and v[0] in ("*", "idx"):
            return ("cast", "u8", v)
        return v

    def read_any(self, s, l, ty):
        if l[0] == "fld" and isinstance(l[1], tuple) and l[1] and l[1][0] == "obj":
            return self.obj_field(s, l[1], ("fld", l[2]))
        if l[0] == "fld" and isinstance(l[1], tuple) and l[1] and l[1][0] in ("call", "val"):
            return self.simp(s, l)
        return self.read(s, l, ty)

    def obj_field(self, s, o, step):
        sub = []
        for path, v in o[2]:
            if path[0] == step:
                if len(path) == 1:
                    return self.simp(s, v)
                sub.append((path[1:], v))
        if sub:
            return ("obj", None if o[1] is None else (step[0], o[1], step[1]), tuple(sub))
        if o[1] is None:
            return 0
        return self.simp(s, (step[0], o[1], step[1]))

    def ev_list(self, es, st, fr, mk):
        cur = [(st, [])]
        for x in es:
            nxt = []
            for s, a in cur:
                if x is None:
                    nxt.append((s, a))
                    continue
                for s2, v in self.ev(x, s, fr):
                    nxt.append((s2, a + [v]))
            cur = nxt
        return [(s, mk(s, a)) for s, a in cur]

    def ev_init(self, e, st, fr):
        cur = [(st, [])]
        ty = self.type_of(e, fr)
        if ty.get("k") not in ("rec", "arr"):
            if e[3]:
                return self.ev(e[3][0][1], st, fr)
            return [(st, 0)]
        for key, x in e[3]:
            step = ("idx", key) if isinstance(key, int) else ("fld", self.pol.alias.get(key, key))
            nxt = []
            for s, items in cur:
                for s2, v in self.ev(x, s, fr):
                    if isinstance(v, tuple) and v and v[0] == "obj":
                        if v[1] is None:
                            it = [((step,) + p, w) for p, w in v[2]]
                            if not it:
                                it = []
                        else:
                            it = [((step,), v)]
                    elif key == "" :
                        it = []
                    else:
                        it = [((step,), v)]
                    nxt.append((s2, items + it))
            cur = nxt
        out = []
        for s, items in cur:
            # anonymous members: key "" holds nested object; flatten
            flat = []
            for p, v in items:
                p = tuple(q for q in p if q != ("fld", ""))
                if p:
                    flat.append((p, v))
                elif isinstance(v, tuple) and v and v[0] == "obj":
                    flat.extend(v[2])
            out.append((s, ("obj", None, tuple(flat))))
        return out

    def ev_un(self, e, st, fr):
        op = e[3]
        if op == "!":
            t, f = self.cond(e[4], st, fr)
            return [(s, 0) for s in t] + [(s, 1) for s in f]
        if op == "&":
            if e[4][0] == "ref" and e[4][4] == "f":
                return [(st, ("fn", e[4][3]))]
            return [(s, addr(l)) for s, l in self.lv(e[4], st, fr)]
        if op == "*":
            ty = self.type_of(e, fr)
            out = []
            for s, l in self.lv(e, st, fr):
                if isinstance(l, tuple) and l[0] == "fn":
                    out.append((s, l))
                elif ty.get("k") == "arr":
                    out.append((s, ("&", l)))
                else:
                    out.append((s, self.loaded(self.read_any(s, l, ty), ty)))
            return out
        if op in ("++", "--", "p++", "p--"):
            out = []
            ty = self.type_of(e, fr)
            for s, l in self.lv(e[4], st, fr):
                v = self.read(s, l, ty)
                n = binop("+", v, 1 if "+" in op else -1, ty)
                n = self.simp(s, n)
                self.store(s, l, n, e, fr, ty)
                out.append((s, v if op[0] == "p" else n))
            return out
        out = []
        ty = self.type_of(e, fr)
        for s, v in self.ev(e[4], st, fr):
            if isinstance(v, (int, float)):
                if op == "-":
                    v = wrap(-v, ty) if isinstance(v, int) else -v
                elif op == "~" and isinstance(v, int):
                    v = wrap(~v, ty)
                out.append((s, v))
            elif op == "+":
                out.append((s, v))
            else:
                out.append((s, ("u" + op, v)))
        return out

    def ev_asg(self, e, st, fr):
        op = e[3]
        ty = self.type_of(e, fr)
        out = []
        if op == "=":
            for s, v in self.ev(e[5], st, fr):
                for s2, l in self.lv(e[4], s, fr):
                    if isinstance(v, int):
                        v2 = wrap(v, ty)
                    else:
                        v2 = v
                    self.store(s2, l, v2, e, fr, ty)
                    out.append((s2, v2))
            return out
        bop = op[:-1]
        for s, v in self.ev(e[5], st, fr):
            for s2, l in self.lv(e[4], s, fr):
                old = self.read(s2, l, ty)
                n = self.simp(s2, binop(bop, old, v, ty))
                self.store(s2, l, n, e, fr, ty)
                out.append((s2, n))
        return out

    def store(self, st, l, v, e, fr, ty=None):
        if l[0] == "fld" and l[2] in self.pol.record_fields:
            self.record(st, Ev("write", l[2], (l, v), fr.fn.loc(e[1]), None, fr.fn.name, e))
        self.write(st, l, v, ty)

    def record(self, st, ev):
        st.ev = (ev, st.ev)

    def ev_sx(self, e, st, fr):
        body = e[3]
        stmts = body[2]
        if not stmts:
            return [(st, None)]
        last = stmts[-1]
        states = [st]
        for x in stmts[:-1]:
            states = self.ex(x, states, fr, fr.out)
        out = []
        for s in states:
            while last[0] == "label":
                last = last[3]
            if last[0] == "expr":
                out.extend(self.ev(last[2], s, fr))
            else:
                for s2 in self.ex(last, [s], fr, fr.out):
                    out.append((s2, None))
        return out

    # ------------------------------------------------------------------ conditions
    def cond(self, e, st, fr):
        """(true states, false states)"""
        k = e[0]
        if k == "un" and e[3] == "!":
            t, f = self.cond(e[4], st, fr)
            return f, t
        if k == "bin" and e[3] == "&&":
            t, f = self.cond(e[4], st, fr)
            T, F = [], f
            for s in t:
                a, b = self.cond(e[5], s, fr)
                T = T + a
                F = F + b
            return T, F
        if k == "bin" and e[3] == "||":
            t, f = self.cond(e[4], st, fr)
            T, F = t, []
            for s in f:
                a, b = self.cond(e[5], s, fr)
                T = T + a
                F = F + b
            return T, F
        if k == "cond":
            t, f = self.cond(e[3], st, fr)
            T, F = [], []
            for s in t:
                a, b = self.cond(e[4], s, fr)
                T, F = T + a, F + b
            for s in f:
                a, b = self.cond(e[5], s, fr)
                T, F = T + a, F + b
            return T, F
        T, F = [], []
        for s, v in self.ev(e, st, fr):
            if v is None:
                v = ("void",)
            a, b = self.branch(s, v)
            if a is not None:
                T.append(a)
            if b is not None:
                F.append(b)
        return T, F

    # ------------------------------------------------------------------ calls
    def ev_call(self, e, st, fr):
        ce = e[3]
        if ce[0] == "ref" and ce[4] == "f":
            starts = [(st, ("fn", ce[3]))]
        elif ce[0] == "mem" and self.type_of(ce, fr).get("k") in ("other", "func", "dep"):
            # C++ member call: object is argument 0
            starts = []
            for s, o in (self.ev(ce[3], st, fr)):
                starts.append((s, ("fn", ce[4], o)))
        else:
            starts = self.ev(ce, st, fr)
        out = []
        for s0, cal in starts:
            pre = []
            if isinstance(cal, tuple) and cal[0] == "fn" and len(cal) == 3:
                pre = [cal[2]]
                cal = ("fn", cal[1])
            for s, args in self.ev_list(e[4], s0, fr, lambda s, a: tuple(a)):
                out.extend(self.call(cal, tuple(pre) + args, s, fr, e))
        return out

    def call(self, cal, args, st, fr, e):
        name = cal[1] if isinstance(cal, tuple) and cal[0] == "fn" else None
        pol = self.pol
        loc = fr.fn.loc(e[1])
        if name:
            m = pol.models.get(name)
            if m is not None:
                r = m(self, st, fr, args, e)
                if r is not None:
                    return r
            b = BUILTIN.get(name)
            if b is not None:
                r = b(self, st, args)
                if r is not None:
                    return [(st, r)]
            if e[5]:
                self.record(st, Ev("call", name, args, loc, None, fr.fn.name, e))
                self.noret.append((st, name, loc))
                return []
            fn = self.P.fn(name, tu=fr.fn.tu)
            if fn is not None and pol.inline(self, fn, fr):
                return self.inline(fn, args, st, fr)
            if name in pol.pure or (fn is not None and self.P.is_pure(fn)) or name in LIBC_PURE:
                return [(st, self.simp(st, ("call", name, args, None)))]
        else:
            m = pol.models.get("<indirect>")
            if m is not None:
                r = m(self, st, fr, (cal,) + args, e)
                if r is not None:
                    return r
            name = "<indirect>"
            args = (cal,) + args
        return self.opaque(name, args, st, fr, e, loc)

    def opaque(self, name, args, st, fr, e, loc):
        st.nid += 1
        ty = self.type_of(e, fr)
        res = None
        if ty.get("k") != "void":
            res = ("call", name, args, st.nid)
        if self.pol.record_calls is None or name in self.pol.record_calls:
            self.record(st, Ev("call", name, args, loc, res, fr.fn.name, e))
        self.havoc_call(name, args, st, fr, e)
        return [(st, res)]

    def havoc_call(self, name, args, st, fr, e):
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a and a[0] == "&":
                l = a[1]
                if self.const_param(name, i, fr):
                    continue
                self.clear_under(st, l)
                st.hav[l] = st.nid
                if l[0] == "fld":
                    st.hav[(l[1], l[2])] = st.nid
                st.hav[(l, None)] = st.nid
            elif self.pol.havoc_recs and isinstance(a, tuple) and is_ptrterm(a):
                if i < len(e[4]):
                    t = self.type_of(e[4][i], fr)
                    if t.get("k") == "ptr":
                        pt = fr.fn.tu.types[t["e"]]
                        if pt.get("rec") in self.pol.havoc_recs and not pt.get("const"):
                            d = ("*", a)
                            self.clear_under(st, d)
                            st.hav[(d, None)] = st.nid

    def const_param(self, name, i, fr):
        fn = self.P.fn(name, tu=fr.fn.tu)
        if fn and i < len(fn.params):
            t = fn.tu.types[fn.params[i][2]]
            if t.get("k") == "ptr" and fn.tu.types[t["e"]].get("const"):
                return True
        return False

    def inline(self, fn, args, st, fr):
        self.fns_seen.add(fn)
        self.uid += 1
        nf = Frame(fn, self.uid, fr.depth + 1, fr.chain + (fr.fn,))
        np = len(fn.params)
        for i, p in enumerate(fn.params):
            if i < len(args):
                self.write(st, ("v", nf.uid, p[1], p[0]), args[i], fn.tu.types[p[2]])
        nf.var = args[np:]
        res = self.body(fn, [st], nf)
        out = []
        for s, v in res:
            self.drop_frame(s, nf.uid)
            out.append((s, v))
        if len(out) > 12:
            out = dedupe_v(out)
        return out

    def drop_frame(self, s, uid):
        dead = [k for k in s.mem if root_uid(k) == uid]
        if dead:
            # keep locals whose address escaped into surviving memory
            for k in dead:
                del s.mem[k]

    def body(self, fn, states, fr):
        """run a function body: [(state, return value)]"""
        out = Out()
        fr.out = out
        n = self.ex(fn.body, states, fr, out)
        done = 0
        rounds = 0
        while out.g:
            rounds += 1
            if rounds > 60:
                break
            label, ss = next(iter(out.g.items()))
            del out.g[label]
            ss2 = []
            for s in ss:
                c = s.gc.get((fr.uid, label), 0)
                if c < self.pol.loop_bound:
                    s.gc = dict(s.gc)
                    s.gc[(fr.uid, label)] = c + 1
                    ss2.append(s)
            if not ss2:
                continue
            target = self.find_label(fn, label)
            n = n + self.seek(fn.body, target, dedupe(ss2), fr, out)
        res = list(out.r)
        isvoid = fn.tu.types[fn.ret].get("k") == "void"
        for s in n:
            res.append((s, None if isvoid else ("noreturn-value",)))
        return res

    def find_label(self, fn, label):
        if fn._labels is None:
            fn._labels = {x[2]: x for x in walk(fn.body) if x[0] == "label"}
        return fn._labels[label]

    # ------------------------------------------------------------------ statements
    def ex(self, s, states, fr, out):
        """execute s from each state; returns the states that fall through"""
        if s is None or not states:
            return states
        if len(states) > 6:
            states = dedupe(states)
            if self.pol.keep is not None and len(states) > self.pol.join_at:
                states = self.join(states)
            if len(states) > self.lim:
                raise Limit("too many abstract states in %s (line %d)" % (fr.fn, s[1]))
        k = s[0]
        if k == "comp":
            for x in s[2]:
                if not states:
                    break
                states = self.ex(x, states, fr, out)
            dead = self.declared(s)
            if dead:
                for st in states:
                    for d in dead:
                        st.mem.pop(("v", fr.uid) + d, None)
            return states
        if k == "expr":
            r = []
            for st in states:
                r.extend(x for x, _ in self.ev(s[2], st, fr))
            return r
        if k == "decl":
            return self.ex_decl(s, states, fr)
        if k == "if":
            if s[5]:
                states = self.ex(s[5], states, fr, out)
            r = []
            for st in states:
                t, f = self.cond(s[2], st, fr)
                r.extend(self.ex(s[3], t, fr, out))
                r.extend(self.ex(s[4], f, fr, out) if s[4] else f)
            return r
        if k == "ret":
            for st in states:
                if s[2] is None:
                    out.r.append((st, None))
                else:
                    ty = fr.fn.tu.types[fr.fn.ret]
                    for st2, v in self.ev(s[2], st, fr):
                        if isinstance(v, int):
                            v = wrap(v, ty)
                        out.r.append((st2, v))
            return []
        if k == "while":
            return self.loop(states, fr, out, s[2], None, s[3], False)
        if k == "do":
            return self.loop(states, fr, out, s[3], None, s[2], True)
        if k == "for":
            if s[2]:
                states = self.ex(s[2], states, fr, out)
            return self.loop(states, fr, out, s[3], s[4], s[5], False)
        if k == "rfor":
            r = []
            for st in states:
                for st2, v in self.ev(s[3], st, fr):
                    r.append(st2)
            states = r
            return self.loop_range(states, fr, out, s)
        if k == "switch":
            return self.ex_switch(s, states, fr, out)
        if k == "case":
            return self.ex(s[4], states, fr, out)
        if k == "default":
            return self.ex(s[2], states, fr, out)
        if k == "break":
            out.b.extend(states)
            return []
        if k == "continue":
            out.c.extend(states)
            return []
        if k == "goto":
            out.g.setdefault(s[2], []).extend(states)
            return []
        if k == "label":
            return self.ex(s[3], states, fr, out)
        if k == "null":
            return states
        if k == "other":
            for x in s[3]:
                states = self.ex(x, states, fr, out)
            return states
        raise AnalysisBroken("unknown statement kind %s" % k)

    def declared(self, s):
        d = self.decl_cache.get(id(s))
        if d is None:
            d = [(v[1], v[0]) for x in s[2] if x and x[0] == "decl" for v in x[2] if not v[4]]
            self.decl_cache[id(s)] = d
        return d

    def join(self, states):
        """merge states that differ only in facts the rule does not care about"""
        keep = self.pol.keep
        groups = {}
        for s in states:
            kf = frozenset((t, f) for t, f in s.facts.items() if keep(t))
            k = (frozenset(s.mem.items()), s.ev, kf, frozenset(s.hav.items()))
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            a = g[0]
            for b in g[1:]:
                for t in list(a.facts):
                    fa, fb = a.facts[t], b.facts.get(t)
                    if fb is None:
                        del a.facts[t]
                    elif fa != fb:
                        lo, hi = min(fa[0], fb[0]), max(fa[1], fb[1])
                        na = {x for x in fa[2] if x in fb[2] or x < fb[0] or x > fb[1]} | \
                             {x for x in fb[2] if x < fa[0] or x > fa[1]}
                        n = frozenset(x for x in na if lo <= x <= hi)
                        # a hole where the two intervals do not contain 0
                        if fa[0] == fa[1] and fb[0] == fb[1]:
                            pass
                        if 0 not in n and lo <= 0 <= hi and (fa[0] > 0 or fa[1] < 0 or 0 in fa[2]) and \
                                (fb[0] > 0 or fb[1] < 0 or 0 in fb[2]):
                            n = n | {0}
                        if (lo, hi, n) == TOP:
                            del a.facts[t]
                        else:
                            a.facts[t] = (lo, hi, n)
            out.append(a)
        return out

    def frozen(self, fn, name):
        """is the function's static variable never written, so that it keeps its initial value?"""
        k = (fn, name)
        if k not in self.frozen_:
            def base(e):
                while e and e[0] in ("mem", "idx", "cast", "cl") and len(e) > 3 and isinstance(e[3], list):
                    e = e[3]
                return bool(e) and e[0] == "ref" and e[3] == name
            self.frozen_[k] = not any(x[0] == "asg" and base(x[4]) or x[0] == "un" and x[3] in ("&", "++", "--", "pre++", "post++", "pre--", "post--") and base(x[4]) or
                                      x[0] == "call" and any(base(a) and a[0] in ("ref", "cast") for a in x[4]) for x in walk(fn.body))
        return self.frozen_[k]

    def ex_decl(self, s, states, fr):
        for name, did, tid, init, static, line in s[2]:
            if static and (init is None or not self.frozen(fr.fn, name)):
                continue
            l = self.glv(name, True, fr) if static else ("v", fr.uid, did, name)
            ty = fr.fn.tu.types[tid]
            r = []
            for st in states:
                self.clear_under(st, l)
                if init is None:
                    st.hav.pop(l, None)
                    r.append(st)
                    continue
                if ty.get("k") == "arr" and init[0] == "str":
                    st.mem[l] = ("@base", ("*", ("str", init[3])))
                    r.append(st)
                    continue
                for st2, v in self.ev(init, st, fr):
                    if isinstance(v, int):
                        v = wrap(v, ty)
                    self.write(st2, l, v, ty)
                    r.append(st2)
            states = r
        return states

    def loop(self, states, fr, out, cond, inc, body, isdo):
        res = []
        cur = states
        it = 0
        bound = self.pol.loop_bound
        sym_iters = 0
        while cur:
            if not (isdo and it == 0):
                t_all = []
                forked = False
                for st in cur:
                    if cond is None:
                        t_all.append(st)
                        continue
                    t, f = self.cond(cond, st, fr)
                    if t and f:
                        forked = True
                    t_all.extend(t)
                    res.extend(f)
                cur = dedupe(t_all)
                if not cur:
                    break
                endless = cond is None or (self.pol.bound_endless and uncast_e(cond)[0] == "int" and int(uncast_e(cond)[3]))
                if forked or endless or it > self.pol.const_loop:
                    sym_iters += 1
                if not endless and not forked and it <= self.pol.const_loop:
                    pass
                elif sym_iters > bound:
                    self.loop_cut(cur, fr, cond)
                    break
            sub = Out()
            sub.r, sub.g = out.r, out.g
            saved = fr.out
            fr.out = sub
            n = self.ex(body, cur, fr, sub)
            fr.out = saved
            res.extend(sub.b)
            cur = n + sub.c
            if inc is not None:
                r = []
                for st in cur:
                    r.extend(x for x, _ in self.ev(inc, st, fr))
                cur = r
            it += 1
            if it > self.pol.const_loop:
                break
            if isdo and it > 0 and cond is not None and False:
                break
            if len(res) > 6:
                res = dedupe(res)
        return res

    def loop_cut(self, states, fr, cond):
        pass

    def loop_range(self, states, fr, out, s):
        res = list(st.copy() for st in states)
        cur = states
        for _ in range(self.pol.loop_bound):
            for st in cur:
                for name, did, tid, init, static, line in (s[2][2] if s[2] else []):
                    st.nid += 1
                    self.write(st, ("v", fr.uid, did, name), ("elem", s[1], st.nid))
            sub = Out()
            sub.r, sub.g = out.r, out.g
            n = self.ex(s[4], cur, fr, sub)
            res.extend(sub.b)
            cur = n + sub.c
            res.extend(st.copy() for st in cur)
        return res

    def switch_cases(self, body):
        """cases belonging to this switch: [(lo, hi, node)], default node"""
        cs, df = [], None
        st = [body]
        while st:
            x = st.pop()
            if not isinstance(x, list) or not x:
                continue
            k = x[0]
            if k == "case":
                cs.append(x)
                st.append(x[4])
            elif k == "default":
                df = x
                st.append(x[2])
            elif k == "comp":
                st.extend(reversed(x[2]))
            elif k == "if":
                st.extend([x[4], x[3]])
            elif k in ("while",):
                st.append(x[3])
            elif k == "do":
                st.append(x[2])
            elif k == "for":
                st.append(x[5])
            elif k == "label":
                st.append(x[3])
        return cs, df

    def ex_switch(self, s, states, fr, out):
        cs, df = self.switch_cases(s[3])
        res = []
        groups = {}
        order = []

        def add(node, st):
            i = id(node)
            if i not in groups:
                groups[i] = (node, [])
            groups[i][1].append(st)
        dummy = None
        for st0 in states:
            for st, v in self.ev(s[2], st0, fr):
                if isinstance(v, int):
                    hit = None
                    for c in cs:
                        lo = self.constval(c[2], fr)
                        hi = self.constval(c[3], fr) if c[3] else lo
                        if lo <= v <= hi:
                            hit = c
                            break
                    if hit is None:
                        hit = df
                    if hit is None:
                        res.append(st)
                    else:
                        add(hit, st)
                    continue
                rest = st
                for c in cs:
                    lo = self.constval(c[2], fr)
                    hi = self.constval(c[3], fr) if c[3] else lo
                    if rest is None:
                        break
                    o = rest.copy()
                    if lo == hi:
                        a = self.assume(o, binop("==", v, lo), True)
                        if a is not None:
                            add(c, a)
                        rest = self.assume(rest, binop("==", v, lo), False)
                    else:
                        if self.set_fact(o, v, lo=lo, hi=hi):
                            add(c, o)
                if rest is not None:
                    if df is not None:
                        add(df, rest)
                    else:
                        res.append(rest)
        sub = Out()
        sub.c, sub.r, sub.g = out.c, out.r, out.g
        saved = fr.out
        fr.out = sub
        for node, ss in groups.values():
            res.extend(self.seek(s[3], node, ss, fr, sub))
        fr.out = saved
        res.extend(sub.b)
        return res

    def constval(self, e, fr):
        r = self.ev(e, St(), fr)
        if len(r) != 1 or not isinstance(r[0][1], int):
            raise AnalysisBroken("case label is not constant in %s" % fr.fn)
        return r[0][1]

    def has(self, s, target):
        if s is target:
            return True
        if not isinstance(s, list) or not s:
            return False
        c = self.contains_cache.get(id(s))
        if c is None:
            c = {id(x) for x in walk(s)}
            self.contains_cache[id(s)] = c
        return id(target) in c

    def seek(self, s, target, states, fr, out):
        """resume execution of s at the nested statement target"""
        if s is target:
            return self.ex(s, states, fr, out)
        k = s[0]
        if k == "comp":
            for i, x in enumerate(s[2]):
                if self.has(x, target):
                    states = self.seek(x, target, states, fr, out)
                    for y in s[2][i + 1:]:
                        if not states:
                            break
                        states = self.ex(y, states, fr, out)
                    return states
        elif k == "if":
            if self.has(s[3], target):
                return self.seek(s[3], target, states, fr, out)
            if s[4] and self.has(s[4], target):
                return self.seek(s[4], target, states, fr, out)
            return self.ex(s, states, fr, out)
        elif k in ("case",):
            return self.seek(s[4], target, states, fr, out)
        elif k == "default":
            return self.seek(s[2], target, states, fr, out)
        elif k == "label":
            return self.seek(s[3], target, states, fr, out)
        elif k in ("while", "for", "do"):
            cond, inc, body = (s[2], None, s[3]) if k == "while" else \
                (s[3], s[4], s[5]) if k == "for" else (s[3], None, s[2])
            sub = Out()
            sub.r, sub.g = out.r, out.g
            n = self.seek(body, target, states, fr, sub) if self.has(body, target) else states
            cur = n + sub.c
            if inc is not None:
                r = []
                for st in cur:
                    r.extend(x for x, _ in self.ev(inc, st, fr))
                cur = r
            return sub.b + self.loop(cur, fr, out, cond, inc, body, False)
        elif k == "switch":
            sub = Out()
            sub.c, sub.r, sub.g = out.c, out.r, out.g
            n = self.seek(s[3], target, states, fr, sub)
            return n + sub.b
        elif k == "expr":
            # target inside a statement expression: approximate by the expression itself
            return self.ex(s, states, fr, out)
        raise AnalysisBroken("cannot resume at label in %s" % fr.fn)

    # ------------------------------------------------------------------ entry
    def run(self, fn, init=None, args=None):
        """all paths of fn: [Path]"""
        self.fns_seen.add(fn)
        st = St()
        self.uid += 1
        fr = Frame(fn, self.uid, 0, ())
        for i, p in enumerate(fn.params):
            v = args[i] if args and i < len(args) and args[i] is not None else ("p", i)
            self.write(st, ("v", fr.uid, p[1], p[0]), v, fn.tu.types[p[2]])
        self.noret = []
        states = [st]
        if init:
            r = init(self, st)
            if isinstance(r, list):
                states = r
            elif r is not None:
                states = [r]
        res = dedupe_v(self.body(fn, states, fr))
        self.npaths += len(res)
        return [Path(s, v, fn) for s, v in res]


class Path:
    __slots__ = ("st", "ret", "fn", "_ev", "wrapped")

    def __init__(self, st, ret, fn):
        self.st, self.ret, self.fn, self._ev = st, ret, fn, None

    @property
    def events(self):
        if self._ev is None:
            self._ev = self.st.events()
        return self._ev

    def calls(self, *names):
        return [e for e in self.events if e.kind == "call" and e.name in names]

    def facts(self):
        return self.st.facts

    def describe(self, limit=12):
        fs = []
        for t, (lo, hi, ne) in self.st.facts.items():
            if lo == hi:
                fs.append("%s==%s" % (show(t), lo))
            else:
                fs.extend("%s!=%s" % (show(t), x) for x in sorted(ne, key=str))
        return "; ".join(fs[-limit:])


class GRef:
    """hashable handle of a global's definition"""
    __slots__ = ("d", "fakefn")

    def __init__(self, d):
        self.d = d

        class F:
            pass
        f = F()
        f.tu, f.name, f.file, f.line = d["tu"], "<init>", d["rfile"], d["line"]
        f.loc = lambda l=None: "%s:%d" % (f.file, l or f.line)
        self.fakefn = f

    def __repr__(self):
        return ""


def root_uid(k):
    while isinstance(k, tuple) and k[0] in ("fld", "idx"):
        k = k[1]
    return k[1] if isinstance(k, tuple) and k[0] == "v" else None


def under(k, lv):
    """path of k below lv, or None"""
    path = []
    while isinstance(k, tuple) and k and k[0] in ("fld", "idx"):
        path.append((k[0], k[2]))
        k = k[1]
        if k == lv:
            path.reverse()
            return tuple(path)
    return None


def deref(p):
    if isinstance(p, tuple) and p[0] == "&":
        return p[1]
    if isinstance(p, tuple) and p[0] == "fn":
        return p
    if isinstance(p, tuple) and p[0] == "+" and len(p) == 3:
        if isinstance(p[1], tuple) and p[1][0] == "&" and p[1][1][0] == "idx":
            return ("idx", p[1][1][1], binop("+", p[1][1][2], p[2]))
        if isinstance(p[1], tuple) and p[1][0] == "&":
            return ("idx", p[1][1], p[2])
        return ("idx", ("*", p[1]), p[2])
    return ("*", p)


def umember(lv, names):
    """(object, member) when lv lies in a member of an object whose members share storage"""
    while isinstance(lv, tuple) and lv[0] in ("fld", "idx"):
        if lv[0] == "fld" and lv[2] in names:
            return lv[1], lv[2]
        lv = lv[1]
    return None


def is_ptr_idx(p):
    return True


def idx_of(p, i):
    if isinstance(p, tuple) and p[0] == "+" and len(p) == 3:
        return deref(binop("+", p, i))
    if isinstance(p, tuple) and p[0] == "&":
        l = p[1]
        if l[0] == "idx":
            return ("idx", l[1], binop("+", l[2], i))
        return ("idx", l, i)
    if i == 0:
        return ("*", p)
    return ("idx", ("*", p), i)


def addr(l):
    if l[0] == "*":
        return l[1]
    if l[0] == "fn":
        return l
    return ("&", l)


def is_ptrterm(a):
    return a[0] in ("v", "p", "fld", "call", "hv", "idx", "*", "g")


def dedupe(states):
    if len(states) < 2:
        return states
    seen, out = set(), []
    for s in states:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


def dedupe_v(res):
    if len(res) < 2:
        return res
    seen, out = set(), []
    for s, v in res:
        k = (s.key(), v)
        if k not in seen:
            seen.add(k)
            out.append((s, v))
    return out


def _strcmp(n=None):
    def f(eng, st, a):
        if len(a) >= 2 and all(isinstance(x, tuple) and x[0] == "str" for x in a[:2]):
            x, y = a[0][1], a[1][1]
            if n:
                if not isinstance(a[2], int):
                    return None
                x, y = x[:a[2]], y[:a[2]]
            return 0 if x == y else (1 if x > y else -1)
        return None
    return f


def _strlen(eng, st, a):
    if isinstance(a[0], tuple) and a[0][0] == "str":
        return len(a[0][1])
    return None


def _expect(eng, st, a):
    return a[0]


LIBC_PURE = {"strlen", "strcmp", "strncmp", "isalpha", "isdigit", "isalnum", "isspace", "isupper", "islower",
             "isxdigit", "isprint", "ispunct", "toupper", "tolower", "abs", "memcmp", "strchr", "strrchr", "strstr"}
BUILTIN = {"strcmp": _strcmp(), "strncmp": _strcmp(True), "strlen": _strlen, "__builtin_strlen": _strlen,
           "__builtin_expect": _expect, "__builtin_object_size": lambda e, s, a: ("objsize",)}


def uncast_e(e):
    """an expression without the conversions around it"""
    while e[0] == "cast":
        e = next((x for x in e[2:] if isinstance(x, (list, tuple)) and x and isinstance(x[0], str)), ("?",))
    return e
