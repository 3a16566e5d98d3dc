"""Typestate dataflow over a function's AST: the abstract value is a set of (client state, path knowledge) pairs,
so it is path sensitive on the client's state and on the truth of side-effect free conditions; loops run to a fixpoint.

A client provides
    call(flow, name, node, core)  -> [(core', value)]   ([] when the call does not return; None: nothing special)
    node(flow, n, core)           -> core'              (optional; every assignment / unary update)
values: an int when known, "nz" when known nonzero, None when unknown.
"""
from prog import walk, callee_name
import json

MAXSTATES = 4000


class Blowup(Exception):
    pass


def key_of(e):
    """canonical key of a side-effect free expression over locals/fields, or None"""
    k = e[0]
    if k == "ref":
        return "%s#%s" % (e[3], e[5]) if e[4] in ("v", "p", "g", "s") else None
    if k == "int":
        return e[3]
    if k == "enum":
        return e[4]
    if k == "mem":
        b = key_of(e[3])
        return b and "%s.%s" % (b, e[4])
    if k == "cast":
        return key_of(e[3])
    if k == "idx":
        a, b = key_of(e[3]), key_of(e[4])
        return a and b and "%s[%s]" % (a, b)
    if k == "un" and e[3] in ("*", "&", "!", "-", "~"):
        b = key_of(e[4])
        if b and e[3] == "*":
            return "(*%s)" % b
        return b and "(%s%s)" % (e[3], b)
    if k == "bin" and e[3] in ("&", "==", "!=", "<", ">", "<=", ">=", "|", "+", "-", "<<"):
        a, b = key_of(e[4]), key_of(e[5])
        return a and b and "(%s%s%s)" % (a, e[3], b)
    return None


class Flow:
    def __init__(self, P, fn, client, track=True, fields=True):
        self.P, self.fn, self.client, self.track, self.fields = P, fn, client, track, fields
        self.exits = []           # (ret node or None, core, value)
        self.deadends = []        # (call node, core)
        self.labels = {x[2]: x for x in walk(fn.body) if x[0] == "label"}
        self.gotos = {}
        self.label_in = {}
        self.sx_break = None

    # ---- driver
    def run(self, core):
        ini = {(core, frozenset())}
        out = self.stmt(self.fn.body, ini, Ctl())
        for s in out:
            self.exits.append((None, s[0], None))
        return self.exits

    def finish(self):
        pass

    # ---- environment
    def get(self, s, k):
        if k is None:
            return None
        for a, v in s[1]:
            if a == k:
                return v
        return None

    def put(self, s, k, v):
        if not self.track or k is None:
            return s
        if not self.fields and ("." in k or "(*" in k or "[" in k):
            return s
        env = frozenset((a, b) for a, b in s[1] if a != k)
        if v is not None:
            env = env | {(k, v)}
        return (s[0], env)

    def kill(self, s, k):
        """forget everything that mentions lvalue k"""
        if k is None or not s[1]:
            return s
        last = k.rsplit(".", 1)[-1] if "." in k else None
        env = frozenset((a, b) for a, b in s[1]
                        if k not in a and not (last is not None and ("." + last) in a))
        return (s[0], env) if len(env) != len(s[1]) else s

    def kill_call(self, s, name, node):
        if not s[1]:
            return s
        if name is None:
            return (s[0], frozenset((a, b) for a, b in s[1] if "." not in a and "*" not in a and "[" not in a))
        f = self.P.fn(name, tu=self.fn.tu)
        if f is None:
            mods = None
        else:
            mods = self.P.mods(f)
        env = []
        addr = set()
        for a in node[4]:
            while a[0] == "cast":
                a = a[3]
            if a[0] == "un" and a[3] == "&":
                kk = key_of(a[4])
                if kk:
                    addr.add(kk)
        for a, b in s[1]:
            if any(x in a for x in addr):
                continue
            if mods:
                if "*" in mods and "*" in a:
                    continue
                if any(("." + m) in a for m in mods if m not in ("*", "[]")):
                    continue
            env.append((a, b))
        return (s[0], frozenset(env))

    # ---- expressions: [(state, value)]
    def ev(self, e, S):
        """evaluate e from every state in S -> set of (state, value)"""
        if e is None:
            return {(s, None) for s in S}
        k = e[0]
        if len(S) > MAXSTATES:
            raise Blowup(self.fn.name)
        if k == "int":
            v = int(e[3])
            return {(s, v) for s in S}
        if k == "enum":
            return {(s, int(e[4])) for s in S}
        if k == "str":
            return {(s, "nz") for s in S}
        if k == "ref":
            if e[4] == "f":
                return {(s, "nz") for s in S}
            kk = key_of(e)
            return {(s, self.get(s, kk)) for s in S}
        if k == "call":
            return self.ev_call(e, S)
        if k == "sx":
            return self.ev_sx(e, S)
        if k == "asg":
            return self.ev_asg(e, S)
        if k == "un":
            if e[3] in ("++", "--", "p++", "p--"):
                S1 = {s for s, _ in self.ev(e[4], S)}
                kk = key_of(e[4])
                return {(self.notify(e, self.kill(s, kk)), None) for s in S1}
            if e[3] == "!":
                T, F = self.cond(e[4], S)
                return {(s, 0) for s in T} | {(s, 1) for s in F}
            r = self.ev(e[4], S)
            if e[3] == "&":
                return {(s, "nz") for s, _ in r}
            kk = key_of(e)
            return {(s, self.get(s, kk)) for s, _ in r}
        if k == "bin":
            if e[3] in ("&&", "||") or e[3] in ("==", "!=", "<", ">", "<=", ">="):
                T, F = self.cond(e, S)
                return {(s, 1) for s in T} | {(s, 0) for s in F}
            if e[3] == ",":
                S1 = {s for s, _ in self.ev(e[4], S)}
                return self.ev(e[5], S1)
            kk = key_of(e)
            out = set()
            for s1, a in self.ev(e[4], S):
                for s2, b in self.ev(e[5], {s1}):
                    v = self.get(s2, kk)
                    if isinstance(a, int) and isinstance(b, int):
                        v = fold(e[3], a, b)
                    elif e[3] == "&" and (a == 0 or b == 0) and not isinstance(a, str) and not isinstance(b, str):
                        v = 0
                    out.add((s2, v))
            return out
        if k == "cond":
            T, F = self.cond(e[3], S)
            return self.ev(e[4], T) | self.ev(e[5], F)
        if k == "bcond":
            T, F = self.cond(e[3], S)
            return {(s, "nz") for s in T} | self.ev(e[4], F)
        if k == "cast":
            return self.ev(e[3], S)
        if k == "mem":
            r = self.ev(e[3], S)
            kk = key_of(e)
            return {(s, self.get(s, kk)) for s, _ in r}
        if k == "init":
            for _, x in e[3]:
                S = {s for s, _ in self.ev(x, S)}
            return {(s, None) for s in S}
        if k == "cl":
            return self.ev(e[3], S)
        if k == "idx":
            S = {s for s, _ in self.ev(e[3], S)}
            S = {s for s, _ in self.ev(e[4], S)}
            kk = key_of(e)
            return {(s, self.get(s, kk)) for s in S}
        if k in ("other", "ctor"):
            for x in e[4] if len(e) > 4 and isinstance(e[4], list) else []:
                S = {s for s, _ in self.ev(x, S)}
            return {(s, None) for s in S}
        return {(s, None) for s in S}

    def notify(self, n, s):
        h = getattr(self.client, "node", None)
        if h:
            c = h(self, n, s[0])
            if c is not s[0]:
                return (c, s[1])
        return s

    def ev_asg(self, e, S):
        r = self.ev(e[5], S)
        lv = e[4]
        kk = key_of(lv)
        # side effects inside the lvalue
        if lv[0] != "ref":
            nr = set()
            for s, v in r:
                base = lv[3] if lv[0] in ("mem", "idx") else lv[4] if lv[0] == "un" else lv
                for s2, _ in self.ev(base, {s}):
                    nr.add((s2, v))
            r = nr
        out = set()
        for s, v in r:
            s = self.kill(s, kk)
            s = self.notify(e, s)
            if e[3] == "=" and v is not None:
                s = self.put(s, kk, v)
            out.add((s, v if e[3] == "=" else None))
        return out

    def ev_sx(self, e, S):
        b = e[3]
        last = b[2][-1] if b[0] == "comp" and b[2] else None
        ctl = self.ctl
        for x in (b[2][:-1] if last is not None else []):
            S = self.stmt(x, S, ctl)
        if last is None:
            return {(s, None) for s in S}
        if last[0] == "expr":
            return self.ev(last[2], S)
        S = self.stmt(last, S, ctl)
        return {(s, None) for s in S}

    def ev_call(self, e, S):
        name = callee_name(e)
        if name == "__builtin_expect" and e[4]:
            return self.ev(e[4][0], S)
        if name is None:
            S = {s for s, _ in self.ev(e[3], S)}
        for a in e[4]:
            S = {s for s, _ in self.ev(a, S)}
        out = set()
        for s in S:
            r = self.client.call(self, name, e, s[0])
            s = self.kill_call(s, name, e)
            if r is None:
                if e[5]:
                    self.deadends.append((e, s[0]))
                    continue
                out.add((s, None))
                continue
            if not r:
                self.deadends.append((e, s[0]))
            for c, v in r:
                out.add(((c, s[1]), v))
        return out

    # ---- conditions
    def cond(self, e, S):
        k = e[0]
        if not S:
            return set(), set()
        if k == "un" and e[3] == "!":
            T, F = self.cond(e[4], S)
            return F, T
        if k == "cast":
            return self.cond(e[3], S)
        if k == "call" and callee_name(e) == "__builtin_expect" and e[4]:
            return self.cond(e[4][0], S)
        if k == "bin" and e[3] == "&&":
            T, F = self.cond(e[4], S)
            T2, F2 = self.cond(e[5], T)
            return T2, F | F2
        if k == "bin" and e[3] == "||":
            T, F = self.cond(e[4], S)
            T2, F2 = self.cond(e[5], F)
            return T | T2, F2
        if k == "bin" and e[3] in ("==", "!="):
            a, b = e[4], e[5]
            for x, y in ((a, b), (b, a)):
                if y[0] == "cast":
                    y = y[3]
                if y[0] == "int" and int(y[3]) == 0:
                    T, F = self.cond(x, S)
                    return (F, T) if e[3] == "==" else (T, F)
        if k == "bin" and e[3] in ("==", "!=", "<", ">", "<=", ">="):
            T, F = set(), set()
            for s, va in self.ev(e[4], S):
                for s2, vb in self.ev(e[5], {s}):
                    if isinstance(va, int) and isinstance(vb, int):
                        r = {"==": va == vb, "!=": va != vb, "<": va < vb, ">": va > vb,
                             "<=": va <= vb, ">=": va >= vb}[e[3]]
                        (T if r else F).add(s2)
                        continue
                    kk = key_of(e)
                    eq = e[3] in ("==", "!=")
                    if eq:
                        ee = list(e)
                        ee[3] = "=="
                        kk = key_of(ee)
                    v = self.get(s2, kk)
                    if v is not None:
                        t = bool(v) == (e[3] != "!=")
                        (T if t else F).add(s2)
                        continue
                    st, sf = s2, s2
                    if kk is not None:
                        st = self.put(s2, kk, 0 if e[3] == "!=" else 1)
                        sf = self.put(s2, kk, 1 if e[3] == "!=" else 0)
                        if eq and isinstance(vb, int):
                            ka = key_of(e[4])
                            if e[3] == "==":
                                st = self.put(st, ka, vb)
                            else:
                                sf = self.put(sf, ka, vb)
                    T.add(st)
                    F.add(sf)
            return T, F
        T, F = set(), set()
        kk = key_of(e)
        for s, v in self.ev(e, S):
            if v is None:
                if kk is not None:
                    T.add(self.put(s, kk, "nz"))
                    F.add(self.put(s, kk, 0))
                else:
                    T.add(s)
                    F.add(s)
            elif v == 0 and not isinstance(v, str):
                F.add(s)
            else:
                T.add(s)
        return T, F

    # ---- statements: set of states -> set of fallthrough states
    def stmt(self, s, S, ctl):
        if s is None or (not S and s[0] not in ("comp", "label", "case", "default", "if", "while", "for", "do", "switch")):
            return S
        if len(S) > MAXSTATES:
            raise Blowup(self.fn.name)
        self.ctl = ctl
        k = s[0]
        if k == "comp":
            for x in s[2]:
                S = self.stmt(x, S, ctl)
            self.ctl = ctl
            return self.drop_locals(s, S)
        if k == "expr":
            return {x for x, _ in self.ev(s[2], S)}
        if k == "decl":
            for name, did, tid, init, static, line in s[2]:
                kk = "%s#%s" % (name, did)
                if init is None:
                    S = {self.kill(x, kk) for x in S}
                    continue
                S = {self.put(self.kill(x, kk), kk, v) for x, v in self.ev(init, S)}
                h = getattr(self.client, "decl", None)
                if h:
                    S = {(h(self, s, name, did, init, x[0]), x[1]) for x in S}
            return S
        if k == "if":
            if len(s) > 5 and s[5]:
                S = self.stmt(s[5], S, ctl)
            T, F = self.cond(s[2], S)
            a = self.stmt(s[3], T, ctl)
            b = self.stmt(s[4], F, ctl) if s[4] else F
            self.ctl = ctl
            return a | b
        if k in ("while", "for", "do"):
            return self.loop(s, S, ctl)
        if k == "rfor":
            c = Ctl(ctl)
            tot = set(S)
            while True:
                n = self.stmt(s[4], set(tot), c)
                n = n | c.cont
                if n <= tot:
                    break
                tot |= n
            self.ctl = ctl
            return tot | c.brk
        if k == "switch":
            return self.switch(s, S, ctl)
        if k in ("case", "default"):
            if ctl.cases is not None:
                S = S | ctl.cases.get(id(s), set())
            return self.stmt(s[4] if k == "case" else s[2], S, ctl)
        if k == "break":
            ctl.brk |= S
            return set()
        if k == "continue":
            c = ctl
            while c.is_switch:
                c = c.up
            c.cont |= S
            return set()
        if k == "ret":
            if s[2] is None:
                for x in S:
                    self.exits.append((s, x[0], None))
            else:
                for x, v in self.ev(s[2], S):
                    self.exits.append((s, x[0], v))
            return set()
        if k == "goto":
            lab = s[2]
            cur = self.gotos.setdefault(lab, set())
            cur |= S
            return set()
        if k == "label":
            lab = s[2]
            S = S | self.gotos.get(lab, set())
            tot = set(S)
            for _ in range(30):
                out = self.stmt(s[3], set(tot), ctl)
                return out if self.nobackgoto(lab) else out
            return out
        if k == "other":
            for x in s[3]:
                S = self.stmt(x, S, ctl)
            return S
        return S

    def nobackgoto(self, lab):
        return True

    def drop_locals(self, s, S):
        ids = ["%s#%s" % (v[0], v[1]) for x in s[2] if x and x[0] == "decl" for v in x[2]]
        if not ids or not self.track:
            return S
        out = set()
        for st in S:
            if any(i in a for a, _ in st[1] for i in ids):
                st = (st[0], frozenset((a, b) for a, b in st[1] if not any(i in a for i in ids)))
            out.add(st)
        return out

    def loop(self, s, S, ctl):
        k = s[0]
        if k == "for" and s[2] is not None:
            S = self.stmt(s[2], S, ctl)
        cond = s[2] if k == "while" else s[3]
        body = s[3] if k == "while" else s[2] if k == "do" else s[5]
        inc = s[4] if k == "for" else None
        c = Ctl(ctl)
        h = getattr(self.client, "loop_head", None)
        seen = set()
        work = set(S)
        out = set()
        first = True
        while work:
            seen |= work
            if k == "do":
                if h:
                    work = h(self, s, "enter", work) or work
                n = self.stmt(body, work, c)
                n |= c.cont
                c.cont = set()
                self.ctl = ctl
                T, F = self.cond(cond, n) if cond is not None else (n, set())
                if h:
                    h(self, s, "back", T)
                out |= F
                work = T - seen
            else:
                self.ctl = ctl
                if h:
                    work = h(self, s, "enter", work) or work
                T, F = self.cond(cond, work) if cond is not None else (work, set())
                out |= F
                n = self.stmt(body, T, c)
                n |= c.cont
                c.cont = set()
                if inc is not None:
                    self.ctl = ctl
                    n = {x for x, _ in self.ev(inc, n)}
                if h:
                    h(self, s, "back", n)
                work = n - seen
            if len(seen) > MAXSTATES:
                raise Blowup(self.fn.name)
        self.ctl = ctl
        return out | c.brk

    def switch(self, s, S, ctl):
        cases, default = [], None
        collect_cases(s[3], cases)
        c = Ctl(ctl)
        c.is_switch = True
        c.cases = {}
        kk = key_of(s[2])
        for st, v in self.ev(s[2], S):
            taken = False
            for n in cases:
                if n[0] == "default":
                    default = n
                    continue
                lo = const(n[2])
                if isinstance(v, int) and lo is not None:
                    hi = const(n[3]) if n[3] else lo
                    if lo <= v <= (hi if hi is not None else lo):
                        c.cases.setdefault(id(n), set()).add(st)
                        taken = True
                    continue
                st2 = self.put(st, kk, lo) if lo is not None and not n[3] else st
                ref = getattr(self.client, "switch_on", None)
                if ref and lo is not None and not n[3]:
                    c2 = ref(self, s[2], lo, st2[0])
                    if c2 is None:
                        continue
                    st2 = (c2, st2[1])
                c.cases.setdefault(id(n), set()).add(st2)
            if not taken:
                if default is not None:
                    c.cases.setdefault(id(default), set()).add(st)
                else:
                    c.brk.add(st)
        out = self.stmt(s[3], set(), c)
        self.ctl = ctl
        return out | c.brk


def fold(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "&":
        return a & b
    if op == "|":
        return a | b
    if op == "<<" and 0 <= b < 64:
        return a << b
    return None


def const(e):
    while e[0] == "cast":
        e = e[3]
    if e[0] == "int":
        return int(e[3])
    if e[0] == "enum":
        return int(e[4])
    return None


def collect_cases(s, out):
    if s is None:
        return
    k = s[0]
    if k == "comp":
        for x in s[2]:
            collect_cases(x, out)
    elif k == "case":
        out.append(s)
        collect_cases(s[4], out)
    elif k == "default":
        out.append(s)
        collect_cases(s[2], out)
    elif k == "label":
        collect_cases(s[3], out)
    elif k == "if":
        collect_cases(s[3], out)
        collect_cases(s[4], out)
    elif k in ("while", "for", "do"):
        collect_cases(s[-1] if k == "for" else s[3] if k == "while" else s[2], out)


class Ctl:
    __slots__ = ("up", "brk", "cont", "is_switch", "cases")

    def __init__(self, up=None):
        self.up, self.brk, self.cont, self.is_switch, self.cases = up, set(), set(), False, None


def analyse(P, fn, client, core, track=True, fields=True, cls=None):
    """run to a fixpoint over backward gotos; returns the Flow with its exits"""
    gotos = {}
    for _ in range(12):
        fl = (cls or Flow)(P, fn, client, track, fields)
        fl.gotos = {k: set(v) for k, v in gotos.items()}
        fl.run(core)
        new = {k: set(v) for k, v in fl.gotos.items()}
        if new == gotos:
            return fl
        gotos = new
    return fl
