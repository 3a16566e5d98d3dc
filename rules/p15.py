"""P15: characters and strings written in a program keep their value."""
import prog, emit
from absint import Engine, Ev, Policy, show
from build import AnalysisBroken

LEVEL = "other"
SIMPLE = {"n": 10, "t": 9, "v": 11, "r": 13, "a": 7, "b": 8, "$": 36, '"': 34, "'": 39, "\\": 92}
CSIMPLE = {"n": 10, "t": 9, "v": 11, "r": 13, "a": 7, "b": 8, "f": 12, "?": 63, '"': 34, "'": 39, "\\": 92}
HEX = "0123456789abcdefABCDEF"
OCT = "01234567"
LONGEST = 6               # characters of the string literals considered


class Unknown(Exception):
    pass


class Ptr:
    def __init__(self, base, off):
        self.base, self.off = base, off


def s8(x):
    x &= 255
    return x - 256 if x > 127 else x


def ctype(mask, c):
    if not -1 <= c <= 255:
        raise Unknown("ctype index %d" % c)
    h = chr(c) if 0 <= c < 128 else ""
    r = 0
    if h:
        r |= 0x100 * h.isupper() | 0x200 * h.islower() | 0x400 * h.isalpha() | 0x800 * h.isdigit()
        r |= 0x1000 * (h in HEX) | 0x2000 * (h in " \t\n\v\f\r") | 0x4000 * (32 <= c < 127) | 0x8000 * (32 < c < 127)
        r |= 1 * (h in " \t") | 2 * (c < 32 or c == 127) | 4 * (32 < c < 127 and not h.isalnum()) | 8 * h.isalnum()
    return r & mask


class Env:
    """values of the parameters and of the bytes a parameter points to"""

    def __init__(self, params, mem):
        self.params, self.mem = params, mem

    def byte(self, p):
        m = self.mem.get(p.base)
        if m is None or not 0 <= p.off < len(m):
            raise Unknown("byte outside of the text")
        return m[p.off]

    def addr(self, lv):
        if lv[0] == "*":
            p = self.val(lv[1])
            if isinstance(p, Ptr):
                return p
        elif lv[0] == "idx":
            p = self.addr(lv[1])
            return Ptr(p.base, p.off + self.val(lv[2]))
        raise Unknown(show(lv))

    def val(self, t):
        if isinstance(t, int):
            return t
        if not isinstance(t, tuple):
            raise Unknown(str(t))
        k = t[0]
        if t in self.params:
            return self.params[t]
        if k == "idx" and isinstance(t[1], tuple) and "__ctype_b_loc" in show(t[1]):
            return ctype(0xffff, self.val(t[2]))
        if k == "*" and len(t) == 2 and "__errno_location" in show(t[1]):
            return 0
        if k == "idx" or k == "*" and len(t) == 2:
            return s8(self.byte(self.addr(t)))
        if k == "cast":
            v = self.val(t[2])
            if isinstance(v, Ptr) or t[1][0] not in "iu":
                return v
            n = int(t[1][1:])
            v &= (1 << n) - 1
            return v - (1 << n) if t[1][0] == "i" and v >> (n - 1) else v
        if k == "&":
            return self.addr(t[1])
        if k == "call":
            if t[1] in ("tolower", "toupper") and len(t[2]) == 1:
                c = self.val(t[2][0])
                return ord(getattr(chr(c), t[1][2:])()) if 0 <= c < 128 else c
            if t[1] == "strtoul":
                return self.number(t)[0]
            raise Unknown(t[1])
        if k == "strtoul-end":
            p = self.val(t[1][2][0])
            return Ptr(p.base, p.off + self.number(t[1])[1])
        if k == "!":
            return int(not self.val(t[1]))
        if k == "~":
            return ~self.val(t[1])
        if len(t) == 2 and k == "-":
            return -self.val(t[1])
        if len(t) != 3:
            raise Unknown(show(t))
        a, b = self.val(t[1]), self.val(t[2])
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if k == "+":
                p, n = (a, b) if isinstance(a, Ptr) else (b, a)
                return Ptr(p.base, p.off + n)
            if k == "-" and isinstance(b, Ptr) and a.base == b.base:
                return a.off - b.off
            if k == "-" and not isinstance(b, Ptr):
                return Ptr(a.base, a.off - b)
            if k in ("==", "<") and isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
                return int(a.off == b.off if k == "==" else a.off < b.off)
            if k == "==":
                return 0
            raise Unknown(show(t))
        f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<<": lambda: a << b, ">>": lambda: a >> b, "band": lambda: a & b,
             "|": lambda: a | b, "^": lambda: a ^ b, "==": lambda: int(a == b), "<": lambda: int(a < b), "lt": lambda: int(a < b),
             "/": lambda: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1), "%": lambda: abs(a) % abs(b) * (1 if a >= 0 else -1)}.get(k)
        if f is None:
            raise Unknown(show(t))
        return f()

    def number(self, t):
        """strtoul of the text (the forms a literal can have: digits only)"""
        p, base = self.val(t[2][0]), self.val(t[2][-1])
        dig = HEX if base == 16 else "0123456789"[:base]
        m, i, v = self.mem[p.base], p.off, 0
        while i < len(m) and chr(m[i]) in dig:
            v = v * base + int(chr(m[i]), base)
            i += 1
        return v, i - p.off

    def fits(self, t, f):
        v = self.val(t)
        if isinstance(v, Ptr):
            v = 1
        return f[0] <= v <= f[1] and v not in f[2]

    def holds(self, facts):
        return all(self.fits(t, f) for t, f in facts.items())


def strtoul(eng, st, fr, args, node):
    t = ("call", "strtoul", (args[0], args[2]), None)
    if isinstance(args[1], tuple) and args[1][0] == "&":
        eng.write(st, args[1][1], ("strtoul-end", t))
    return [(st, t)]


def policy(**kw):
    pol = Policy()
    pol.casts = 2
    pol.pure = frozenset({"__ctype_b_loc", "__errno_location", "tolower", "toupper"})
    pol.models = {"strtoul": strtoul, "strtoull": strtoul, "strtoumax": strtoul, "strtol": strtoul}
    pol.loop_bound = 2
    pol.max_states = 30000
    for k, v in kw.items():
        setattr(pol, k, v)
    return pol


class Table:
    """the paths of a function, by the conditions they share"""

    def __init__(self, paths):
        self.root = ({}, [])
        for p in paths:
            n = self.root
            for k in p.facts().items():
                n = n[0].setdefault(k, ({}, []))
            n[1].append(p)

    def select(self, env, n=None):
        """the path the values take"""
        n = n or self.root
        hit = list(n[1])
        for (t, f), m in n[0].items():
            try:
                if not env.fits(t, f):
                    continue
            except Unknown as e:
                if "outside" not in str(e):
                    raise
                continue      # a condition on bytes past the text
            hit += self.select(env, m)
        return hit


def run(ctx):
    P = prog.full()
    ctx.rule("R1-char", "a character literal has the value of the one character or escape sequence it is written with; others are rejected")
    ctx.rule("R2-string", "a string literal has the bytes it is written with, escape sequences replaced by their values")
    ctx.rule("R3-utf8", "a character is printed as its own UTF-8 bytes, or as an escape sequence for it")
    ctx.rule("R4-c-char", "the C code generated for a character literal has its value")
    ctx.rule("R5-c-string", "the C code generated for a string literal has its bytes")
    ctx.rule("R7-scan", "the scanner converts exactly the text between a character literal's quotes, which must be one character, and ends a string at its quote")
    ctx.rule("R6-extent", "the text of a literal or name is that of its own token, without the delimiters")
    ctx.fork([lambda c: chars(P, c), lambda c: strings(P, c), lambda c: utf8(P, c), lambda c: cchar(P, c), lambda c: cstring(P, c),
              lambda c: extents(P, c), lambda c: scanned(P, c)])


def esc(cs):
    return "".join(chr(c) if 32 < c < 127 else "<%02x>" % c for c in cs)


# ---- reading --------------------------------------------------------------------------------------------------------------
def summaries(P, ctx, fn, init=None, **kw):
    e = Engine(P, policy(**kw))
    paths = Table(e.run(fn, init))
    ctx.engine(e)
    return paths, [(s.facts, n, l) for s, n, l in e.noret]


def chars(P, ctx):
    fn = P.need("convertEscapeSeq", "core/utils")
    paths, dead = summaries(P, ctx, fn, loop_bound=9)
    RES = ("*", ("p", 2))

    def result(cs, n):
        env = Env({("p", 0): Ptr(0, 0), ("p", 1): n, ("p", 2): Ptr(2, 0)}, {0: list(cs) + [39, 59, 10, 0, 0, 0]})
        h = paths.select(env)
        if len(h) != 1:
            for f, name, loc in dead:
                try:
                    if env.holds(f):
                        return "abort", loc
                except Unknown:
                    pass
            raise AnalysisBroken("%d paths of %s for %s" % (len(h), fn.name, esc(cs)))
        p = h[0]
        v = p.st.mem.get(RES)
        return env.val(p.ret), None if v is None else env.val(v) & 0xffffffff

    good, bad = [], []
    for c, v in SIMPLE.items():
        good.append(([92, ord(c)], v, "\\" + c))
    for c in range(1, 128):
        if c not in (92, 10, 39):
            good.append(([c], c, "ascii"))
    good.append(([92, ord("0")], 0, "\\0"))
    for h in HEX:
        good.append(([92, ord("x"), ord(h)], int(h, 16), "hex"))
        for g in HEX:
            good.append(([92, ord("x"), ord(h), ord(g)], int(h + g, 16), "hex"))
    for a in OCT[1:]:
        good.append(([92, ord(a)], int(a, 8), "octal"))
        for b in OCT:
            good.append(([92, ord(a), ord(b)], int(a + b, 8), "octal"))
            for c in OCT:
                if int(a + b + c, 8) < 256:
                    good.append(([92, ord(a), ord(b), ord(c)], int(a + b + c, 8), "octal"))
                else:
                    bad.append(([92, ord(a), ord(b), ord(c)], "octal above 255"))
    for b in OCT:
        for c in OCT:
            good.append(([92, 48, ord(b), ord(c)], int(b + c, 8), "octal"))
    cps = {0x80, 0xff, 0x7ff, 0x800, 0x20ac, 0xffff, 0x10000, 0x1f600, 0x10ffff} | {1 << i for i in range(7, 21)} | {(1 << i) - 1 for i in range(8, 21)}
    for cp in sorted(cps):
        if not 0xd800 <= cp < 0xe000:
            good.append((list(chr(cp).encode()), cp, "utf-8 of %d bytes" % len(chr(cp).encode())))
    for x, y in (("a", "b"), ("日", "本"), ("é", "x"), ("x", "é"), ("😀", "a"), ("\\n", "a"), ("a", "\\n"), ("é", "é")):
        bad.append((list((x + y).encode()), "two characters"))
    for c in list(range(0x80, 0xc0)) + list(range(0xf8, 0x100)):
        for rest in ([], [0x80], [0x80, 0x80], [0x80] * 3):
            bad.append(([c] + rest, "no utf-8 lead byte"))
    for k, lead in ((2, 0xc3), (3, 0xe6), (4, 0xf0)):
        for n in range(1, k):
            bad.append(([lead] + [0x97] * (n - 1), "truncated utf-8"))
    bad.append(([92], "lone backslash"))
    bad.append(([], "empty"))
    bad.append(([92, ord("x")], "\\x without digits"))
    res = {}
    for cs, v, kind in good:
        n, r = result(cs, len(cs))
        res.setdefault(kind, [])
        if n != len(cs) or r != v:
            res[kind].append("'%s' (value %d) is read as %s" % (esc(cs), v, "abort at %s" % r if n == "abort" else "%s characters with value %s" % (n, r)))
    for cs, kind in bad:
        n, r = result(cs, len(cs))
        res.setdefault(kind, [])
        if n == len(cs) and cs or n == "abort":
            res[kind].append("'%s' (%s) is %s" % (esc(cs), kind, "not rejected but aborts at %s" % r if n == "abort" else "accepted as one character"))
        elif not cs and n:
            res[kind].append("the empty literal is accepted")
    for kind, errs in res.items():
        ctx.check(not errs, "R1-char", "convertEscapeSeq %s" % kind, fn.loc(), "; ".join(errs[:3]))
    ctx.floor("R1-char", 20)


def short(e, st):
    e.set_fact(st, ("p", 1), lo=0, hi=LONGEST)


def strings(P, ctx):
    fn = P.need("escapeString", "core/utils")
    paths, dead = summaries(P, ctx, fn, short, loop_bound=LONGEST)
    DST = ("*", ("p", 2))
    items = [(k, [92, ord(k)], v) for k, v in SIMPLE.items()]
    items = [("\\" + k, t, [v]) for k, t, v in items]
    for h in ("0", "7", "9", "a", "F", "f", "A"):
        items.append(("hex1", [92, 120, ord(h)], [int(h, 16)]))
        for g in ("0", "9", "b", "E", "f", "F"):
            items.append(("hex2", [92, 120, ord(h), ord(g)], [int(h + g, 16)]))
    for o in ("1", "0", "7", "11", "07", "77", "101", "010", "377", "001"):
        items.append(("octal%d" % len(o), [92] + [ord(c) for c in o], [int(o, 8)]))
    for c in list(range(1, 92)) + list(range(93, 128)):
        items.append(("ascii", [c], [c]))
    items.append(("byte", [0x80], [0x80]))
    items.append(("byte", [0xff], [0xff]))
    res = {}

    def bytes_of(cs):
        env = Env({("p", 0): Ptr(0, 0), ("p", 1): len(cs), ("p", 2): Ptr(2, 0), ("p", 3): len(cs)}, {0: list(cs) + [34, 59, 10, 0]})
        h = paths.select(env)
        if len(h) != 1:
            for f, name, loc in dead:
                try:
                    if env.holds(f):
                        return "abort at %s" % loc
                except Unknown:
                    pass
            raise AnalysisBroken("%d paths of %s for %s" % (len(h), fn.name, esc(cs)))
        p = h[0]
        n = env.val(p.ret)
        out = []
        for i in range(n + 1):
            v = p.st.mem.get(DST if i == 0 else ("idx", DST, i))
            if v is None:
                return "unwritten byte %d" % i
            out.append(env.val(v) & 255)
        if out[-1] != 0:
            return "not terminated"
        return out[:-1]

    one = items
    two = [x for x in [(a[0] + " " + b[0], a[1] + b[1], a[2] + b[2]) for a in one for b in (("text", [ord("z")], [ord("z")]), ("text", [ord(" ")], [32]), ("\\n", [92, 110], [10]),
           ("octal1", [92, 49], [1]))] if len(x[1]) <= LONGEST]
    for kind, cs, want in one + two + [("empty", [], [])]:
        got = bytes_of(cs)
        kind = kind if " " not in kind.strip() else kind.split(" ")[0] + "+"
        res.setdefault(kind, [])
        if got != want:
            res[kind].append('"%s" becomes %s, not %s' % (esc(cs), esc(got) if isinstance(got, list) else got, esc(want)))
    for kind, errs in res.items():
        ctx.check(not errs, "R2-string", "escapeString %s" % kind, fn.loc(), "; ".join(errs[:3]))
    ctx.floor("R2-string", 25)


# ---- printing -------------------------------------------------------------------------------------------------------------
def out(kind):
    def m(eng, st, fr, args, node):
        a = args[1]
        s = emit.strlit(a)
        if kind == "char":
            data = ("chars", (a,), 1)
        elif s is not None:
            data = ("chars", tuple(s.encode("latin-1")), len(s) if kind == "str" else args[2])
        else:
            lv = a[1] if isinstance(a, tuple) and a[0] == "&" else ("*", a)
            if isinstance(lv, tuple) and lv[0] == "idx" and lv[2] == 0:
                lv = lv[1]
            data = ("chars", tuple(eng.read_any(st, ("idx", lv, i), {"k": "int", "z": 1}) for i in range(8)), None if kind == "str" else args[2])
        eng.record(st, Ev("emit", "bytes", data, fr.fn.loc(node[1]), None, fr.fn.name, node))
        return [(st, None)]
    return m


def printed(env, path):
    got = []
    for x in path.events:
        if x.kind == "emit" and x.name == "bytes":
            _, cs, n = x.args
            if n is not None:
                n = env.val(n)
                if n > len(cs):
                    raise Unknown("write of %d bytes" % n)
            for i, c in enumerate(cs):
                if n is not None and i >= n:
                    break
                v = env.val(c) & 255
                if n is None and v == 0:
                    break
                got.append(v)
        elif x.kind in ("call", "emit"):
            raise Unknown(x.name)
    return got


def cdecode(bs):
    """the bytes between the quotes of a C literal, decoded; None when they do not stand between quotes"""
    res, i = [], 0
    while i < len(bs):
        c = bs[i]
        if c != 92:
            if c in (34, 10):
                return None
            res.append(c)
            i += 1
            continue
        i += 1
        if i >= len(bs):
            return None
        e = chr(bs[i])
        if e in CSIMPLE:
            res.append(CSIMPLE[e])
            i += 1
        elif e in OCT:
            j = i
            while j < len(bs) and j < i + 3 and chr(bs[j]) in OCT:
                j += 1
            v = int(bytes(bs[i:j]).decode(), 8)
            if v > 255:
                return None
            res.append(v)
            i = j
        elif e == "x":
            j = i + 1
            while j < len(bs) and chr(bs[j]) in HEX:
                j += 1
            if j == i + 1 or int(bytes(bs[i + 1:j]).decode(), 16) > 255:
                return None
            res.append(int(bytes(bs[i + 1:j]).decode(), 16))
            i = j
        else:
            return None
    return res


class Printer:
    """what printUtf8 prints for a character"""

    def __init__(self, P, ctx=None):
        self.fn = P.need("printUtf8", "core/format")
        io = {"writeStr": out("str"), "writeChar": out("char"), "write": out("mem"), "appendString": out("str"), "appendChar": out("char"), "append": out("mem")}
        pol = policy()
        pol.models = dict(pol.models, **io)
        self.e = Engine(P, pol)
        self.paths = Table(self.e.run(self.fn))
        self.dead = [(s.facts, n, l) for s, n, l in self.e.noret]
        if ctx:
            ctx.engine(self.e)

    def text(self, cp, escaped):
        env = Env({("p", 0): Ptr(0, 0), ("p", 1): cp, ("p", 2): escaped}, {})
        h = self.paths.select(env)
        if len(h) != 1:
            if any(env.holds(f) for f, _, _ in self.dead):
                return None
            raise AnalysisBroken("%d paths of %s for %d" % (len(h), self.fn.name, cp))
        return printed(env, h[0])


CPS = sorted(set(range(0, 0x180)) | {0x7ff, 0x800, 0x801, 0x20ac, 0x65e5, 0xffff, 0x10000, 0x10001, 0x1f600, 0x10ffff} | {1 << i for i in range(8, 21)} |
             {(1 << i) - 1 for i in range(8, 21)})


def utf8(P, ctx):
    pr = Printer(P, ctx)
    res = {}
    for cp in CPS:
        want = list(chr(cp).encode()) if not 0xd800 <= cp < 0xe000 else None
        if want is None:
            continue
        for escaped in (0, 1):
            kind = "control" if cp < 32 else "ascii" if cp < 128 else "%d bytes" % len(want)
            errs = res.setdefault(("escaped " if escaped else "") + kind, [])
            got = pr.text(cp, escaped)
            dec = got if not escaped or got is None else cdecode(got)
            if dec != want:
                errs.append("character U+%04X is printed as %s" % (cp, "nothing (abort)" if got is None else esc(got)))
    for kind, errs in res.items():
        ctx.check(not errs, "R3-utf8", "printUtf8 %s" % kind, pr.fn.loc(), "; ".join(errs[:3]))
    ctx.floor("R3-utf8", 9)


def utf8_model(eng, st, fr, args, node):
    f = "{cE}" if args[2] else "{c}"
    o = ("obj", None, (((("idx", 0), ("fld", "c")), args[1]),))
    eng.record(st, Ev("emit", "format", (args[0], ("str", f), o), fr.fn.loc(node[1]), None, fr.fn.name, node))
    return [(st, None)]


INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u": 64, "i8": -8, "i16": -16, "i32": -32, "i64": -64, "i": -64}


def render(pr, env, path):
    """the bytes a backend function prints on a path"""
    got = []
    for p in emit.pieces(path):
        if p.kind == "text":
            got += list(p.text.encode("latin-1"))
        elif p.kind == "indent":
            continue
        elif p.kind == "arg" and p.spec in INTS:
            w = INTS[p.spec]
            v = env.val(p.term) & ((1 << abs(w)) - 1)
            if w < 0 and v >> (-w - 1):
                v -= 1 << -w
            got += list(str(v).encode())
        elif p.kind == "arg" and p.spec in ("c", "cE"):
            t = pr.text(env.val(p.term) & 0xffffffff, int(p.spec == "cE"))
            if t is None:
                raise Unknown("abort")
            got += t
        elif p.kind == "arg" and p.spec and p.spec[0] == "%" and p.spec[-1] in "oxXdui":
            v = env.val(p.term) & 0xffffffff
            if p.spec[-1] in "di" and v >> 31:
                v -= 1 << 32
            got += list((p.spec.replace("hh", "").replace("u", "d").replace("i", "d").replace("l", "") % v).encode())
        elif p.kind == "arg" and p.spec == "%c":
            got.append(env.val(p.term) & 255)
        else:
            raise Unknown("%s %s %s" % (p.kind, p.spec, show(p.term)))
    return got


def backend(P, ctx, name, **kw):
    fn = P.need(name, "backend/c/generate.c")
    paths, e = emit.run(P, fn, models={"printUtf8": utf8_model}, pure=frozenset({"__ctype_b_loc"}), casts=2, **kw)
    ctx.engine(e)
    return fn, Table(paths)


def node_fld(*names):
    t = emit.NODE
    for n in names:
        t = ("fld", t, n)
    return t


def cchar(P, ctx):
    pr = Printer(P)
    fn, paths = backend(P, ctx, "visitCharLit")
    res = {}
    for v in CPS:
        if 0xd800 <= v < 0xe000:
            continue
        env = Env({node_fld("charLiteral", "value"): v, ("p", 0): Ptr(3, 0), ("p", 1): Ptr(4, 0)}, {})
        h = paths.select(env)
        if len(h) != 1:
            raise AnalysisBroken("%d paths of visitCharLit for %d" % (len(h), v))
        got = render(pr, env, h[0])
        s = bytes(got).decode("latin-1").strip()
        if s.rstrip("uU").isdigit():
            val = int(s.rstrip("uU"))
        elif s[:2].lower() == "0x":
            val = int(s.rstrip("uU"), 16)
        elif len(s) >= 3 and s[0] == s[-1] == "'" and s[1:-1] != "'":
            d = cdecode(list(s[1:-1].replace('"', '\\"').encode("latin-1")) if s[1:-1] == '"' else list(s[1:-1].encode("latin-1")))
            # a byte above 127 between quotes is a negative number in C
            val = None if d is None or len(d) != 1 or d[0] > 127 else d[0]
        else:
            val = None
        kind = "control" if v < 32 else "ascii" if v < 128 else "byte" if v < 256 else "wide"
        errs = res.setdefault(kind, [])
        if val != v:
            errs.append("the character with value %d is generated as %s" % (v, esc(got)))
    for kind, errs in res.items():
        ctx.check(not errs, "R4-c-char", "visitCharLit %s" % kind, fn.loc(), "; ".join(errs[:3]))
    ctx.floor("R4-c-char", 4)


def cstring(P, ctx):
    pr = Printer(P)
    fn, paths = backend(P, ctx, "visitStringLit", loop_bound=3)
    S = node_fld("stringLiteral", "value")
    texts = [[]] + [[c] for c in range(1, 256)]
    follow = [ord(c) for c in "07af9?n\"\\ x"] + [1, 10, 0x80, 0xff]
    texts += [[c, d] for c in list(range(1, 48)) + [63, 92, 127, 128, 0xc3, 0xff] for d in follow]
    texts += [[d, c] for c in (1, 34, 92, 0xe6) for d in range(48, 127, 5)]
    res = {}
    for t in texts:
        env = Env({S: Ptr(0, 0), ("p", 0): Ptr(3, 0), ("p", 1): Ptr(4, 0)}, {0: t + [0]})
        h = paths.select(env)
        if len(h) != 1:
            raise AnalysisBroken("%d paths of visitStringLit for %s" % (len(h), esc(t)))
        got = render(pr, env, h[0])
        d = cdecode(got[1:-1]) if len(got) >= 2 and got[0] == got[-1] == 34 else None
        c = t[0] if t else 32
        kind = "%d characters, %s" % (len(t), "control" if c < 32 or c == 127 else "ascii" if c < 128 else "non-ascii")
        errs = res.setdefault(kind, [])
        if d != t:
            errs.append("the string %s is generated as %s" % (esc(t), esc(got)))
    for kind, errs in res.items():
        ctx.check(not errs, "R5-c-string", "visitStringLit %s" % kind, fn.loc(), "; ".join(errs[:3]))
    ctx.floor("R5-c-string", 6)


# ---- extents --------------------------------------------------------------------------------------------------------------
def extents(P, ctx):
    tok = ("*", ("p", 1))

    def loc(which):
        return ("fld", ("fld", ("fld", tok, "fileLoc"), which), "byteOffset")
    DATA = ("fld", ("*", ("fld", tok, "buffer")), "fileData")
    for name, cases in (("getStringLiteral", [(b'x"hello"+1;', 1, 8, 0, b"hello"), (b'x""+1;    ', 1, 3, 0, b""), (b'}a{  xxxxxx', 0, 3, 0, b"a")]),
                        ("getTokenString", [(b" name+1;    ", 1, 5, 0, b"name"), (b" `na`+1;    ", 1, 5, 0, b"na"), (b' "ab"+1;    ', 1, 5, 1, b"ab"), (b" n      ", 1, 2, 0, b"n")])):
        fn = P.need(name, "frontend/parser")
        pol = policy()
        pol.opaque = frozenset({"escapeString", "makeStringSized", "makeString", "mallocOrDie", "free"})
        e = Engine(P, pol)
        paths = Table(e.run(fn))
        ctx.engine(e)
        for text, b, n, trim, want in cases:
            env = Env({("p", 0): Ptr(8, 0), ("p", 1): Ptr(9, 0), ("p", 2): trim, loc("begin"): b, loc("end"): n, DATA: Ptr(0, 0)}, {0: list(text) + [0] * 8})
            h = paths.select(env)
            if len(h) != 1:
                raise AnalysisBroken("%d paths of %s" % (len(h), name))
            p = h[0]
            src = [x for x in p.events if x.kind == "call" and x.name in ("escapeString", "makeStringSized")]
            if not src:
                raise AnalysisBroken("%s makes no string" % name)
            at, size = (src[0].args[0], src[0].args[1]) if src[0].name == "escapeString" else (src[0].args[1], src[0].args[2])
            q, k = env.val(at), env.val(size)
            got = text[q.off:q.off + k] if q.base == 0 and k >= 0 else None
            ctx.check(got == want, "R6-extent", "%s %s" % (name, want.decode() or "empty"), src[0].loc,
                      "the token %r has the text %r" % (text[b:n].decode(), got))
            if src[0].name == "escapeString":
                mk = [x for x in p.events if x.kind == "call" and x.name == "makeStringSized"]
                ok = len(mk) == 1 and mk[0].args[1] == src[0].args[2] and mk[0].args[2] == src[0].res
                ctx.check(ok, "R6-extent", "%s result %s" % (name, want.decode() or "empty"), src[0].loc, "the string made is not the converted text with its length")
                cap = src[0].args[3]
                ctx.check(env.val(cap) >= k, "R6-extent", "%s room %s" % (name, want.decode() or "empty"), src[0].loc, "less room than text")
            ctx.check(p.ret == [x for x in p.events if x.name == "makeStringSized"][-1].res, "R6-extent", "%s returned %s" % (name, want.decode() or "empty"), fn.loc(), "another string is returned")
    ctx.floor("R6-extent", 12)


def scanned(P, ctx):
    import p08
    fn, e, paths = p08.scan(P)
    ctx.engine(e)
    CH, ST = P.enum("tokCharLiteral"), P.enum("tokStringLiteral")
    n = 0
    for p in paths:
        tag = p08.ofield(p.ret, "tag")
        if tag not in (CH, ST):
            continue
        ends = []
        for which in ("begin", "end"):
            ends += [v for q, v in p.ret[2] if tuple(x[1] for x in q) == ("fileLoc", which)]
        b, t = (p08.offset(x) for x in ends)
        if b is None or t is None:
            raise AnalysisBroken("no extent of a literal token")
        n += 1

        def quoted(*at):
            fs = [p.facts().get(p08.ch(i)) for i in at]
            return all(f is not None and f[0] == f[1] == (39 if tag == CH else 34) for f in fs)
        if tag == ST:
            ctx.check(t - b >= 2 and quoted(b, t - 1), "R7-scan", "string of %d characters" % (t - b - 2), fn.loc(),
                      "the token does not begin and end at its quotes (%s)" % p.describe())
            continue
        conv = [x for x in p.events if x.kind == "call" and x.name == "convertEscapeSeq"]
        if len(conv) != 1:
            ctx.bad("R7-scan", "character", fn.loc(), "%d conversions of a character literal" % len(conv))
            continue
        c = conv[0]
        env = Env({p08.DATA[1]: Ptr(0, 0)}, {0: []})
        q, k = env.val(c.args[0]), env.val(c.args[1])
        key = "character of %d bytes" % k
        ctx.check(quoted(b, b + k + 1), "R7-scan", key, fn.loc(), "the converted text does not stand between the quotes (%s)" % p.describe())
        ctx.check(q.off == b + 1, "R7-scan", key + " text", c.loc, "the converted text does not begin after the quote")
        f = p.facts().get(c.res)
        ctx.check(f is not None and f[0] == f[1] == k, "R7-scan", key + " whole", c.loc, "a literal that is not a single character is accepted")
        ctx.check(k > 0, "R7-scan", key + " empty", c.loc, "a literal without a character is accepted")
        v = p08.ofield(p.ret, "cVal")
        ctx.check(v is None or not isinstance(v, int), "R7-scan", key + " value", c.loc, "the token does not get the converted value")
    ctx.floor("R7-scan", 20)
