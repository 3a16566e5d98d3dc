"""P06: scanning and parsing terminate on every input (also when it ends anywhere)."""
import prog, flow
from prog import walk, callee_name
from flow import Flow, Ctl, key_of, const
from build import AnalysisBroken

LEVEL = "other"
START = (0, "-", None, None)      # (consumed, try phase, current token set, next token set)
CTYPE = {"isspace", "isalpha", "isalnum", "isdigit", "isxdigit", "ispunct", "isupper", "islower", "isprint"}


def static_int(e):
    while e[0] == "cast":
        e = e[3]
    if e[0] == "int":
        return int(e[3])
    if e[0] == "enum":
        return int(e[4])
    if e[0] == "sizeof":
        return int(e[3]) if e[3] is not None else None
    if e[0] == "bin":
        a, b = static_int(e[4]), static_int(e[5])
        if a is None or b is None:
            return None
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b}[e[3]]()
        except (KeyError, ZeroDivisionError):
            return None
    return None


class Scan:
    """shared state of one analysis: summaries of the scanner/parser functions"""

    def __init__(self, P, ctx):
        self.P, self.ctx = P, ctx
        self.EOF = P.enum("tokEoF")
        self.fns = [f for f in P.all_fns("src/cxy/lang/frontend/") if f.file.endswith(("lexer.c", "parser.c"))]
        self.fnset = set(self.fns)
        self.adv = P.need("advance", "frontend/parser.c")
        self.arrays = {}
        self.targets = self.fnptr_targets()
        self.sums = {}

    def fnptr_targets(self):
        """(function, parameter index) -> functions passed for a function-pointer parameter"""
        t = {}
        flow_edges = []
        for f in self.P.all_fns("src/cxy/"):
            pid = {p[1]: i for i, p in enumerate(f.params)}
            for nm, n in self.P.calls(f):
                g = self.P.fn(nm, tu=f.tu) if nm else None
                if g is None or g not in self.fnset:
                    continue
                for i, a in enumerate(n[4]):
                    while a[0] in ("cast",) or a[0] == "un" and a[3] == "&":
                        a = a[3] if a[0] == "cast" else a[4]
                    if a[0] == "ref" and a[4] == "f":
                        h = self.P.fn(a[3], tu=f.tu)
                        if h is not None and h in self.fnset:
                            t.setdefault((g, i), set()).add(h)
                    elif a[0] == "ref" and a[4] == "p" and a[5] in pid:
                        flow_edges.append(((f, pid[a[5]]), (g, i)))
        ch = True
        while ch:
            ch = False
            for a, b in flow_edges:
                n = t.get(a, set()) - t.get(b, set())
                if n:
                    t.setdefault(b, set()).update(n)
                    ch = True
        return t

    def tags(self, arr, cnt):
        while arr[0] == "cast":
            arr = arr[3]
        n = static_int(cnt)
        if arr[0] == "ref" and arr[5] in self.arrays and n is not None:
            v = self.arrays[arr[5]][:n]
            return v if len(v) == n else None
        return None


class Base:
    def __init__(self, scan, mode):
        self.scan, self.mode = scan, mode
        self.target = None
        self.back = set()

    def decl(self, flow, s, name, did, init, core):
        if init is not None and init[0] == "init":
            vals = [const(x) if x[0] in ("int", "enum", "cast") else None for _, x in init[3]]
            self.scan.arrays[did] = vals
        return core

    def expr(self, flow, e, core):
        return None

    def loop_head(self, flow, s, what, S):
        if s is not self.target:
            return None
        if what == "back":
            self.back |= S
            return None
        return self.enter(S)

    def enter(self, S):
        return S

    # E4C: core[1] is the try phase
    def e4c(self, name, node, core, flow):
        adv, ph = core[0], core[1]
        rest = core[2:]
        if name == "e4c_try":
            return [((adv, "0") + rest, "nz")]
        if name in ("setjmp", "_setjmp", "__sigsetjmp"):
            return [(core, 0)]
        if name == "e4c_hook":
            c = node[4] and const(node[4][0])
            if c:
                return [((1, "caught", None, None), "nz")]
            if ph == "0":
                return [((adv, "try") + rest, "nz"), ((1, "catch", None, None), "nz")]
            if ph in ("try", "caught"):
                return [((adv, "-") + rest, 0)]
            return []
        return None


class FlowX(Flow):
    """Flow with constants supplied by the client for some expressions"""

    def ev(self, e, S):
        h = self.client.expr
        if e[0] == "idx" and any(c[0] == "call" and callee_name(c) == "__ctype_b_loc" for c in walk(e[3])):
            return {(s, 0 if v == -1 else None) for s, v in super().ev(e[4], S)}
        r = super().ev(e, S)
        if e[0] == "mem":
            out = set()
            ch = False
            for s, v in r:
                w = h(self, e, s[0])
                if w is not None:
                    v, ch = w, True
                out.add((s, v))
            return out if ch else r
        return r


class EofClient(Base):
    """every token is EOF / every character is the end of the buffer"""

    def expr(self, flow, e, core):
        if e[4] == "tag" and e[3][0] == "call" and callee_name(e[3]) == "current":
            return self.scan.EOF
        if e[4] == "prev" and e[6] == "LexerBuffer":
            return 0
        if e[4] == "stage":
            P = self.scan.P
            return {"try": P.enum("e4c_trying"), "catch": P.enum("e4c_catching"), "caught": P.enum("e4c_catching")}.get(core[1])
        return None

    def call(self, flow, name, node, core):
        sc = self.scan
        r = self.e4c(name, node, core, flow)
        if r is not None:
            return r
        if name in ("parserCheck", "parserMatch", "parserCheckPeek"):
            t = sc.tags(node[4][-2], node[4][-1])
            if t is None:
                return [(core, None)]
            if sc.EOF in t:
                return [(core, "nz")]
            return [(core, None)] if None in t else [(core, 0)]
        if name in ("isEofReached", "isEoF"):
            return [(core, "nz")]
        if name in ("getCurChar", "peekNextChar"):
            return [(core, -1)]
        if name in CTYPE:
            vs = flow.ev(node[4][0], {(core, frozenset())})
            if all(v == -1 for _, v in vs):
                return [(core, 0)]
            return None
        if name in ("e4c_throw", "e4c_throw_ctx"):
            return []
        f = sc.P.fn(name, tu=flow.fn.tu) if name else None
        if f is not None and f in sc.fnset:
            return [(core, v) for v in sc.summary_eof(f, self.args(flow, f, node, core))]
        return None

    def args(self, flow, f, node, core):
        out = []
        for i, a in enumerate(node[4]):
            t = flow.fn.tu.types[a[2]]
            v = None
            if t.get("k") in ("int", "uint", "bool", "enum") and a[0] == "call" and callee_name(a) in ("getCurChar", "peekNextChar"):
                v = -1
            elif a[0] in ("int", "enum"):
                v = const(a)
            out.append(v)
        return tuple(out)


def summary_eof(self, f, args):
    k = ("eof", f, args)
    if k not in self.sums:
        self.sums[k] = frozenset()
        self.todo_eof.add(k)
    return self.sums[k]


Scan.summary_eof = summary_eof


def run_fn(P, f, client, core, env=frozenset(), loop=None):
    gotos = {}
    fl = None
    for _ in range(10):
        fl = FlowX(P, f, client)
        fl.gotos = {k: set(v) for k, v in gotos.items()}
        if loop is None:
            fl.ctl = Ctl()
            out = fl.stmt(f.body, {(core, env)}, Ctl())
            for s in out:
                fl.exits.append((None, s[0], None))
        else:
            fl.ctl = Ctl()
            fl.loop(loop, {(core, env)}, Ctl())
        new = {k: set(v) for k, v in fl.gotos.items()}
        if new == gotos:
            break
        gotos = new
    return fl


class AdvClient(Base):
    """core[0] is 1 once a token (character) was consumed"""

    def __init__(self, scan, lex, bind=()):
        super().__init__(scan, "adv")
        self.lex, self.bind = lex, bind
        self.edges = set()
        self.ctxk = (None, None)
        self.cleared = set()

    def expr(self, flow, e, core):
        if e[4] == "stage":
            P = self.scan.P
            return {"try": P.enum("e4c_trying"), "catch": P.enum("e4c_catching"), "caught": P.enum("e4c_catching")}.get(core[1])
        return None

    def enter(self, S):
        return {((0, s[0][1]) + s[0][2:], s[1]) for s in S}

    def switch_on(self, flow, e, v, core):
        if e[0] == "mem" and e[4] == "tag" and e[3][0] == "call" and callee_name(e[3]) == "current" and not self.lex:
            if core[2] is not None and v not in core[2]:
                return None
            return (core[0], core[1], frozenset([v]), core[3])
        return core

    def tagset(self, node):
        t = self.scan.tags(node[4][-2], node[4][-1])
        return None if t is None or None in t else frozenset(t)

    def call(self, flow, name, node, core):
        sc = self.scan
        r = self.e4c(name, node, core, flow)
        if r is not None:
            return r
        one = (1, core[1], core[3], None)
        if not self.lex:
            if name in ("advance", "advanceLexer"):
                return [(one, "nz")]
            if name == "isEoF":
                return [(core, None)]
            if name in ("parserMatch", "parserCheck", "parserCheckPeek"):
                t = self.tagset(node)
                at = 2
                if name == "parserCheckPeek":
                    if const(node[4][1]) != 1:
                        return [(core, None)]
                    at = 3
                cur = core[at]
                yes = core if t is None else core[:at] + (t if cur is None else t & cur,) + core[at + 1:]
                out = []
                if t is None or cur is None or t & cur:
                    out.append((one if name == "parserMatch" else yes, "nz"))
                if t is None or cur is None or not cur <= t:
                    out.append((core if t is None or cur is None else core[:at] + (cur - t,) + core[at + 1:], 0))
                return out
        else:
            if name in ("skipChar", "popBuffer"):
                return [(one, None)]
        if name in ("e4c_throw", "e4c_throw_ctx"):
            return []
        if name:
            f = sc.P.fn(name, tu=flow.fn.tu)
            fs = [f] if f is not None and f in sc.fnset else []
        else:
            c = node[3]
            while c[0] == "un":
                c = c[4]
            fs = self.fnval(flow, c)
        if not fs:
            return None
        out = []
        for f in fs:
            fa = tuple((p[1], g) for p, a in zip(f.params, node[4]) for g in self.fnval(flow, a)[:1])
            if core[0] == 0:
                self.edges.add(((flow.fn, self.bind, self.ctxk), (f, fa, (core[2], core[3])), node[1]))
            ctxk = (core[2], core[3]) if core[0] == 0 else (None, None)
            for a, v in sc.summary_adv(f, self.lex, fa, ctxk):
                if a == 0 and core[0] == 0:
                    out.append((core, v))
                else:
                    out.append(((1, core[1], None, None), v))
        return out

    def fnval(self, flow, a):
        """functions an argument / callee expression denotes"""
        sc = self.scan
        while a[0] == "cast" or a[0] == "un" and a[3] in "&*":
            a = a[3] if a[0] == "cast" else a[4]
        if a[0] != "ref":
            return []
        if a[4] == "f":
            g = sc.P.fn(a[3], tu=flow.fn.tu)
            return [g] if g is not None and g in sc.fnset else []
        if a[4] == "p":
            for pid, g in self.bind:
                if pid == a[5]:
                    return [g]
            ix = [i for i, p in enumerate(flow.fn.params) if p[1] == a[5]]
            return sorted(sc.targets.get((flow.fn, ix[0]), ()), key=str) if ix else []
        return []


def summary_adv(self, f, lex, bind=(), ctxk=(None, None)):
    k = ("adv", f, lex, bind, ctxk)
    if k not in self.sums:
        self.sums[k] = frozenset()
        self.todo_adv.add(k)
    return self.sums[k]


Scan.summary_adv = summary_adv


def fixpoint(sc):
    """least fixpoint of the summaries reachable from the requested ones"""
    while True:
        ch = False
        for k in sorted(sc.todo_eof, key=str):
            _, f, args = k
            env = frozenset(("%s#%s" % (p[0], p[1]), a) for p, a in zip(f.params, args) if a is not None)
            fl = run_fn(sc.P, f, EofClient(sc, "eof"), START, env)
            new = frozenset(v for _, _, v in fl.exits)
            if new != sc.sums[k]:
                sc.sums[k] = new
                ch = True
        for k in sorted(sc.todo_adv, key=str):
            _, f, lex, bind, ctxk = k
            fl = run_fn(sc.P, f, AdvClient(sc, lex, bind), START[:2] + ctxk)
            new = frozenset((c[0], v) for _, c, v in fl.exits)
            if new != sc.sums[k]:
                sc.sums[k] = new
                ch = True
        if not ch:
            return


def run(ctx):
    P = prog.full()
    ctx.rule("R1-eof", "a loop of the lexer or parser that runs at the end of the input leaves the loop")
    ctx.rule("R2-progress", "every iteration of a scanning loop consumes input or leaves the loop")
    ctx.rule("R3-left-recursion", "no parser function can call itself again before a token was consumed")
    ctx.rule("R4-token", "the lexer only returns a token other than end-of-file after consuming input or clearing a pending state")
    sc = Scan(P, ctx)
    sc.todo_eof, sc.todo_adv = set(), set()
    lexer = [f for f in sc.fns if f.file.endswith("lexer.c")]
    parser = [f for f in sc.fns if f.file.endswith("parser.c")]
    touch = set()
    prim = {"advance", "parserCheck", "parserMatch", "parserCheckPeek", "isEoF", "current", "skipChar", "acceptChar",
            "getCurChar", "isEofReached", "advanceLexer", "peekNextChar"}
    tf = P.callers_closure(prim)
    loops = []
    for f in sc.fns:
        if f.name in ("parserCheck", "parserMatch", "parserCheckPeek"):
            continue
        for n in walk(f.body):
            if n[0] in ("while", "for", "do"):
                uses = False
                hook = False
                for c in walk(n):
                    if c[0] == "call":
                        nm = callee_name(c)
                        g = P.fn(nm, tu=f.tu) if nm else None
                        if nm is None or nm in prim or g in tf:
                            uses = True
                    if c[0] == "call" and callee_name(c) == "e4c_hook" and const(c[4][0]) == 0 and c in conds(n):
                        hook = True
                if uses and not hook and not counted(n):
                    loops.append((f, n))
    # fill arrays (tag lists) once
    for f in sc.fns:
        for n in walk(f.body):
            if n[0] == "decl":
                for v in n[2]:
                    if v[3] is not None and v[3][0] == "init":
                        sc.arrays[v[1]] = [const(x) if x[0] in ("int", "enum", "cast") else None for _, x in v[3][3]]
    # request summaries, then iterate
    for f in lexer:
        summary_adv(sc, f, True)
    for f in parser:
        summary_adv(sc, f, False)
    while True:
        before = dict(sc.sums)
        for f, n in loops:
            run_fn(P, f, EofClient(sc, "eof"), START, loop=n)
            run_fn(P, f, AdvClient(sc, f.file.endswith("lexer.c")), START, loop=n)
        fixpoint(sc)
        if sc.sums == before:
            break
    ids = {}
    for f, n in loops:
        ctx.saw(f)
        i = ids[f] = ids.get(f, 0) + 1
        inst = "%s loop %d" % (f.name, i)
        cl = EofClient(sc, "eof")
        cl.target = n
        run_fn(P, f, cl, START, loop=n)
        ctx.check(not cl.back, "R1-eof", inst, f.loc(n[1]),
                  "%s(): the loop keeps iterating when the input has ended (it never sees another token)" % f.name)
        lex = f.file.endswith("lexer.c")
        cl = AdvClient(sc, lex)
        cl.target = n
        run_fn(P, f, cl, START, loop=n)
        bad = [s for s in cl.back if s[0][0] == 0]
        ctx.check(not bad, "R2-progress", inst, f.loc(n[1]),
                  "%s(): an iteration can complete without consuming any input%s" %
                  (f.name, "" if not bad else " (with %s)" % ", ".join("%s=%s" % x for x in sorted(bad[0][1], key=str)[:4])))
    ctx.floor("R1-eof", 35)
    ctx.floor("R2-progress", 35)
    # left recursion
    graph = {}
    for k in sorted(sc.todo_adv, key=str):
        _, f, lex, bind, ctxk = k
        if lex or (not bind and any((f, i) in sc.targets for i in range(len(f.params)))):
            continue
        cl = AdvClient(sc, lex, bind)
        cl.ctxk = ctxk
        run_fn(P, f, cl, START[:2] + ctxk)
        for a, b, line in cl.edges:
            graph.setdefault(a, {}).setdefault(b, line)
    cyc = cycles(graph)
    for f in parser:
        c = [v for k, v in cyc.items() if k[0] is f]
        ctx.check(not c, "R3-left-recursion", f.name, f.loc(),
                  "may call itself without consuming a token: %s" % " -> ".join(x[0].name for x in (c or [[]])[0]))
    ctx.floor("R3-left-recursion", 90)
    # tokens
    adv = P.need("advanceLexer", "frontend/lexer.c")
    tc = TokClient(sc)
    run_fn(P, adv, tc, START)
    if tc.made < 60:
        raise AnalysisBroken("only %d tokens made by advanceLexer" % tc.made)
    for (tag, line, inst) in sorted(tc.all):
        ctx.check((tag, line, inst) not in tc.bad, "R4-token", inst, adv.loc(line),
                  "token returned without consuming input: the parser would never reach the end of the input")


def counted(n):
    """for (..; i < constant; i++) over a local that the body does not change"""
    if n[0] != "for" or not n[3] or not n[4]:
        return False
    c, inc = n[3], n[4]
    if c[0] != "bin" or c[3] not in ("<", "<=") or c[4][0] != "ref" or static_int(c[5]) is None:
        return False
    if inc[0] != "un" or inc[3] not in ("++", "p++") or inc[4][:6] != c[4][:6] and inc[4][5] != c[4][5]:
        return False
    for x in walk(n[5]):
        if x[0] in ("asg", "un") and x[4][0] == "ref" and x[4][5] == c[4][5] and x[3] not in ("!", "-", "~", "*"):
            return False
    return True


def conds(n):
    c = n[2] if n[0] == "while" else n[3]
    return list(walk(c)) if c else []


class TokClient(AdvClient):
    def __init__(self, sc):
        super().__init__(sc, True)
        self.bad, self.all, self.made = set(), set(), 0

    def node(self, flow, n, core):
        if n[0] == "asg" and n[3] == "&=" and n[4][0] == "mem" and n[4][4] == "flags":
            return (1,) + core[1:]
        return core

    def call(self, flow, name, node, core):
        if name in ("makeToken", "makeToken_", "makeInvalidToken", "makeIntLiteral", "makeFloatLiteral"):
            tag = None
            for a in node[4]:
                if a[0] == "enum" or (a[0] == "cond"):
                    tag = a[3] if a[0] == "enum" else None
            if tag != "tokEoF":
                self.made += 1
                k = (str(tag), node[1], "%s %s" % (name, tag))
                self.all.add(k)
                if core[0] == 0:
                    self.bad.add(k)
            return None
        return super().call(flow, name, node, core)


def cycles(graph):
    """node -> a cycle through it"""
    out = {}
    for s in graph:
        st = [(s, [s])]
        seen = set()
        while st:
            n, p = st.pop()
            for m in graph.get(n, ()):
                if m == s:
                    out[s] = p + [s]
                    st = []
                    break
                if m not in seen:
                    seen.add(m)
                    st.append((m, p + [m]))
    return out
