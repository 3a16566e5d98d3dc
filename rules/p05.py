"""P05: every diagnostic/format string agrees with the arguments supplied for it."""
import re
import prog
from prog import walk, callee_name
from absint import Engine, Policy, show
from build import AnalysisBroken

LEVEL = "other"

SEEDS = {"logError": (2, 3), "logWarning": (2, 3), "logWarningWithId": (3, 4), "logNote": (2, 3), "format": (1, 2)}

# placeholder -> (union members that may be supplied).  Members of the same width and signedness class share storage.
MEMBERS = {
    "u8": {"u8"}, "u16": {"u16"}, "u32": {"u32", "c"}, "u64": {"u64", "u", "len", "i64", "i"},
    "u": {"u", "u64", "len"}, "i8": {"i8"}, "i16": {"i16"}, "i32": {"i32"},
    "i64": {"i64", "i", "u64", "u", "len"}, "i": {"i", "i64"}, "f32": {"f32"}, "f64": {"f64"},
    "c": {"c", "u32"}, "s": {"s"}, "b": {"b"}, "p": {"p"}, "t": {"t"}, "$": {"style"},
    "len": {"len", "u64", "u"},
}


def parse(fmt):
    """[(arg index, kind)] demanded by a FormatArg format string; None when malformed"""
    need = []
    idx = 0
    i = 0
    n = len(fmt)
    while i < n:
        if fmt[i] != "{":
            i += 1
            continue
        i += 1
        if i >= n:
            return None
        c = fmt[i]
        if c == "{":
            i += 1
            continue
        if c in "<>":
            i += 1
        else:
            if c.isdigit():
                m = re.match(r"(\d+):", fmt[i:])
                if not m:
                    return None
                idx = int(m.group(1))
                i += m.end()
            m = re.match(r"\$|u(?:8|16|32|64)?|i(?:8|16|32|64)?|f(?:32|64)|cE?l?|sE?l?|b|p|t", fmt[i:])
            if not m:
                return None
            t = m.group(0)
            i += m.end()
            k = t[0] if t[0] in "cs" else t
            need.append((idx, k))
            idx += 1
            if t.endswith("l") and t[0] in "cs":
                need.append((idx, "len"))
                idx += 1
        if i >= n or fmt[i] != "}":
            return None
        i += 1
    return need


def wrappers(P, ctx):
    """functions that hand one of their (fmt, args) parameter pairs to a formatting function"""
    w = dict(SEEDS)
    ch = True
    while ch:
        ch = False
        for f in P.all_fns("src/cxy"):
            if f.name in w:
                continue
            ids = {p[1]: i for i, p in enumerate(f.params)}
            for nm, n in P.calls(f):
                if nm not in w:
                    continue
                fi, ai = w[nm]
                if len(n[4]) <= max(fi, ai):
                    continue
                a, b = n[4][fi], n[4][ai]
                if a[0] == "ref" and a[4] == "p" and b[0] == "ref" and b[4] == "p" and a[5] in ids and b[5] in ids:
                    w[f.name] = (ids[a[5]], ids[b[5]])
                    ch = True
                    break
    return w


def strip(e):
    while e and e[0] == "cast":
        e = e[3]
    return e


def alternatives(e):
    """constant alternatives of an expression"""
    e = strip(e)
    if e[0] == "cond":
        return alternatives(e[4]) + alternatives(e[5])
    if e[0] == "bcond":
        return alternatives(e[3]) + alternatives(e[4])
    return [e]


def local_inits(f):
    d = {}
    asg = set()
    for n in walk(f.body):
        if n[0] == "decl":
            for v in n[2]:
                if v[3]:
                    d.setdefault(v[1], v[3])
        elif n[0] == "asg" and n[4][0] == "ref":
            asg.add(n[4][5])
    return {k: v for k, v in d.items() if k not in asg}


def resolve(e, inits, P, f, depth=0):
    """follow a single-assignment local or a constant global to its initialiser"""
    e = strip(e)
    if depth < 4 and e[0] == "ref":
        if e[4] in ("v", "p") and e[5] in inits:
            return resolve(inits[e[5]], inits, P, f, depth + 1)
        if e[4] in ("g", "s"):
            for g in P.globals.get(e[3], []):
                if g["tu"] is f.tu or g["rfile"] == f.file:
                    return resolve(g["init"], inits, P, f, depth + 1)
    return e


def args_of(e):
    """[member or None] of a FormatArg array expression; None when unknown"""
    e = strip(e)
    if e[0] == "int" and int(e[3]) == 0:
        return []
    if e[0] == "cl":
        e = e[3]
    if e[0] == "un" and e[3] == "&" and e[4][0] == "cl":
        e = e[4][3]
        if e[0] == "init" and e[3] and isinstance(e[3][0][0], str):
            return [e[3][0][0]]
    if e[0] != "init":
        return None
    out = []
    for k, x in e[3]:
        if not isinstance(k, int):
            return [k]
        while len(out) < k:
            out.append(None)
        x = strip(x)
        if x[0] == "cl":
            x = x[3]
        if x[0] == "init":
            out.append(x[3][0][0] if x[3] else None)
        else:
            out.append("?")
    return out


PCT = re.compile(r"%(?:%|[-+ #0']*(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|j|z|t|L)?([diouxXeEfFgGaAcspn]))")
PRINTF = {"printf": 0, "fprintf": 1, "dprintf": 1, "snprintf": 2, "sprintf": 1}


def printf_like(P):
    d = dict(PRINTF)
    for f in P.all_fns("src/cxy"):
        if not f.variadic or not f.params:
            continue
        t = f.tu.types[f.params[-1][2]]
        if t["c"].startswith("const char *") and not any(
                nm in ("va_arg",) for nm, _ in P.calls(f)) and any(
                nm in ("vprintf", "vfprintf", "vsnprintf", "vsprintf") or (nm or "").startswith("__builtin_va_start")
                for nm, _ in P.calls(f)) and any((nm or "").startswith("v") and "printf" in nm for nm, _ in P.calls(f)):
            d[f.name] = len(f.params) - 1
    return d


def run(ctx):
    P = prog.full()
    ctx.rule("R1-count", "a format string consumes exactly the arguments supplied with it")
    ctx.rule("R2-kind", "each placeholder is supplied through the FormatArg member it reads")
    ctx.rule("R3-const", "the format string of a diagnostic is a constant, never data (a `{` in data would be read as a placeholder)")
    ctx.rule("R4-formatter", "the formatter reads, for each placeholder, the FormatArg member the placeholder stands for")
    ctx.rule("R5-printf", "printf-family calls: conversions agree in number and class with the arguments")
    W = wrappers(P, ctx)
    # helpers that format one of their own parameters without arguments (open/separator/close strings)
    H = {}
    ch = True
    while ch:
        ch = False
        for f in P.all_fns("src/cxy"):
            ids = {p[1]: i for i, p in enumerate(f.params)}
            for nm, n in P.calls(f):
                if nm in W and f.name not in W and len(n[4]) > max(W[nm]):
                    a, b = strip(n[4][W[nm][0]]), strip(n[4][W[nm][1]])
                    if a[0] == "ref" and a[4] == "p" and a[5] in ids and b[0] == "int":
                        if ids[a[5]] not in H.setdefault(f.name, set()):
                            H[f.name].add(ids[a[5]])
                            ch = True
                elif nm in H:
                    for i in H[nm]:
                        if i < len(n[4]):
                            a = strip(n[4][i])
                            if a[0] == "ref" and a[4] == "p" and a[5] in ids and \
                                    ids[a[5]] not in H.setdefault(f.name, set()):
                                H[f.name].add(ids[a[5]])
                                ch = True
    for f in sorted(P.all_fns("src/cxy"), key=lambda f: (f.file, f.line)):
        if "/stdlib/" in f.file:
            continue
        inits = None
        pids = {p[1] for p in f.params}
        for nm, n in P.calls(f):
            if nm in H and nm not in W:
                for i in sorted(H[nm]):
                    if i >= len(n[4]):
                        continue
                    for a in alternatives(n[4][i]):
                        if inits is None:
                            inits = local_inits(f)
                        a = resolve(a, inits, P, f)
                        inst = "%s in %s, text parameter %d" % (nm, f.name, i)
                        if a[0] == "int":
                            ctx.ok("R3-const", inst)
                        elif a[0] == "ref" and a[4] == "p" and f.name in H:
                            ctx.ok("R3-const", inst)
                        elif a[0] == "str":
                            need = parse(a[3])
                            ctx.check(need == [], "R1-count", "%s: \"%s\"" % (inst, a[3]), f.loc(n[1]),
                                      "\"%s\" is formatted without arguments" % a[3])
                        else:
                            al = strings_of(a, P, f)
                            if al is None:
                                ctx.bad("R3-const", inst, f.loc(n[1]), "data is used as a format string")
                            else:
                                for x in al:
                                    ctx.check(parse(x) == [], "R1-count", "%s: \"%s\"" % (inst, x), f.loc(n[1]),
                                              "\"%s\" is formatted without arguments" % x)
                continue
            if nm not in W:
                continue
            fi, ai = W[nm]
            if len(n[4]) <= max(fi, ai):
                continue
            ctx.saw(f)
            if inits is None:
                inits = local_inits(f)
            a, b = n[4][fi], n[4][ai]
            loc = f.loc(n[1])
            sa = strip(a)
            if f.name in W and sa[0] == "ref" and sa[4] == "p":
                ctx.ok("R3-const", "%s forwards its format parameter" % f.name)
                continue
            sb = strip(b)
            if sa[0] == "mem" and sa[4] == "fmt" and sa[6] == "Diagnostic" and sb[0] == "mem" and sb[4] == "args" \
                    and sa[3] == sb[3] or same_base(sa, sb):
                ctx.ok("R3-const", "%s prints the diagnostic's own format with its own arguments" % f.name)
                continue
            if f.name in H and sa[0] == "ref" and sa[4] == "p":
                ctx.ok("R3-const", "%s formats its text parameter" % f.name)
                continue
            key0 = "%s in %s" % (nm, f.name)
            for fa in alternatives(a):
                fa = resolve(fa, inits, P, f)
                for fa2 in alternatives(fa):
                    fa2 = resolve(fa2, inits, P, f)
                    if fa2[0] != "str":
                        al = strings_of(fa2, P, f)
                        if al is None:
                            ctx.bad("R3-const", key0 + " non-constant format", loc,
                                    "the format string of %s() is not a constant" % nm)
                            continue
                    else:
                        al = [fa2[3]]
                    for fmt in al:
                        ctx.ok("R3-const", key0 + ": " + fmt[:40])
                        check_fmt(ctx, P, f, nm, fmt, b, inits, loc)
    ctx.floor("R1-count", 600)
    formatter(ctx, P)
    pf = printf_like(P)
    for f in P.all_fns("src/cxy"):
        for nm, n in P.calls(f):
            if nm in pf and len(n[4]) > pf[nm]:
                check_printf(ctx, P, f, nm, n, pf[nm])
    ctx.floor("R5-printf", 30)


def same_base(a, b):
    def base(x):
        return x[0] == "mem" and x[6] == "Diagnostic" and x[3][0] == "ref" and x[3][5]
    return a[0] == "mem" and b[0] == "mem" and a[4] == "fmt" and b[4] == "args" and base(a) and base(a) == base(b)


def strings_of(e, P, f):
    """every string a constant expression can denote: table entries, or a mapping function's results"""
    r = table_strings(e, P, f)
    if r is not None:
        return r
    if e[0] == "call":
        g = P.fn(callee_name(e), tu=f.tu) if callee_name(e) else None
        if g is not None:
            out = []
            for n in walk(g.body):
                if n[0] == "ret" and n[2]:
                    for x in alternatives(n[2]):
                        if x[0] == "str":
                            out.append(x[3])
                        elif not (x[0] == "int"):
                            return None
            return out or None
    return None


def table_strings(e, P, f):
    """strings of a constant table entry `table[i]`"""
    if e[0] == "idx" and e[3][0] == "ref" and e[3][4] in ("g", "s"):
        for g in P.globals.get(e[3][3], []):
            if (g["tu"] is f.tu or g["rfile"] == f.file) and g["init"] and g["init"][0] == "init":
                r = [x[3] for _, x in g["init"][3] if x[0] == "str"]
                if r:
                    return r
    return None


def check_fmt(ctx, P, f, nm, fmt, b, inits, loc):
    need = parse(fmt)
    inst = "%s in %s: \"%s\"" % (nm, f.name, fmt)
    if need is None:
        ctx.bad("R1-count", inst, loc, "malformed format string \"%s\"" % fmt)
        return
    for bb in alternatives(b):
        bb = resolve(bb, inits, P, f)
        have = args_of(bb)
        if have is None:
            # an argument array built elsewhere: it must be a parameter/local array large enough
            t = f.tu.types[bb[2]]
            if not need:
                ctx.ok("R1-count", inst)
                continue
            if t.get("k") == "arr":
                ctx.check(t["n"] >= len(need), "R1-count", inst, loc,
                          "%d arguments needed, array holds %d" % (len(need), t["n"]))
                continue
            ctx.bad("R1-count", inst + " (unresolved arguments)", loc, "cannot resolve the argument list")
            continue
        used = {i for i, _ in need}
        hi = max(used) + 1 if used else 0
        if hi > len(have):
            ctx.bad("R1-count", inst, loc,
                    "\"%s\" consumes %d argument(s) but %d supplied: the formatter reads past the array" %
                    (fmt, hi, len(have)))
        elif len(have) > hi and hi:
            ctx.bad("R1-count", inst, loc, "\"%s\" consumes %d argument(s) but %d supplied" % (fmt, hi, len(have)))
        else:
            ctx.ok("R1-count", inst)
        for i, k in need:
            if i < len(have) and have[i] != "?":
                ctx.check(have[i] in MEMBERS[k], "R2-kind", "%s #%d" % (inst, i), loc,
                          "placeholder {%s} is argument %d, supplied as .%s" % (k, i, have[i]))


def formatter(ctx, P):
    """which union member formatArg reads for each placeholder spelling"""
    f = P.need("format", "core/format.c")
    fa = None
    for g in P.callees(f):
        if any(t[0] == "p" or True for t in g.params) and any("FormatArg" in g.tu.types[p[2]]["c"] for p in g.params) \
                and len(g.params) >= 4:
            fa = g
    if fa is None:
        raise AnalysisBroken("the placeholder formatter called by format() was not found")
    roles = {}
    for i, p in enumerate(fa.params):
        c = fa.tu.types[p[2]]["c"]
        if "FormatState" in c:
            roles["state"] = i
        elif c == "const char *":
            roles["ptr"] = i
        elif "FormatArg" in c:
            roles["args"] = i
        else:
            roles["index"] = i
    if len(roles) != 4:
        raise AnalysisBroken("formatArg's parameters changed")
    spec = {"u8": "u8", "u16": "u16", "u32": "u32", "u64": "u64", "u": "u", "i8": "i8", "i16": "i16", "i32": "i32",
            "i64": "i64", "i": "i", "f32": "f32", "f64": "f64", "c": "c", "s": "s", "b": "b", "p": "p", "t": "t",
            "cE": "c", "sl": "s", "cl": "c", "cEl": "c"}
    for sp, mem in spec.items():
        pol = Policy()
        pol.loop_bound = 1
        pol.opaque = {"printType", "printUtf8", "readChar", "format", "reserveBuf", "advanceBuf", "write", "writeStr",
                      "writeChar", "printUtf8ManyTimes"}
        eng = Engine(P, pol)
        args = [None] * 4
        args[roles["ptr"]] = ("str", sp + "}")
        idx = ("v", -7, 1, "idx")
        args[roles["index"]] = ("&", idx)

        def init(e, st):
            st.mem[idx] = 0
        paths = eng.run(fa, init, args)
        ctx.engine(eng)
        base = ("p", roles["args"])
        reads = set()
        for p in paths:
            for t in list(p.st.facts) + [x for e in p.events for x in e.args]:
                collect(t, base, reads)
        first = {m for i, m in reads if i == 0}
        ok = bool(paths) and first and first <= MEMBERS[sp.rstrip("El") or sp] if sp[0] in "cs" else \
            bool(paths) and first and first <= MEMBERS[sp]
        ctx.check(ok, "R4-formatter", "{%s}" % sp, fa.loc(),
                  "placeholder {%s} should read .%s but the formatter reads %s" % (sp, mem, sorted(first) or "nothing"))
        second = {m for i, m in reads if i == 1}
        if sp.endswith("l"):
            ctx.check(second == {"len"}, "R4-formatter", "{%s} length" % sp, fa.loc(),
                      "placeholder {%s} should take its length from the next argument's .len, reads %s" % (sp, sorted(second)))
        want = 2 if sp.endswith("l") else 1
        for p in paths:
            got = p.st.mem.get(idx)
            ctx.check(got == want, "R4-formatter", "{%s} advances the argument index by %d" % (sp, want), fa.loc(),
                      "after {%s} the argument index is %s, expected %d" % (sp, show(got), want))
        # widths of the printf conversion used
        conv = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "u": 8, "i": 8}
        if sp in conv:
            for p in paths:
                for e in p.calls("snprintf"):
                    fm = e.args[2]
                    m = PCT.fullmatch(fm[1]) if isinstance(fm, tuple) and fm[0] == "str" else None
                    w = {"hh": 1, "h": 2, None: 4, "l": 8, "ll": 8, "j": 8, "z": 8}.get(m.group(3)) if m else None
                    sg = m and (m.group(4) in "di") == (sp[0] == "i")
                    ctx.check(bool(m) and (w == conv[sp] or (w == 4 and conv[sp] < 4)) and sg, "R4-formatter", "{%s} conversion" % sp, fa.loc(),
                              "placeholder {%s} is printed with %s" % (sp, show(fm)))


def collect(t, base, reads):
    from absint import subterms
    for x in subterms(t):
        if x[0] == "fld" and isinstance(x[1], tuple):
            b = x[1]
            if b == ("*", base):
                reads.add((0, x[2]))
            elif b[0] == "idx" and b[1] == ("*", base) and isinstance(b[2], int):
                reads.add((b[2], x[2]))


def check_printf(ctx, P, f, nm, n, fi):
    loc = f.loc(n[1])
    args = n[4][fi + 1:]
    ctx.saw(f)
    for fmt in alternatives(n[4][fi]):
        if fmt[0] == "str":
            check_printf1(ctx, P, f, nm, fmt[3], args, loc)
            continue
        if fmt[0] == "ref" and fmt[4] == "p":
            continue
        al = strings_of(resolve(fmt, local_inits(f), P, f), P, f)
        if al is None:
            ctx.bad("R5-printf", "%s in %s non-constant format" % (nm, f.name), loc, "format is not a constant")
            continue
        for s in al:
            check_printf1(ctx, P, f, nm, s, args, loc, table=True)


def check_printf1(ctx, P, f, nm, s, args, loc, table=False):
    pos = 0
    inst = "%s in %s: \"%s\"" % (nm, f.name, s)
    i = 0
    while i < len(s):
        if s[i] != "%":
            i += 1
            continue
        m = PCT.match(s, i)
        if not m:
            ctx.bad("R5-printf", inst, loc, "malformed conversion at offset %d" % i)
            return
        i = m.end()
        if m.group(0) == "%%":
            continue
        for star in (m.group(1), m.group(2)):
            if star == "*":
                if pos >= len(args):
                    ctx.bad("R5-printf", inst, loc, "missing argument for `*`")
                    return
                pos += 1
        if pos >= len(args):
            ctx.bad("R5-printf", inst, loc, "conversion %s has no argument" % m.group(0))
            return
        t = f.tu.types[args[pos][2]]
        k, c = t.get("k"), m.group(4)
        if c in "diouxXc":
            ok = k in ("int", "uint", "enum", "bool")
            if ok and "z" in t and c != "c":
                w = {"hh": 4, "h": 4, None: 4, "l": 8, "ll": 8, "j": 8, "z": 8, "t": 8}[m.group(3)]
                ok = (t["z"] <= 4) == (w <= 4)
        elif c in "eEfFgGaA":
            ok = k == "float"
        elif c == "s":
            ok = k in ("ptr", "arr") and "char" in t["c"]
        else:
            ok = k in ("ptr", "arr", "func")
        if not ok:
            ctx.bad("R5-printf", inst + " arg %d" % pos, loc, "conversion %s applied to %s" % (m.group(0), t["s"]))
            return
        pos += 1
    ctx.check(pos == len(args) or table and pos < len(args), "R5-printf", inst, loc, "%d arguments supplied, %d converted" % (len(args), pos))
