"""P10: copying and traversing a syntax tree reaches every part of it."""
import prog
from absint import Engine, Policy, Ev, show, subterms
from build import AnalysisBroken

LEVEL = "other"
AST, VIS, PARSER = "frontend/ast.c", "frontend/visitor.c", "frontend/parser.c"

# nodes whose children have no generic traversal because a stage owns them (the stage's own visitor handles the child)
UNVISITED = {
    ("GenericParam", "defaultValue"): "resolved by the binder's generic parameter visitor",
    ("StructDecl", "base"): "bases are resolved by the binder's struct visitor", ("StructDecl", "annotations"): "compile-time only",
    ("ClassDecl", "annotations"): "compile-time only", ("Annotation", "value"): "compile-time only",
    ("TupleXform", "args"): "names bound by the transform itself", ("Exception", "body"): "lowered to a class by the shaker",
    ("ImportEntity", "target"): "set by the importer", ("ImportDecl", "exports"): "set by the importer",
    ("Program", "module"): "not part of the program tree", ("NodeArray", "nodes"): "compile-time only", ("CCode", "what"): "a link", ("Deleted", "*"): "never traversed",
}
# the first declarations of a program belong to it and are never copied with it
IR = "no stage that runs makes such nodes"
UNCLONED = {("Asm", "flags"): "strings no stage reads", ("Ref", "*"): IR, ("BranchIf", "*"): IR, ("BasicBlock", "*"): IR, ("SwitchIr", "*"): IR,
            ("Gep", "*"): IR, ("Branch", "*"): IR, ("Phi", "*"): IR,
            ("Program", "module"): "one per file", ("Program", "top"): "one per file", ("ImportDecl", "*"): "top level only",
            ("ImportEntity", "*"): "top level only", ("ModuleDecl", "*"): "top level only", ("Attr", "*"): "attributes are read-only",
            ("Metadata", "*"): "one per file", ("CCode", "*"): "top level only", ("MacroDecl", "names"): ""}
# declarations a name, a return or a member reference inside the copied tree can stand for
TARGETS = ("FuncDecl", "FuncParamDecl", "StructDecl", "ClassDecl", "FieldDecl", "InterfaceDecl", "UnionDecl", "TypeDecl", "GenericParam",
           "GenericDecl", "EnumDecl", "EnumOptionDecl", "VarDecl", "ClosureExpr")
LINKS = {"Identifier": ("ident", "resolvesTo"), "PathElem": ("pathElement", "resolvesTo"), "ReturnStmt": ("returnStmt", "func")}


def rules(ctx):
    ctx.rule("C1", "the copy of a node holds a copy of each of its children (every field the parser stores a node in, or the traversal visits)")
    ctx.rule("C2", "a child that is a list is copied as a whole list, a single child as a single node")
    ctx.rule("C3", "copying a node of one kind changes no part that belongs to another kind")
    ctx.rule("C4", "a copied node has the contents of the original but neither its next node nor its scope")
    ctx.rule("C5", "a list is copied node by node, in order, to its end")
    ctx.rule("C6", "copied declarations are recorded, and names, returns and scopes inside the copy refer to the copied ones")
    ctx.rule("C7", "parts whose copying was deferred are all copied afterwards, each into its own node")
    ctx.rule("C8", "a sorted member table is copied with all its entries and refers to the copied members")
    ctx.rule("C9", "both generic traversals visit every child of every kind of node, lists as lists")


# ------------------------------------------------------------------ layout of the node's union
class Layout:
    """members of AstNode's body: offset of every field, whether it points to a node"""

    def __init__(self, P):
        r = P.records.get("AstNode")
        if r is None:
            raise AnalysisBroken("struct AstNode not found")
        ty = r["tu"].types
        body = [f for f in r["fields"] if len(f) > 3 and f[2] == "union" and any(x[0] == "_body" for x in f[3])]
        if len(body) != 1:
            raise AnalysisBroken("the body union of AstNode was not found")
        self.off = {}             # (member, field) -> offset
        self.ptr = set()          # (member, field) that are AstNode pointers
        self.at = {}              # (member, offset) -> field

        def size(f):
            return max(1, ty[f[1]].get("z", 8))

        def align(f):
            if len(f) > 3:
                return max([align(x) for x in f[3]] or [1])
            t = ty[f[1]]
            return 8 if t["k"] == "rec" else min(8, size(f) or 1)

        def lay(member, f, base):
            o = base
            for x in f[3]:
                a = align(x)
                if f[2] != "union":
                    o = (o + a - 1) // a * a
                here = base if f[2] == "union" else o
                if len(x) > 3 and x[0] == "":
                    lay(member, x, here)
                else:
                    self.off[member, x[0]] = here
                    t = ty[x[1]]["s"].replace("const ", "").replace("struct ", "").strip()
                    if t == "AstNode *":
                        self.ptr.add((member, x[0]))
                        self.at.setdefault((member, here), x[0])
                if f[2] != "union":
                    o = here + size(x)
        for m in body[0][3]:
            if m[0] and len(m) > 3:
                lay(m[0], m, 0)
        if len(self.off) < 150 or len(self.ptr) < 90:
            raise AnalysisBroken("only %d fields found in AstNode" % len(self.off))

    def same(self, a, b):
        return self.off.get(a) is not None and self.off.get(a) == self.off.get(b)


def lits(P, fn):
    """(tag, member, {field: expr}) of every AstNode literal in fn"""
    for n in prog.walk(fn.body):
        if n[0] != "init":
            continue
        tag, mem = None, []
        st = [n]
        while st:
            x = st.pop()
            for name, v in x[3]:
                if not v:
                    continue
                if name == "tag" and v[0] == "enum" and v[3].startswith("ast"):
                    tag = v[3][3:]
                elif v[0] == "init" and name == "":
                    st.append(v)
                elif v[0] == "init" and isinstance(name, str):
                    f = {}
                    q = [v]
                    while q:
                        y = q.pop()
                        for k, w in y[3]:
                            if w and w[0] == "init" and k == "":
                                q.append(w)
                            elif w:
                                f[k] = w
                    mem.append((name, f))
        if tag:
            for name, f in mem:
                yield tag, name, f


def strip(e):
    while e and e[0] in ("cast", "paren"):
        e = e[-1]
    return e


def is_null(e):
    e = strip(e)
    return e is None or (e[0] == "int" and int(e[3]) == 0) or e[0] == "null"


def list_returning(P):
    """parser functions all of whose results are first nodes of lists they collect"""
    fs = {f.name: f for f in P.all_fns() if f.file.endswith(PARSER)}
    out = set(fs)
    ch = True
    while ch:
        ch = False
        for name in sorted(out):
            good = 0
            for n in prog.walk(fs[name].body):
                if n[0] != "ret" or not n[2] or is_null(n[2]):
                    continue
                e = strip(n[2])
                if (e[0] == "mem" and e[4] == "first") or (e[0] == "call" and prog.callee_name(e) in out):
                    good += 1
                else:
                    good = -1
                    break
            if good <= 0:
                out.discard(name)
                ch = True
    return out


def parser_children(P, lay):
    """(tag, member, field) -> is it (sometimes) a list: the fields the parser stores nodes in"""
    lr = list_returning(P)
    if len(lr) < 3:
        raise AnalysisBroken("functions collecting node lists in the parser not found")
    out = {}
    for f in P.all_fns():
        if not f.file.endswith(PARSER):
            continue
        asg = {}
        for n in prog.walk(f.body):
            if n[0] == "asg" and strip(n[4])[0] == "ref":
                asg.setdefault(strip(n[4])[3], []).append(n[5])
            if n[0] == "decl":
                for v in n[2]:
                    if v[3]:
                        asg.setdefault(v[0] if isinstance(v[0], str) else v[1], []).append(v[3])

        def listy(e, seen=()):
            e = strip(e)
            if not e:
                return False
            if e[0] == "mem":
                return e[4] == "first"
            if e[0] == "call":
                return prog.callee_name(e) in lr
            if e[0] == "cond":
                return listy(e[4], seen) or listy(e[5], seen)
            if e[0] == "ref" and e[3] not in seen:
                return any(listy(x, seen + (e[3],)) for x in asg.get(e[3], ()))
            return False
        for tag, m, fl in lits(P, f):
            for k, v in fl.items():
                if (m, k) in lay.ptr and not is_null(v):
                    out[tag, m, k] = out.get((tag, m, k), False) or listy(v)
    return out


# ------------------------------------------------------------------ traversals
NODE = ("*", ("p", 1))


def field_of(t, base=NODE):
    """("member", "field") of  node->member.field"""
    path = []
    while isinstance(t, tuple) and t[0] == "fld":
        path.append(t[2])
        t = t[1]
    if t == base and len(path) == 2:
        return (path[1], path[0])
    if isinstance(t, tuple) and t[0] == "*" and path and isinstance(t[1], tuple):
        b = field_of(t[1], base)
        if b:
            return (b[0], b[1] + "." + ".".join(reversed(path)))
    if t == base and len(path) > 2:
        return (path[-1], ".".join(reversed(path[:-1])))
    return None


def visits(ctx, P, name, one, many):
    """tag -> {(member, field): set of 'one'/'many'} over all paths"""
    fn = P.need(name, VIS)
    out, missing = {}, {}

    def job(tag, k):
        def r(c):
            pol = Policy()

            def rec(kind):
                def m(eng, st, fr, args, node):
                    eng.record(st, Ev("visit", kind, args, fr.fn.loc(node[1]), None, fr.fn.name, node))
                    st.nid += 1
                    return [(st, ("void", st.nid))]
                return m
            pol.models = {one: rec("one"), many: rec("many")}
            e = Engine(P, pol)

            def init(e, st):
                e.set_fact(st, ("fld", NODE, "tag"), lo=k, hi=k)
                e.set_fact(st, ("p", 1), ne=0)
            ps = e.run(fn, init=init)
            c.engine(e)
            res, always = {}, None
            for p in ps:
                here = set()
                for x in p.events:
                    if x.kind == "visit":
                        f = field_of(x.args[1])
                        res.setdefault(f or show(x.args[1]), set()).add(x.name)
                        here.add(f)
                always = here if always is None else always & here
            # a child left out on some path: only when the path asks for the forward-declaration flag
            return tag, res, len(ps), always
        return r
    tags = {n: v for n, v in P.enums.items() if "astError" in v}
    if not tags:
        raise AnalysisBroken("the node kinds were not found")
    kinds = {n[3:]: v for n, v in list(tags.values())[0].items() if n != "astCOUNT"}
    for tag, res, n, always in ctx.fork([job(t, v) for t, v in kinds.items()]):
        if n:
            out[tag] = (res, always)
    return fn, kinds, out


# ------------------------------------------------------------------ cloning
COPY = ("sym", "copy")
CLV = ("*", COPY)


def clone_paths(P, ctx, fn, k):
    """paths of cloneAstNode for nodes of kind k: the recursive copies and the mapping are recorded, everything else is followed"""
    pol = Policy()
    pol.only = frozenset(f.name for f in P.all_fns() if f.file.endswith(AST)) | {"hasFlag"}

    def copy_(eng, st, fr, args, node):
        if args[-1] != ("p", 1):
            return None
        eng.set_fact(st, COPY, ne=0)
        eng.set_fact(st, ("fld", CLV, "tag"), lo=k, hi=k)
        return [(st, COPY)]

    def clone(kind):
        def m(eng, st, fr, args, node):
            eng.record(st, Ev("clone", kind, args, fr.fn.loc(node[1]), None, fr.fn.name, node))
            return [(st, (kind, args[1]))]
        return m

    def sig(eng, st, fr, args, node):
        v = args[1]
        o = eng.load_obj(st, v[1]) if isinstance(v, tuple) and v[0] == "&" else None
        st.nid += 1
        eng.record(st, Ev("clone", "signature", (o,), fr.fn.loc(node[1]), None, fr.fn.name, node))
        return [(st, ("sig", o))]

    def rec(name):
        def m(eng, st, fr, args, node):
            eng.record(st, Ev("call", name, args, fr.fn.loc(node[1]), None, fr.fn.name, node))
            st.nid += 1
            return [(st, ("res", name) + tuple(a for a in args[1:3]))]
        return m

    def corr(eng, st, fr, args, node):
        return [(st, ("corr", args[1]))]
    pol.models = {"copyAstNode": copy_, "cloneAstNode": clone("clone"), "cloneManyAstNodes": clone("clonelist"), "makeFunctionSignature": sig,
                  "copySortedNodes": rec("sorted"), "pushOnDynArrayExplicit": rec("defer"), "cloneClosureCapture": rec("capture"),
                  "mapAstNode": rec("map"), "findCorrespondingNode": corr}
    e = Engine(P, pol)

    def init(e, st):
        e.set_fact(st, ("p", 1), ne=0)
        e.set_fact(st, ("fld", NODE, "tag"), lo=k, hi=k)
        e.set_fact(st, ("p", 0), ne=0)
    ps = e.run(fn, init=init)
    ctx.engine(e)
    return ps


def known(p, term):
    """True/False/None: is the term known (non)zero on the path"""
    lo, hi, ne = p.facts().get(term, (None, None, ()))
    if lo is not None and lo == hi:
        return lo != 0
    if 0 in ne or (lo is not None and lo > 0):
        return True
    return None


def body_term(base, m, f):
    t = base
    for x in [m] + f.split("."):
        if x == "params" and f.startswith("signature."):
            t = ("*", t)
        t = ("fld", t, x)
    return t


CFG = ("*", ("p", 0))
MAPPING, SIGONLY = ("fld", CFG, "createMapping"), ("fld", CFG, "signatureOnly")


def mentions(t, what):
    return any(x == what for x in subterms(t)) if isinstance(t, tuple) else False


def check_kind(ctx, P, lay, fn, tag, k, owned, sorted_, deferred, own):
    """C1-C3, C6, C8 for nodes of one kind"""
    ps = [p for p in clone_paths(P, ctx, fn, k) if p.ret != 0]
    if not ps:
        raise AnalysisBroken("no path of %s copies a node of kind %s" % (fn.name, tag))
    bad = {}

    def fail(rule, inst, why, where=None):
        bad.setdefault((rule, inst), (where or fn.loc(), why))
    insts = {("C4", "returns:" + tag)}
    fwd = P.flag("flgForwardDecl")
    link = LINKS.get(tag)
    for p in ps:
        if p.ret != COPY:
            fail("C4", "returns:" + tag, "cloneAstNode does not return the copy of a node of kind %s (%s)" % (tag, p.describe(6)))
            continue
        mapping = known(p, MAPPING)
        written = {}          # (member, field) -> value
        for lv, v in p.st.mem.items():
            f = field_of(lv, CLV)
            if f:
                written[f] = v
        forward = any(isinstance(t, tuple) and t[0] == "band" and t[2] == fwd and known(p, t) for t in p.facts())
        explained = set()
        for (m, f), many in owned.items():
            inst = "%s.%s" % (tag, f)
            insts.add(("C1", inst))
            if many:
                insts.add(("C2", inst))
            src = body_term(NODE, m, f)
            if "." in f:
                # part of the signature, which is copied as a whole
                got = next((x for g, v in written.items() if g[1] == f.split(".")[0] for x in [v] if isinstance(v, tuple) and v[0] == "sig"), None)
                val = None
                if got is not None and isinstance(got[1], tuple):
                    val = dict_of(got[1]).get(f.split(".")[1])
                explained |= {g for g in written if g[1] == f.split(".")[0]}
                slot = [(m, f)]
            else:
                slot = [g for g in written if lay.same(g, (m, f))]
                val = written[slot[0]] if slot else None
                explained.update(slot)
            zero = known(p, src) is False or ("." not in f and any(
                known(p, body_term(b, *x)) is False for x in lay.off if lay.same(x, (m, f)) for b in (NODE, CLV) if b == NODE or x not in written))
            if val is None:
                if zero or forward or known(p, ("p", 1)) is False:
                    continue
                if known(p, SIGONLY) and any(x.name == "defer" and mentions(x.args[0], CFG) for x in p.events):
                    deferred.add((tag, m, f))
                    continue
                fail("C1", inst, "the copy of a node of kind %s shares its %s.%s with the original: the child is not copied (%s)" % (tag, m, f, p.describe(6)))
                continue
            if not (isinstance(val, tuple) and val[0] in ("clone", "clonelist")):
                if zero and val == 0:
                    continue
                fail("C1", inst, "%s.%s of the copy is not a copy of the original's child but %s" % (m, f, show(val)[:80]))
                continue
            g = field_of(val[1]) or field_of(val[1], CLV)
            if g is None or not (g == (m, f) or lay.same(g, (m, f))):
                fail("C1", inst, "%s.%s of the copy is a copy of %s" % (m, f, show(val[1])[:80]))
            elif many and val[0] != "clonelist":
                fail("C2", inst, "only the first node of the list %s.%s is copied" % (m, f))
        for m, f in sorted_:
            inst = "%s.%s" % (tag, f)
            slot = [g for g in written if lay.same(g, (m, f))]
            explained.update(slot)
            if mapping is False:
                continue
            insts.add(("C8", inst))
            v = written[slot[0]] if slot else None
            src = v[2] if isinstance(v, tuple) and v[:2] == ("res", "sorted") else None
            if src is None or not any(lay.same(field_of(src, b) or (None, None), (m, f)) for b in (NODE, CLV)):
                fail("C8", inst, "the member table %s.%s of the copy still refers to the members of the original" % (m, f))
        # C3: nothing else of the copy is written
        for g, v in written.items():
            if g in explained or (link and g == link):
                continue
            insts.add(("C3", tag))
            if isinstance(v, tuple) and (v[0] == "sig" or v[:2] == ("res", "capture") or v[0] == "corr"):
                continue
            if g[0] == "list" or v == COPY:
                continue
            if isinstance(v, tuple) and field_of(v) == g:
                continue
            if v == 0 and any(known(p, body_term(NODE, *x)) is False for x in lay.off if lay.same(x, g)):
                continue
            if isinstance(v, tuple) and v[0] in ("clone", "clonelist") and any(
                    lay.same(field_of(v[1], b) or (0, 0), g) for b in (NODE, CLV)) and any(lay.same(x, g) for x in own):
                continue
            fail("C3", tag, "copying a node of kind %s overwrites %s.%s, which is not a child of such a node, with %s" % (tag, g[0], g[1], show(v)[:60]))
        insts.add(("C3", tag))
        # C6: mapped before its children are copied, links mapped afterwards
        if mapping and tag in TARGETS:
            insts.add(("C6", tag))
            at = [i for i, x in enumerate(p.events) if x.name == "map" and x.args[1] == ("p", 1) and x.args[2] == COPY]
            kids = [i for i, x in enumerate(p.events) if x.kind == "clone"]
            if not at:
                fail("C6", tag, "a copied node of kind %s is not recorded: names referring to it inside the copy keep meaning the original" % tag)
            elif kids and at[0] > kids[0]:
                fail("C6", tag, "a copied node of kind %s is recorded only after its children were copied" % tag)
        if mapping and link:
            inst = tag + "." + link[1]
            insts.add(("C6", inst))
            terms = {("corr", body_term(b, *link)) for b in (NODE, CLV)}
            found = any(known(p, t) for t in terms)
            none = any(known(p, t) is False for t in terms) or any(known(p, body_term(b, *link)) is False for b in (NODE, CLV))
            v = written.get(link)
            root = any(mentions(t, ("fld", CFG, "root")) and known(p, t) for t in p.facts() if isinstance(t, tuple) and t[0] == "==")
            if found and v not in terms:
                fail("C6", inst, "%s of a copied %s keeps referring to the original although what it refers to was copied" % (link[1], tag))
            elif not found and not none and not root:
                fail("C6", inst, "%s of a copied %s is not looked up among the copied declarations" % (link[1], tag))
        if mapping:
            insts.add(("C6", "scope:" + tag))
            ts = {("corr", ("fld", b, "parentScope")) for b in (NODE, CLV)}
            sc = ("fld", CLV, "parentScope")
            v = p.st.mem.get(sc)
            if any(known(p, t) for t in ts):
                okv = v in ts
            elif known(p, ("fld", NODE, "parentScope")):
                okv = v == ("fld", NODE, "parentScope") and any(known(p, t) is False for t in ts)
            else:
                okv = v is None or v == 0 or known(p, ("fld", NODE, "parentScope")) is False
            if not okv:
                fail("C6", "scope:" + tag, "the scope of a copied %s is not the copy of the original's scope (it is %s)" % (tag, show(v)[:60]))
    for r, i in sorted(insts):
        if (r, i) in bad:
            ctx.bad(r, i, *bad[r, i])
        else:
            ctx.ok(r, i)


def dict_of(o):
    """{field: value} of a struct value"""
    out = {}
    if isinstance(o, tuple) and o[0] == "obj":
        for path, v in o[2]:
            if len(path) == 1 and path[0][0] == "fld":
                out[path[0][1]] = v
    return out


# ------------------------------------------------------------------ the helpers
def run(ctx):
    P = prog.full()
    rules(ctx)
    lay = Layout(P)
    pc = parser_children(P, lay)
    if len(pc) < 100:
        raise AnalysisBroken("the parser stores nodes in only %d fields" % len(pc))
    fa, kinds, va = visits(ctx, P, "astVisitFallbackVisitAll", "astVisit", "astVisitManyNodes")
    fb, _, vb = visits(ctx, P, "astConstVisitFallbackVisitAll", "astConstVisit", "astConstVisitManyNodes")
    ctx.saw(fa.name, fb.name)

    # children: parser's and traversals'; one entry per offset
    owned = {}
    for tag in kinds:
        o = {}
        fields = {}
        for v in (va, vb):
            for f, ks in v.get(tag, ({}, None))[0].items():
                if isinstance(f, tuple):
                    fields[f] = fields.get(f, False) or "many" in ks
        for (t, m, f), l in pc.items():
            if t == tag:
                g = next((x for x in fields if lay.same(x, (m, f))), (m, f))
                fields[g] = fields.get(g, False) or l
        for f, l in fields.items():
            g = next((x for x in o if lay.same(x, f)), None)
            if g is None:
                o[f] = l
            else:
                o[g] = o[g] or l
        owned[tag] = o

    # C9
    for fn, v, name in ((fa, va, "mutable"), (fb, vb, "const")):
        for tag, o in owned.items():
            if (tag, "*") in UNVISITED or not o:
                continue
            res, always = v.get(tag, ({}, set()))
            for f in res:
                if not isinstance(f, tuple):
                    ctx.bad("C9", "%s:%s:%s" % (name, tag, f), fn.loc(), "the traversal of a node of kind %s visits %s" % (tag, f))
            for (m, f), many in o.items():
                if (tag, f) in UNVISITED:
                    continue
                inst = "%s:%s.%s" % (name, tag, f)
                hit = [g for g in res if isinstance(g, tuple) and (g == (m, f) or lay.same(g, (m, f)))]
                if not hit:
                    ctx.bad("C9", inst, fn.loc(), "the %s traversal does not reach %s.%s of a node of kind %s" % (name, m, f, tag))
                elif many and all("many" not in res[g] for g in hit):
                    ctx.bad("C9", inst, fn.loc(), "the %s traversal visits only the first node of the list %s.%s" % (name, m, f))
                elif always is not None and not any(g in always for g in hit) and not conditional_ok(P, tag, f):
                    ctx.bad("C9", inst, fn.loc(), "the %s traversal reaches %s.%s of a node of kind %s only sometimes" % (name, m, f, tag))
                else:
                    ctx.ok("C9", inst)
    ctx.floor("C9", 180)

    # C1-C3, C6
    fn = P.need("cloneAstNode", AST)
    ctx.saw(fn.name)
    sorted_of = sorted_fields(P, lay)
    own = own_pointers(P, lay, owned)
    jobs = []
    for tag, k in kinds.items():
        if (tag, "*") in UNCLONED:
            continue
        o = {f: l for f, l in owned[tag].items() if (tag, f[1]) not in UNCLONED}

        def job(c, tag=tag, k=k, o=o):
            d = set()
            check_kind(c, P, lay, fn, tag, k, o, sorted_of.get(tag, ()), d, own[tag])
            return sorted(d)
        jobs.append(job)
    deferred = {x for r in ctx.fork(jobs) for x in r}
    ctx.floor("C1", 110)
    ctx.floor("C2", 30)
    ctx.floor("C6", 100)
    ctx.floor("C3", 90)

    check_copy(ctx, P)
    check_many(ctx, P)
    check_deferred(ctx, P, lay, deferred)
    check_sorted(ctx, P)
    check_capture(ctx, P)


def own_pointers(P, lay, owned):
    """tag -> the node pointers of the members that nodes of that kind use (in literals anywhere, the parser and the traversals)"""
    mem = {t: {m for m, _ in o} for t, o in owned.items()}
    for f in P.all_fns():
        for tag, m, _ in lits(P, f):
            mem.setdefault(tag, set()).add(m)
    return {t: [x for x in lay.ptr if x[0] in ms] for t, ms in mem.items()}


def conditional_ok(P, tag, f):
    # the methods' bodies and optional parts are null-checked by the visitor itself; only these are guarded by flags
    return (tag, f) in (("TypeDecl", "aliased"), ("FuncDecl", "body"), ("FuncDecl", "signature.params"))


def sorted_fields(P, lay):
    """tag -> [(member, field)] of the node's sorted member tables: filled in by somebody for that kind"""
    tabs = {}
    r = P.records["AstNode"]
    ty = r["tu"].types
    body = [f for f in r["fields"] if len(f) > 3 and f[2] == "union" and any(x[0] == "_body" for x in f[3])][0]

    def go(member, f):
        for x in f[3]:
            if len(x) > 3:
                go(member, x)
            elif ty[x[1]]["s"].replace("const ", "").replace("struct ", "").strip() == "SortedNodes *":
                tabs.setdefault(member, []).append((member, x[0]))
    for m in body[3]:
        if m[0] and len(m) > 3:
            go(m[0], m)
    owner = {"structDecl": "StructDecl", "classDecl": "ClassDecl", "unionDecl": "UnionDecl", "enumDecl": "EnumDecl"}
    out = {owner[m]: v for m, v in tabs.items() if m in owner}
    if len(out) < 2:
        raise AnalysisBroken("sorted member tables not found")
    return out


def simple(P, ctx, name, **kw):
    fn = P.need(name, AST)
    pol = Policy()
    pol.only = frozenset(kw.pop("only", ()))
    for k, v in kw.items():
        setattr(pol, k, v)
    e = Engine(P, pol)
    ps = e.run(fn)
    ctx.engine(e)
    ctx.saw(name)
    return fn, ps


def check_copy(ctx, P):
    fn, ps = simple(P, ctx, "copyAstNode", only=("duplicateAstNode",))
    src = ("p", 1)
    n = 0
    for p in ps:
        if known(p, src) is False:
            ctx.check(p.ret == 0, "C4", "copyAstNode:null", fn.loc(), "the copy of nothing is not nothing")
            continue
        n += 1
        r = p.ret
        full = [x for x in p.events if x.name in ("memcpy", "memmove") and x.args[0] == r and x.args[1] == src]
        whole = p.st.mem.get(("*", r))
        ctx.check(bool(full) or (isinstance(whole, tuple) and whole[0] == "@base" and whole[1] == ("*", src)), "C4", "copyAstNode:contents", fn.loc(),
                  "the copy is not made from the whole original")
        alloc = [x for x in p.events if isinstance(r, tuple) and len(x.args) == 3 and mentions(r, x.args[2])]
        if full and alloc:
            ctx.check(full[0].args[2] == alloc[0].args[2], "C4", "copyAstNode:size", fn.loc(),
                      "the copied size %s is not the allocated size %s" % (show(full[0].args[2]), show(alloc[0].args[2])))
        for f in ("next", "parentScope"):
            v = p.st.mem.get(("fld", ("*", r), f))
            ctx.check(v == 0, "C4", "copyAstNode:" + f, fn.loc(), "the copy of a node keeps the original's %s" % f)
    if not n:
        raise AnalysisBroken("copyAstNode copies nothing")


def chain(p, first):
    """the list starting at first, by the next fields written on the path"""
    out, x = [], first
    while x and x != 0 and len(out) < 8:
        out.append(x)
        nx = p.st.mem.get(("fld", ("*", x), "next"))
        if nx is None:
            break
        x = nx
    return out


def check_many(ctx, P):
    for name, only in (("cloneManyAstNodes", ()), ("deepCloneManyAstNode", ("insertAstNode", "getLastAstNode"))):
        def cl(eng, st, fr, args, node):
            v = ("cl", args[1])
            eng.set_fact(st, v, ne=0)
            return [(st, v)]

        def last(eng, st, fr, args, node):
            return [(st, args[0])]
        fn, ps = simple(P, ctx, name, only=("insertAstNode",), models={"cloneAstNode": cl, "getLastAstNode": last}, loop_bound=3)
        seen = set()
        for p in ps:
            want, t = [], ("p", 1)
            while known(p, t):
                want.append(("cl", t))
                t = ("fld", ("*", t), "next")
            if known(p, t) is None:
                ctx.bad("C5", name, fn.loc(), "the copy of a list does not follow it to its end (%s)" % p.describe(5))
                continue
            got = chain(p, p.ret)
            seen.add(len(want))
            ctx.check(got == want, "C5", "%s:%d" % (name, len(want)), fn.loc(),
                      "a list of %d nodes is copied as [%s]" % (len(want), ", ".join(show(x)[:40] for x in got)))
        if not {0, 1, 2} <= seen:
            raise AnalysisBroken("%s: lists of lengths %s only" % (name, sorted(seen)))


def check_deferred(ctx, P, lay, deferred):
    if not deferred:
        return
    kinds = {v: k for k, v in {t: P.enum("ast" + t) for t, _, _ in deferred}.items()}
    fn, ps = simple(P, ctx, "cloneGenericDeclaration", only=("nodeIs_",), loop_bound=2)
    done = {}
    for p in ps:
        isa = {}
        for t in p.facts():
            if isinstance(t, tuple) and t[0] == "fld" and t[2] == "tag" and isinstance(t[1], tuple) and t[1][0] == "*":
                lo, hi, _ = p.facts()[t]
                if lo == hi:
                    isa[t[1][1]] = kinds.get(lo)
            elif isinstance(t, tuple) and t[0] == "call" and t[1] == "nodeIs_" and known(p, t):
                isa[t[2][0]] = kinds.get(t[2][1])
        for el, tag in isa.items():
            for t, m, f in deferred:
                if t != tag:
                    continue
                v = next((v for lv, v in p.st.mem.items() for g in [field_of(lv, ("*", el))] if g and lay.same(g, (m, f))), None)
                a = v[2] if isinstance(v, tuple) and v[0] in ("call", "res") and len(v) > 2 else ()
                good = "cloneAstNode" in show(v or 0)[:14] and any(lay.same(field_of(x, ("*", el)) or (0, 0), (m, f)) for x in subterms(v))
                done.setdefault((t, f), []).append(good)
                if not good:
                    ctx.bad("C7", "%s.%s" % (t, f), fn.loc(), "%s.%s of a copied member, left out on the first pass, is %s" % (
                        m, f, "not copied afterwards" if v is None else "set to " + show(v)[:60]))
        # every deferred node is looked at
        sizes = [lo for t, (lo, hi, _) in p.facts().items() if lo == hi and isinstance(t, tuple) and t[0] == "fld" and t[2] == "size"]
        if sizes and isinstance(sizes[0], int) and sizes[0] > 0:
            els = set()
            for t in p.facts():
                q = [t]
                while q:
                    x = q.pop()
                    if not isinstance(x, tuple):
                        continue
                    if x[0] == "idx" and is_elems(x[1]):
                        els.add(x[2])
                    elif is_elems(x):
                        els.add(0)
                    else:
                        q.extend(x)
            ctx.check(len(els) >= sizes[0], "C7", "all:%d" % sizes[0], fn.loc(), "only %d of %d deferred nodes are completed" % (len(els), sizes[0]))
        ctx.check(isinstance(p.ret, tuple) and show(p.ret).startswith("cloneAstNode(") and mentions(p.ret, ("fld", ("fld", ("*", ("p", 1)), "genericDecl"), "decl")),
                  "C7", "result", fn.loc(), "cloneGenericDeclaration does not return the copy of the declaration")
    for t, m, f in sorted(deferred):
        r = done.get((t, f))
        if not r:
            ctx.bad("C7", "%s.%s" % (t, f), fn.loc(), "%s.%s of members of a copied generic declaration is left out and never copied" % (m, f))
        elif all(r):
            ctx.ok("C7", "%s.%s" % (t, f))
    ctx.floor("C7", 3)


def is_elems(x):
    return isinstance(x, tuple) and x[0] == "*" and isinstance(x[1], tuple) and x[1][0] == "fld" and x[1][2] == "elems"


def check_sorted(ctx, P):
    fn, ps = simple(P, ctx, "copySortedNodes", loop_bound=3)
    n = 0
    for p in ps:
        if known(p, ("p", 1)) is False:
            ctx.check(p.ret == 0, "C8", "copySortedNodes:null", fn.loc(), "the copy of a missing table is not missing")
            continue
        al = [x for x in p.events if "alloc" in x.name.lower()]
        cp = [x for x in p.events if x.name in ("memcpy", "memmove")]
        if not al:
            raise AnalysisBroken("copySortedNodes allocates nothing")
        count = ("fld", ("*", ("p", 1)), "count")
        ok = bool(cp) and cp[0].args[0] == p.ret and cp[0].args[1] == ("p", 1) and cp[0].args[2] == al[0].args[-1] and mentions(cp[0].args[2], count)
        ctx.check(ok, "C8", "copySortedNodes:contents", fn.loc(), "the table is not copied with all its entries")
        lo, hi, _ = p.facts().get(count, (None, None, ()))
        if lo is not None and lo == hi:
            n += 1
            rep = {show(x.args[-1]) for x in p.events if x.name == "replaceWithCorrespondingNode"}
            ctx.check(len(rep) == lo, "C8", "copySortedNodes:%d" % lo, fn.loc(), "only %d of %d entries of a copied member table refer to the copied members" % (len(rep), lo))
    if n < 2:
        raise AnalysisBroken("copySortedNodes: loop over entries not followed")


def check_capture(ctx, P):
    fn, ps = simple(P, ctx, "cloneClosureCapture", loop_bound=3)
    n = 0
    for p in ps:
        lo, hi, _ = p.facts().get(("p", 2), (None, None, ()))
        if lo is None or lo != hi:
            continue
        n += 1
        cl = {show(x.args[1]) for x in p.events if x.name == "cloneAstNode"}
        rep = {show(x.args[1]) for x in p.events if x.name == "replaceWithCorrespondingNode"}
        ctx.check(len(cl) == lo and len(rep) == lo, "C6", "captures:%d" % lo, fn.loc(),
                  "of %d captured variables of a copied closure, %d are copied and %d refer to the copied declarations" % (lo, len(cl), len(rep)))
    if n < 2:
        raise AnalysisBroken("cloneClosureCapture: loop over captures not followed")
