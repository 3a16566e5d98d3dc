"""P11: the generated C is the C spelling of the checked tree."""
import re
import prog, emit
from absint import Engine, Policy, Ev, show, subterms
from build import AnalysisBroken

LEVEL = "other"
GEN = "backend/c/generate.c"
WRAP = ("unThisType", "resolveType", "unwrapType", "resolveAndUnThisType", "resolveUnThisUnwrapType")
COMPOUND = ("BinaryExpr", "AssignExpr", "TernaryExpr", "UnaryExpr", "PointerOf", "ReferenceOf", "CastExpr", "TypedExpr")


# ---------------------------------------------------------------- what a path knows
def core(name):
    """the name of a term without the wrappers that only normalise a type"""
    while True:
        n = re.sub(r"\b(%s)\(((?:[^(),]|\([^()]*\))*)(?:,0)?\)" % "|".join(WRAP), r"\2", name)
        if n == name:
            return n
        name = n


class Facts:
    """questions about a path's facts: True, False or None (not decided on this path)"""

    def __init__(self, P, path):
        self.P, self.path = P, path
        self.by = {}
        self.calls = {}
        self.bits = {}
        self.tags = {}
        for t, (lo, hi, ne) in path.facts().items():
            v = lo if lo == hi else None
            nz = True if 0 in ne or (v is not None and v != 0) else False if v == 0 else None
            if isinstance(t, tuple) and t[0] == "call":
                a = [core(emit.name_of(x)) for x in t[2]]
                if t[1] == "nodeIs_" and isinstance(t[2][1], int):
                    self.tags.setdefault(a[0], {})[t[2][1]] = nz
                elif t[1] == "typeIs_" and isinstance(t[2][1], int):
                    self.calls[("tag%d" % t[2][1], a[0])] = nz
                elif a:
                    self.calls[(t[1], a[0])] = nz
                    if len(a) > 1:
                        self.calls[(t[1], a[0], a[1])] = nz
            elif isinstance(t, tuple) and t[0] == "band" and isinstance(t[2], int):
                self.bits[(core(emit.name_of(t[1])), t[2])] = nz
            elif isinstance(t, tuple) and t[0] == "==" and isinstance(t[2], int):
                n = core(emit.name_of(t[1]))
                if nz:
                    self.by[n] = (t[2], True)
            else:
                n = core(emit.name_of(t))
                self.by[n] = (v, nz)
                if n.endswith(".tag"):
                    d = self.tags.setdefault(n[:-4], {})
                    if v is not None:
                        d[v] = True
                    for x in ne:
                        d[x] = False
                elif n == "tag":
                    d = self.tags.setdefault("node", {})
                    if v is not None:
                        d[v] = True
                    for x in ne:
                        d[x] = False

    def nz(self, name):
        return self.by.get(name, (None, None))[1]

    def val(self, name):
        return self.by.get(name, (None, None))[0]

    def tag(self, name, kind, pre="ast"):
        k = self.P.enum(pre + kind)
        d = self.tags.get(name, {})
        if k in d:
            return d[k]
        if any(x is True for x in d.values()):
            return False
        return None

    def flag(self, name, flag):
        return self.bits.get((name, self.P.flag(flag)))

    def is_a(self, name, kinds):
        """is the type called name one of the kinds (by the predicates the path evaluated)?"""
        no, other = set(), False
        for (f, *a), v in self.calls.items():
            if a[0] != name or v is None:
                continue
            m = re.fullmatch(r"is(\w+?)Type", f)
            if m:
                ks = m.group(1).split("Or")
            elif f.startswith("tag"):
                ks = [k for k in kinds if self.P.enum("typ" + k) == int(f[3:])] or ["-"]
            else:
                continue
            if v and set(ks) <= set(kinds):
                return True
            if v:
                other |= len(ks) == 1
            else:
                no |= set(ks)
        if other:
            return False
        d = self.tags.get(name, {})
        for k in kinds:
            x = d.get(self.P.enum("typ" + k))
            if x:
                return True
            if x is False:
                no.add(k)
        return False if set(kinds) <= no else None


def ask(F, q):
    """q: 'nz X' | 'tag X K' | 'is X K|K' | 'flag X F' | 'call fn X' | '= X n'"""
    w = q.split()
    neg = w[0].startswith("!")
    if neg:
        w[0] = w[0][1:]
    if w[0] == "nz":
        r = F.nz(w[1])
    elif w[0] == "tag":
        r = F.tag(w[1], w[2])
    elif w[0] == "is":
        r = F.is_a(w[1], w[2].split("|"))
    elif w[0] == "flag":
        r = F.flag(w[1] + ".flags" if w[1] != "node" else "flags", w[2])
    elif w[0] == "call":
        r = F.calls.get((w[1],) + tuple(w[2:]))
    elif w[0] == "any":
        rs = [ask(F, x.strip()) for x in q.split(None, 1)[1].split("|")]
        r = True if True in rs else None if None in rs else False
    else:
        raise AnalysisBroken("question %r" % q)
    return (None if r is None else not r) if neg else r


# ---------------------------------------------------------------- templates
PH = re.compile(r"«(\w*)([^»]*)»")


def template(t):
    """template -> regex over emit.text.  «oX» operand, «cX» child, «l,X» / «l;X» list with / without comma, «TX» type,
    «KX» the struct behind a class, «NX» name, «aX» formatted value (X is spec:term)"""
    out, i = "", 0
    opt = False               # a literal space here may have been dropped next to punctuation
    for m in re.finditer(r"«(o|c|l,|l;|T|K|N|a|s)([^»]*)»", t):
        lit = t[i:m.start()]
        if opt and lit.startswith(" "):
            out, lit = out + " ?", lit[1:]
        opt = False
        k, x = m.group(1), re.escape(m.group(2)).replace(r"\*", "[^›]*")
        if k == "o":
            a = b = ""
            if lit.endswith(" "):
                lit, a = lit[:-1], " "
            if t[m.end():m.end() + 1] == " ":
                b, opt = " ", "o"
            out += re.escape(lit) + r"(?:%s‹@%s›%s|\(‹@%s›\))" % (a, x, b, x)
            lit = ""
            if opt:
                i = m.end() + 1
                opt = False
                continue
        out += re.escape(lit)
        if k == "o":
            pass
        elif k == "c":
            out += "‹@%s›" % x
        elif k == "s":
            out += "‹@@%s›" % x
        elif k in ("l,", "l;"):
            sep = "," if k == "l," else " ?"
            out += r"(?:‹@%s›(?:%s‹@%s\.next›(?:%s‹@%s\.next\.next›)?)?)?" % (x, sep, x, sep, x)
            opt = True
        elif k == "T":
            out += "‹T:%s›" % x
        elif k == "K":
            out += "‹K:%s›" % x
        elif k == "N":
            out += "‹N:%s›" % x
        else:
            out += "‹%s›" % x
        i = m.end()
    lit = t[i:]
    if opt and lit.startswith(" "):
        out, lit = out + " ?", lit[1:]
    return out + re.escape(lit)


def core_text(s):
    return re.sub(r"‹([^›]*)›", lambda m: "‹%s›" % core(m.group(1)), s)


def operands(t):
    return re.findall(r"«o([^»]*)»", t)


# every form: (template, questions that must hold on the paths printing it)
F = {}


def form(tag, t, *q):
    F.setdefault(tag, []).append((t, q))


form("NullLit", "nullptr")
form("NullLit", "((«Ttype»){nullptr})", "flag type flgFuncTypeParam")
form("BoolLit", "«ab:boolLiteral.value»")
form("CharLit", "'«acE:charLiteral.value»'")
form("CharLit", "'\\''", "= charLiteral.value 39")
form("CharLit", "«au32:charLiteral.value»")
form("IntegerLit", "«ai64:intLiteral.value»", "nz intLiteral.isNegative")
form("IntegerLit", "«au64:intLiteral.uValue»u", "!nz intLiteral.isNegative", "call isUnsignedType type")
form("IntegerLit", "«au64:intLiteral.uValue»", "!nz intLiteral.isNegative", "!call isUnsignedType type")
form("FloatLit", "«a%.17e:floatLiteral.value»")
form("StringLit", '"@chars"')
form("Identifier", "«Nident.resolvesTo»")
form("Identifier", "«Nident.resolvesTo.externDecl.func»", "tag ident.resolvesTo ExternDecl")
form("Identifier", "((«TgetTypeBase(stripReference(type))»)this)")
form("Identifier", "«as:ident.value»")
form("ArrayExpr", "(«Ttype»){«l,arrayExpr.elements»}")
form("ArrayExpr", "{«l,arrayExpr.elements»}")
form("BinaryExpr", "«obinaryExpr.lhs» «as:getBinaryOpString(OP)» «obinaryExpr.rhs»")
form("AssignExpr", "«cassignExpr.lhs» «as:getAssignOpString(OP)» «cassignExpr.rhs»")
form("TernaryExpr", "«oternaryExpr.cond»?«oternaryExpr.body»:«oternaryExpr.otherwise»", "nz ternaryExpr.body")
form("TernaryExpr", "«oternaryExpr.cond»?:«oternaryExpr.otherwise»", "!nz ternaryExpr.body")
form("UnaryExpr", "«as:getUnaryOpString(OP)»«ounaryExpr.operand»", "nz unaryExpr.isPrefix", "!op Move")
form("UnaryExpr", "«ounaryExpr.operand»", "nz unaryExpr.isPrefix", "op Move")
form("UnaryExpr", "«ounaryExpr.operand»«as:getUnaryOpString(OP)»", "!nz unaryExpr.isPrefix")
form("TypedExpr", "(«Ttype»)«otypedExpr.expr»")
form("CastExpr", "(«TcastExpr.to.type»){}", "tag castExpr.expr NullLit")
form("CastExpr", "«ccastExpr.expr»", "== castExpr.to.type castExpr.expr.type")
for d, y in (("->", ""), (".", "!")):
    form("CastExpr", "«ocastExpr.expr»%s_«ai64:castExpr.idx»" % d, "any flag node flgUnionCast|is castExpr.expr.type Union",
         y + "is castExpr.expr.type Pointer|Reference", "any !is castExpr.to.type Reference|call isClassType stripReference(castExpr.to.type)")
    form("CastExpr", "&«ocastExpr.expr»%s_«ai64:castExpr.idx»" % d, "any flag node flgUnionCast|is castExpr.expr.type Union",
         y + "is castExpr.expr.type Pointer|Reference", "is castExpr.to.type Reference", "!call isClassType stripReference(castExpr.to.type)")
form("CastExpr", "*(«ccastExpr.expr»)", "is castExpr.expr.type Reference", "!is castExpr.to.type Reference")
form("CastExpr", "(«TcastExpr.to.type»)«ocastExpr.expr»")
form("GroupExpr", "(«cgroupExpr.expr»)")
form("StmtExpr", "(«cstmtExpr.stmt»)")
form("CallExpr", "«ocallExpr.callee»(«l,callExpr.args»)")
form("MemberExpr", "«NgetTypeDecl(type)»", "call nodeIsMemberFunctionReference node")
form("MemberExpr", "«NmemberExpr.member»", "call nodeIsEnumOptionReference node")
form("MemberExpr", "«cmemberExpr.member»", "tag memberExpr.target.ident.resolvesTo ImportDecl")
form("MemberExpr", "_«au64:memberExpr.member.intLiteral.uValue»", "tag memberExpr.target.ident.resolvesTo ImportDecl")
form("MemberExpr", "tag", "tag memberExpr.target.ident.resolvesTo ImportDecl")
for d, y in (("->", ""), (".", "!")):
    c = y + "is memberExpr.target.type Pointer|Reference|Class"
    form("MemberExpr", "«omemberExpr.target»%s«cmemberExpr.member»" % d, c, "!tag memberExpr.member IntegerLit")
    form("MemberExpr", "«omemberExpr.target»%s_«au64:memberExpr.member.intLiteral.uValue»" % d, c, "tag memberExpr.member IntegerLit",
         "!is stripPointerOrReferenceOnce(memberExpr.target.type,0) Union")
    form("MemberExpr", "«omemberExpr.target»%stag" % d, c, "tag memberExpr.member IntegerLit",
         "is stripPointerOrReferenceOnce(memberExpr.target.type,0) Union")
form("PointerOf", "&«ounaryExpr.operand»")
form("ReferenceOf", "&«ounaryExpr.operand»", "!is type.reference.referred Class")
form("ReferenceOf", "«ounaryExpr.operand»", "is type.reference.referred Class")
form("IndexExpr", "«oindexExpr.target»[«cindexExpr.index»]")
form("FieldExpr", ".«as:fieldExpr.name»=«cfieldExpr.value»")
form("FieldExpr", ".«as:fieldExpr.name»={}", "tag fieldExpr.value NullLit", "is type Tuple|Union|Array")
form("StructExpr", "(«Ttype»){«l,structExpr.fields»}")
form("TupleExpr", "(«Ttype»){}")
form("TupleExpr", "(«Ttype»){._«au64:0»=«ctupleExpr.elements»}")
form("TupleExpr", "(«Ttype»){._«au64:0»=«ctupleExpr.elements»,._«au64:1»=«ctupleExpr.elements.next»}")
form("UnionValueExpr", "(«Ttype»){.tag=«au32:unionValue.idx»,._«au32:unionValue.idx»=«cunionValue.value»}")
A = "backendCallExpr.args"
form("BackendCall", "", "bfi -")
form("BackendCall", "sizeof(«T%s.type»)" % A, "bfi SizeOf", "!is %s.type Class" % A)
form("BackendCall", "sizeof(«K%s.type»)" % A, "bfi SizeOf", "is %s.type Class" % A)
form("BackendCall", "__builtin_alloca(sizeof(«T%s.type»))" % A, "bfi Alloca", "!is %s.type Class" % A)
form("BackendCall", "__builtin_alloca(sizeof(«K%s.type»))" % A, "bfi Alloca", "is %s.type Class" % A)
form("BackendCall", "*(«c%s»)=nullptr" % A, "bfi Zeromem", "is %s.type.pointer.pointed Class" % A)
form("BackendCall", "memset(«c%s»,0,sizeof(«T%s.type.pointer.pointed»))" % (A, A), "bfi Zeromem", "!is %s.type.pointer.pointed Class" % A)
form("BackendCall", "memset(«c%s»,0,sizeof(«K%s.type»))" % (A, A), "bfi Zeromem", "is %s.type Class" % A)
form("BackendCall", "memset(&(«c%s»),0,sizeof(«T%s.type»))" % (A, A), "bfi Zeromem", "!is %s.type Class" % A)
LOC = ',"«as:%s.loc.fileName»",«au64:%s.loc.begin.row»' % (A, A)
form("BackendCall", "__smart_ptr_alloc(sizeof(«K%s.type»),«c%s.next»)" % (A, A), "bfi MemAlloc")
form("BackendCall", "__smart_ptr_alloc_trace(sizeof(«K%s.type»),«c%s.next»%s)" % (A, A, LOC), "bfi MemAlloc")
S = "stripReference(%s.type)" % A
form("BackendCall", "__smart_ptr_get(«c%s»)" % A, "bfi Copy", "is %s Class" % S)
form("BackendCall", "__smart_ptr_get_trace(«c%s»%s)" % (A, LOC), "bfi Copy", "is %s Class" % S)
form("BackendCall", "(«T%s»){__smart_ptr_get(«c%s»._0),«c%s»._1}" % (S, A, A), "bfi Copy", "is %s Tuple" % S, "!nz %s.tuple.copyFunc" % S)
form("BackendCall", "«c%s»" % A, "bfi Copy", "!is %s Class|Tuple|Union|Struct" % S)
DROPS = [("__smart_ptr_drop(«c%s»)" % A, "is %s Class" % S), ("__smart_ptr_drop_trace(«c%s»%s)" % (A, LOC), "is %s Class" % S),
         ("__smart_ptr_drop(«c%s»._0)" % A, "is %s Tuple" % S, "!nz %s.tuple.destructorFunc" % S)]
for fn, kind, bfi in (("%s.tuple.copyFunc.func.decl", "Tuple", "Copy"), ("%s.tUnion.copyFunc.func.decl", "Union", "Copy"),
                      ("findMemberDeclInType(%s,S_CopyOverload)", "Struct", "Copy"),
                      ("%s.tuple.destructorFunc.func.decl", "Tuple", "Drop"), ("%s.tUnion.destructorFunc.func.decl", "Union", "Drop"),
                      ("findMemberDeclInType(%s,S_DestructorOverload)", "Struct", "Drop")):
    for t, y in (("«N%s»(«c%s»)", ""), ("«N%s»(&(«c%s»))", "!")):
        x = (t % (fn % S, A), "is %s %s" % (S, kind), y + "is %s.type Pointer|Reference" % A)
        if bfi == "Copy":
            form("BackendCall", x[0], "bfi Copy", *x[1:])
        else:
            DROPS.append(x)
for d in DROPS:
    form("BackendCall", d[0], "bfi Drop", "!nz backendCallExpr.dropFlags", *d[1:])
    form("BackendCall", "__CXY_DROP_WITH_FLAGS(«as:backendCallExpr.dropFlags._name»,%s)" % d[0], "bfi Drop", "nz backendCallExpr.dropFlags", *d[1:])
form("BasicBlock", "{__bbCleanup«au64:basicBlock.index»:«sbasicBlock.stmts.first»}", "nz basicBlock.stmts.first")
form("BasicBlock", "__bbCleanup«au64:basicBlock.index»:", "!nz basicBlock.stmts.first")
T = "«au64:branch.target.basicBlock.index»"
form("Branch", "__CXY_LOOP_CLEANUP(«as:branch.condition._name»,__bbCleanup%s);" % T, "nz branch.condition", "nz p0.context.inLoop")
form("Branch", "__CXY_BLOCK_CLEANUP(«as:branch.condition._name»,__bbCleanup%s);" % T, "nz branch.condition", "!nz p0.context.inLoop")
form("Branch", "goto __bbCleanup%s;" % T, "!nz branch.condition")
form("ReturnStmt", "return «creturnStmt.expr»;", "nz returnStmt.expr")
form("ReturnStmt", "return;", "!nz returnStmt.expr")
form("BlockStmt", "{«l;blockStmt.stmts»}")
form("ExprStmt", "«cexprStmt.expr»;")
for lk, q in (("", ()), ("S_likely", ("call findAttribute node S_likely",)), ("S_unlikely", ("call findAttribute node S_unlikely", "!call findAttribute node S_likely"))):
    c = "if(«cifStmt.cond»)" if not lk else "if(«as:%s»(«cifStmt.cond»))" % lk
    form("IfStmt", c + "«cifStmt.body»", "!nz ifStmt.otherwise", *q)
    form("IfStmt", c + "«cifStmt.body» else «cifStmt.otherwise»", "nz ifStmt.otherwise", *q)
form("WhileStmt", "while(«cwhileStmt.cond»){«cwhileStmt.body»}", "!nz whileStmt.update")
form("WhileStmt", "while(«cwhileStmt.cond»){«cwhileStmt.body» «cwhileStmt.update»}", "nz whileStmt.update", "unused")
form("WhileStmt", "while(«cwhileStmt.cond»){«cwhileStmt.body» LABEL:«cwhileStmt.update»}", "nz whileStmt.update", "used")
form("SwitchStmt", "switch(«cswitchStmt.cond»){«l;switchStmt.cases»}", "nz switchStmt.defaultCase")
form("SwitchStmt", 'switch(«cswitchStmt.cond»){«l;switchStmt.cases» default:{unreachable("unhandled-default-case");}}', "!nz switchStmt.defaultCase")
for d, y in (("->", ""), (".", "!")):
    form("MatchStmt", "switch(«omatchStmt.expr»%stag){«l;switchStmt.cases»}" % d, y + "is matchStmt.expr.type Pointer|Reference")
M = "tag parentScope MatchStmt"
for l, y in (("case «au32:caseStmt.idx»", (M, "nz caseStmt.match")), ("default", ("!nz caseStmt.match",)),
             ("case «ccaseStmt.match.rangeExpr.start» ... «ccaseStmt.match.rangeExpr.end»", ("!" + M, "tag caseStmt.match RangeExpr")),
             ("case «ccaseStmt.match»", ("!" + M, "!tag caseStmt.match RangeExpr", "nz caseStmt.match"))):
    form("CaseStmt", l + ":", *y, "!nz caseStmt.body")
    for b, r in ((" break;", "noreturn"), ("", "return")):
        if M in y or l == "default":
            form("CaseStmt", "%s:{«ccaseStmt.variable» «ccaseStmt.body»%s}" % (l, b), M, "nz caseStmt.variable", *y, r)
        form("CaseStmt", "%s:{«ccaseStmt.body»%s}" % (l, b), *y, r)
form("ContinueStmt", "goto «as:p0.context.loopUpdate»;", "nz p0.context.loopUpdate")
form("ContinueStmt", "continue;", "!nz p0.context.loopUpdate")
form("BreakStmt", "break;")
form("VarDecl", "", "flag node flgComptime")
for pre, q in ((a + b, (x, y)) for a, x in (("", "!call findAttribute node S_volatile"), ("volatile ", "call findAttribute node S_volatile"))
               for b, y in (("", "!call findAttribute node S_thread"), ("__thread ", "call findAttribute node S_thread"))):
    form("VarDecl", pre + "«Ttype» «Nnode»=«cvarDecl.init»;", "nz varDecl.init", *q)
    form("VarDecl", pre + "«Ttype» «Nnode»={};", "any !nz varDecl.init|tag varDecl.init NullLit", *q)
form("FuncParamDecl", "...", "flag node flgVariadic", "is type Auto")
form("FuncParamDecl", "«Ttype» «as:funcParam.name»", "any !flag node flgVariadic|!is type Auto")
X = "externDecl.func"
form("ExternDecl", "", "nz %s.codegen" % X)
form("ExternDecl", ";")
for w, y in (("extern", ""), ("static", "!")):
    form("ExternDecl", "%s «T%s.type.func.retType» «N%s»(«l,%s.funcDecl.signature.params»);" % (w, X, X, X), "tag %s FuncDecl" % X, y + "flag %s flgExtern" % X)
form("ExternDecl", "extern «T%s.type» «N%s»;" % (X, X), "tag %s VarDecl" % X, "flag %s flgExtern" % X)
form("FuncDecl", "", "flag node flgAbstract")
form("FuncDecl", "extern «Ttype.func.retType» «Nnode»(«l,funcDecl.signature.params»);@main", "flag node flgExtern")
for at, q in ((a + b + c, (x, y)) for a, x in (("", "!flag node flgConstructor"), ("__attribute__((constructor))", "flag node flgConstructor"))
              for b, y in (("", "!call findAttribute node S_inline"), ("__attribute__((always_inline))", "call findAttribute node S_inline"),
                           ("__attribute__((noinline))", "call findAttribute node S_noinline"))
              for c in ("", "__attribute__((optnone))")):
    form("FuncDecl", at + ("static «Ttype.func.retType» «Nnode»(«l,funcDecl.signature.params»)«cfuncDecl.body»@main" if at else
                           "static «Ttype.func.retType» «Nnode»(«l,funcDecl.signature.params»)«cfuncDecl.body»@main"), "!flag node flgExtern", *q)
form("Program", "/*-----------«as:*»-----------*/«l;program.decls»@testmain")

SKIP = ("StructDecl", "ClassDecl", "InterfaceDecl", "UnionDecl", "EnumDecl", "TypeRef", "TypeDecl", "GenericDecl", "ImportDecl", "MacroDecl", "Exception")
# forms that need not have a path of their own
OPTIONAL = {"CharLit", "ExternDecl", "FuncDecl", "VarDecl", "MemberExpr", "CastExpr", "BackendCall", "Identifier", "IfStmt"}


def rules(ctx):
    ctx.rule("E1", "for every kind of node, every path of its code generator prints one of the C forms of that kind: each child once, in its "
                   "place, with its delimiters, under the condition that selects that form")
    ctx.rule("E2", "every C form of a kind of node is still printed on some path")
    ctx.rule("E3", "an operand is printed in parentheses unless the path has established that it is not itself an operator expression")
    ctx.rule("E4", "the generator dispatches every kind of node that reaches it to the generator of that kind")
    ctx.rule("E5", "brackets, braces and indentation are balanced on every path")
    ctx.rule("E6", "the loop context is set for the body, restored afterwards, and a continue target is emitted exactly when used")
    ctx.rule("E7", "every primitive type is spelled with a C type of the same kind, width and sign")
    ctx.rule("E8", "a type's definition lists its members in order under the names used to access them")
    ctx.rule("E9", "a type is called by the same name where it is defined and where it is used")
    ctx.rule("E10", "the spelling of an operator node is taken from the table of its own operator")


def op_of(kind):
    return {"BinaryExpr": ("binaryExpr.op", "assignExpr.op"), "AssignExpr": ("assignExpr.op", "binaryExpr.op"), "UnaryExpr": ("unaryExpr.op",)}.get(kind, ())


def table(ctx, P):
    """tag -> function of the code generator's dispatch table, and the fallback"""
    f = P.need("generateCode", GEN)
    pol = Policy()
    pol.opaque = frozenset({"newFormatState", "writeFormatState", "freeFormatState"})
    seen = []

    def m(eng, st, fr, args, node):
        v = args[0]
        seen.append(eng.load_obj(st, v[1]) if v[0] == "&" else v)
        return [(st, 0)]
    pol.models = {"astConstVisit": m}
    e = Engine(P, pol)
    e.run(f)
    ctx.engine(e)
    if not seen:
        raise AnalysisBroken("generateCode does not start a visitor")
    out, fb = {}, None
    for o in seen:
        for p, v in o[2]:
            n = [x for x in subterms(v) if isinstance(x, tuple) and x[0] == "fn"]
            if len(p) == 2 and p[0] == ("fld", "visitors") and n:
                out[p[1][1]] = n[0][1]
            elif p == (("fld", "fallback"),) and n:
                fb = n[0][1]
    return out, fb


def run_fn(ctx, P, fn, **kw):
    ps, e = emit.run(P, fn, **kw)
    ctx.engine(e)
    ok = []
    for p in ps:
        t = core_text(emit.text(emit.pieces(p)))
        if re.search(r"‹[^›]*(?<![\w.\]])0\.", t):
            continue          # a member of a null node: the caller guarantees otherwise
        Fa = Facts(P, p)
        if any(f.startswith("tag") and v is not None and Fa.tags.get(a[0], {}).get(int(f[3:]), v) != v for (f, *a), v in Fa.calls.items()):
            continue          # the tag and the predicate on the tag disagree
        ok.append((p, t))
    return ok


MAINRE = r"(?: ?‹main:type›)?"


def compile_forms(kind):
    out = []
    for t, q in F[kind]:
        r = template(t)
        r = r.replace("OP\\)", "(?P<op>[\\w.]+)\\)") if "OP)" in t else r
        r = r.replace("@main", MAINRE)
        r = r.replace("@testmain", r"(?:.*allTestCases.*|int main\(.*)?" if False else r".*")
        r = r.replace("@chars", r"(?:‹utf8:[^›]*›|\\‹%03o:[^›]*›)*")
        r = r.replace("LABEL", "‹s:(?P<label>[^›]*)›")
        out.append((t, re.compile(r), q))
    return out


def holds(F_, p, q, text, m):
    """does the question hold on the path (None: undecided)"""
    w = q.split()
    n = w[0].lstrip("!")
    if n == "op":
        k = F_.P.enum("op" + w[1])
        v = F_.by.get("unaryExpr.op")
        d = p.facts().get(("fld", ("fld", ("*", ("p", 1)), "unaryExpr"), "op"))
        r = None
        if d:
            r = True if d[0] == d[1] == k else False if (k in d[2] or d[0] == d[1]) else None
        return r if not w[0].startswith("!") else (None if r is None else not r)
    if n == "bfi":
        d = p.facts().get(("fld", ("fld", ("*", ("p", 1)), "backendCallExpr"), "func"))
        known = [F_.P.enum("bfi" + x) for x in ("SizeOf", "Alloca", "Zeromem", "MemAlloc", "Copy", "Drop")]
        if d is None:
            return None
        if w[1] == "-":
            return all(k in d[2] for k in known) or (d[0] == d[1] and d[0] not in known)
        return d[0] == d[1] == F_.P.enum("bfi" + w[1])
    if n in ("used", "unused"):
        us = [x for x in p.facts() if isinstance(x, tuple) and x[0] == "used"]
        if len(us) != 1:
            return None
        lo, hi, ne = p.facts()[us[0]]
        u = True if 0 in ne or lo == hi == 1 else False if lo == hi == 0 else None
        return u if n == "used" else (None if u is None else not u)
    if n in ("return", "noreturn"):
        # did the path establish that the last statement of the case is a return?
        k = F_.P.enum("astReturnStmt")
        vs = [d[k] for d in F_.tags.values() if k in d]
        r = True if True in vs else False if vs else None
        return r if n == "return" else (None if r is None else not r)
    if n == "==":
        for t, (lo, hi, ne) in p.facts().items():
            if isinstance(t, tuple) and t[0] == "==":
                a, b = core(emit.name_of(t[1])), core(emit.name_of(t[2]))
                if {a, b} == {w[1], w[2]}:
                    return lo == hi == 1
        return None
    if n == "=":
        d = [v for t, v in p.facts().items() if core(emit.name_of(t)) == w[1]]
        return any(lo == hi == int(w[2]) for lo, hi, ne in d) if d else None
    return ask(F_, q)


def balanced(pieces):
    st, ind = [], 0
    pair = {")": "(", "]": "[", "}": "{"}
    instr = False
    for p in pieces:
        if p.kind == "indent":
            ind += 1 if p.text == ">" else -1
            if ind < 0:
                return "the indentation is decreased below its start"
        elif p.kind == "text":
            s = re.sub(r"\\.", "", p.text)
            for c in s:
                if c == '"':
                    instr = not instr
                if instr:
                    continue
                if c in "([{":
                    st.append(c)
                elif c in pair:
                    if not st or st.pop() != pair[c]:
                        return "unmatched %r" % c
    if st:
        return "unclosed %r" % st[-1]
    if ind:
        return "indentation is not restored"
    return None


def check_kind(ctx, P, kind, fn):
    kw = {}
    if kind == "WhileStmt":
        kw = while_models(P)
    if kind == "Asm":
        kw = {"loop_bound": 1}
    paths = run_fn(ctx, P, fn, **kw)
    if not paths:
        raise AnalysisBroken("%s: no paths" % fn)
    forms = compile_forms(kind)
    hit = set()
    seen = set()
    for p, t in paths:
        Fa = Facts(P, p)
        t = re.sub(r"#line ‹[^›]*›\"‹[^›]*›\"", "", t)
        cands, why = [], []
        for i, (src, rx, q) in enumerate(forms):
            m = rx.fullmatch(t)
            if not m:
                continue
            bad = [x for x in q if holds(Fa, p, x, t, m) is not True]
            if bad:
                why.append("the form %s needs %s" % (src, ", ".join(bad)))
                continue
            cands.append((i, m))
        key = (t, tuple(i for i, _ in cands))
        inst = "%s prints %s" % (kind, t[:140])
        if not cands:
            if key not in seen:
                seen.add(key)
                ctx.bad("E1", inst, fn.loc(), "a path of %s prints  %s  which is not the C form of this node%s [%s]" % (
                    fn.name, t[:300], ("; " + "; ".join(why[:2])) if why else "", p.describe(6)[:400]))
            continue
        hit.update(i for i, _ in cands)
        if key not in seen:
            seen.add(key)
            ctx.ok("E1", inst)
        i, m = cands[0]
        if "op" in m.groupdict():
            ctx.check(m.group("op") in op_of(kind), "E10", "%s operator" % kind, fn.loc(),
                      "the operator printed for %s is taken from %s" % (kind, m.group("op")))
        for o in operands(forms[i][0]):
            if ("(‹@%s›)" % o) in t:
                ctx.ok("E3", "%s operand %s in parentheses" % (kind, o))
                continue
            miss = [k for k in COMPOUND if Fa.tag(o, k) is not False]
            ctx.check(not miss, "E3", "%s operand %s bare" % (kind, o), fn.loc(),
                      "%s prints the operand %s without parentheses on a path where it may be %s" % (fn.name, o, ", ".join(miss[:4])))
        b = balanced(emit.pieces(p))
        # a case label's text and the like are complete by themselves
        ctx.check(b is None, "E5", "%s balanced: %s" % (kind, t[:80]), fn.loc(), "%s on the path printing  %s" % (b, t[:200]))
    for i, (src, rx, q) in enumerate(forms):
        if kind in OPTIONAL and i not in hit:
            continue
        ctx.check(i in hit, "E2", "%s form %s" % (kind, src), fn.loc(), "no path of %s prints the form  %s %s" % (fn.name, src, q and "(%s)" % ", ".join(q) or ""))
    return paths


CTXLV = ("*", ("fld", ("*", ("p", 0)), "context"))


def while_models(P):
    n = [0]

    def visit(eng, st, fr, args, node):
        vals = tuple((f, eng.read(st, ("fld", CTXLV, f))) for f in ("loopUpdate", "loopUpdateUsed", "inLoop"))
        eng.record(st, Ev("emit", "visit", args + (("ctx", vals),), fr.fn.loc(node[1]), None, fr.fn.name, node))
        if args[1] == ("fld", ("fld", ("*", ("p", 1)), "whileStmt"), "body"):
            eng.write(st, ("fld", CTXLV, "loopUpdateUsed"), ("used", 1))
        return [(st, ("void", 0))]
    return {"models": {"astConstVisit": visit}}


def check_while(ctx, P, fn, paths):
    for p, t in paths:
        Fa = Facts(P, p)
        body = [x for x in p.events if x.kind == "emit" and x.name == "visit" and emit.name_of(x.args[1]) == "whileStmt.body"]
        if len(body) != 1:
            continue
        v = dict(body[0].args[2][1])
        upd = Fa.nz("whileStmt.update")
        ctx.check(v["inLoop"] == 1, "E6", "body is generated inside the loop", fn.loc(), "inLoop is %s while the body is generated" % show(v["inLoop"]))
        ctx.check(v["loopUpdateUsed"] == 0, "E6", "label starts unused", fn.loc(), "loopUpdateUsed is %s when the body's generation starts" % show(v["loopUpdateUsed"]))
        if upd is False:
            ctx.check(v["loopUpdate"] == 0, "E6", "no continue label without update", fn.loc(), "a loop without update keeps the outer loop's continue label")
        else:
            fresh = any(isinstance(x, tuple) and x[0] == "call" for x in subterms(v["loopUpdate"]))
            ctx.check(fresh, "E6", "fresh continue label", fn.loc(), "the continue label of a loop with update is %s" % show(v["loopUpdate"]))
            m = re.search(r"‹s:([^›]*)›:", t)
            if m:
                ctx.check(m.group(1) == core(emit.name_of(v["loopUpdate"])), "E6", "label is the one continue jumps to", fn.loc(),
                          "the label printed is %s" % m.group(1))
        for f in ("loopUpdate", "loopUpdateUsed", "inLoop"):
            lv = ("fld", CTXLV, f)
            end = p.st.mem.get(lv, lv)
            ctx.check(end == lv, "E6", "%s restored" % f, fn.loc(), "%s is %s after the loop instead of its value before it" % (f, show(end)))


def check_continue(ctx, P, fn, paths):
    n = 0
    for p, t in paths:
        if t.startswith("goto"):
            n += 1
            end = p.st.mem.get(("fld", CTXLV, "loopUpdateUsed"))
            ctx.check(end == 1, "E6", "continue marks the label used", fn.loc(), "after printing the goto, loopUpdateUsed is %s" % show(end))
    ctx.check(n > 0, "E6", "continue jumps to the update", fn.loc(), "no path jumps to the loop's update")


# ---------------------------------------------------------------- types
PRIM = {"Bool": ("i", None, None), "CChar": ("i", 1, None), "Char": ("i", 4, False), "I8": ("i", 1, True), "U8": ("i", 1, False), "I16": ("i", 2, True),
        "U16": ("i", 2, False), "I32": ("i", 4, True), "U32": ("i", 4, False), "I64": ("i", 8, True), "U64": ("i", 8, False), "F32": ("f", 4, True), "F64": ("f", 8, True)}
CBASE = {"char": ("i", 1, None), "signed char": ("i", 1, True), "unsigned char": ("i", 1, False), "signed short": ("i", 2, True), "short": ("i", 2, True),
         "unsigned short": ("i", 2, False), "int": ("i", 4, True), "signed int": ("i", 4, True), "unsigned int": ("i", 4, False), "unsigned": ("i", 4, False),
         "long long": ("i", 8, True), "signed long long": ("i", 8, True), "unsigned long long": ("i", 8, False), "long": ("i", 8, True),
         "signed long": ("i", 8, True), "unsigned long": ("i", 8, False), "float": ("f", 4, True), "double": ("f", 8, True), "_Bool": ("i", 1, False)}


def prologue(P):
    """typedefs and macros written at the start of every generated file"""
    f = P.need("initCompilerBackend", GEN)
    text = ""
    for g in [f] + [x for x in P.all_fns() if x.file.endswith(GEN) and "rologue" in x.name]:
        for n in prog.walk(g.body):
            if n[0] == "str":
                text += str(n[3] if len(n) > 3 else n[-1]) + "\n"
    td = {}
    for m in re.finditer(r"typedef\s+([\w ]+?)\s+(\w+)\s*;", text):
        td[m.group(2)] = m.group(1)
    return td, text


def check_types(ctx, P):
    td, _ = prologue(P)
    if len(td) < 8:
        raise AnalysisBroken("only %d typedefs found in the generated prologue" % len(td))
    fn = P.need("generateTypeName", GEN)
    paths = run_fn(ctx, P, fn, opaque=("generateType",))
    pid, ptag = re.compile(r"primitive\.id$"), re.compile(r"(^|\.)tag$")
    spelled, tagged = {}, {}
    for p, t in paths:
        tag = idv = None
        for k, (lo, hi, ne) in p.facts().items():
            n = emit.name_of(k)
            if lo == hi:
                if pid.search(n):
                    idv = lo
                elif "unwrapType" in n and n.endswith(".tag") and n.count(".") <= 2:
                    tag = lo
        if idv is not None:
            spelled.setdefault(idv, set()).add(t)
        elif tag is not None:
            tagged.setdefault(tag, []).append((p, t))
    for name, want in PRIM.items():
        got = spelled.get(P.enum("prt" + name))
        if not got:
            ctx.bad("E7", "prt%s" % name, fn.loc(), "no path of %s spells this primitive type" % fn.name)
            continue
        for s in sorted(got):
            base = re.sub(r"^const ", "", s)
            c = td.get(base, base)
            c = td.get(c, c)
            have = CBASE.get(c)
            ok = have is not None and have[0] == want[0] and (want[1] is None or have[1] == want[1]) and (want[2] is None or have[2] == want[2])
            ctx.check(ok, "E7", "prt%s as %s" % (name, base), fn.loc(), "prt%s is spelled '%s', which is the C type '%s'" % (name, s, c))
        ctx.check(len(got) == 2, "E7", "prt%s const" % name, fn.loc(), "spellings of prt%s: %s (a plain and a const one expected)" % (name, sorted(got)))
    R = r"\w*\(?.*"
    U = r"(?:const )?"
    EXPECT = {
        "Void": ["void"], "String": [r"const char\*"], "Null": [r"void\*"], "Array": [r"Array‹u64:*.index›"],
        "Pointer": [r"‹T:*.pointer.pointed›\*"], "Reference": [r"‹T:*.reference.referred›\*", r"‹T:*.reference.referred›"],
        "This": [r"‹T:*._this.that›"], "Alias": [r"‹T:*.alias.aliased›"], "Info": [r"‹T:*.info.target›"],
        "Class": [r"struct ‹K:*›\*"], "Exception": [r"struct ‹K:*›\*"], "Result": [r"struct ‹K:*›"], "Enum": [r"‹K:*›"], "Union": [r"struct ‹K:*›"],
        "Tuple": [r"struct ‹K:*›"], "Struct": [r"struct ‹K:*›"], "UntaggedUnion": [r"union ‹K:*›"], "Func": [r"‹K:*›"], "Opaque": [r"struct ‹s:*.name›"]}
    for name, forms in EXPECT.items():
        k = P.enum("typ" + name)
        got = tagged.get(k, [])
        if not got:
            ctx.bad("E7", "typ%s" % name, fn.loc(), "no path of %s spells this type" % fn.name)
        rx = [re.compile(U + f.replace("*.", r"[^›]*\.").replace("K:*", "K:[^›]*")) for f in forms]
        for p, t in got:
            i = [n for n, r in enumerate(rx) if r.fullmatch(t)]
            ctx.check(bool(i), "E7", "typ%s as %s" % (name, t), fn.loc(), "typ%s is spelled  %s" % (name, t))
            if name == "Reference" and i:
                Fa = Facts(P, p)
                cls = [v for (f, *a), v in Fa.calls.items() if f == "isClassType" and a[0].endswith("reference.referred")]
                ctx.check(bool(cls) and cls[0] == (i[0] == 1), "E7", "reference to %s" % ("class" if i[0] else "value"), fn.loc(),
                          "a reference is spelled  %s  on a path where the referred type %s a class" % (t, "is" if cls and cls[0] else "is not known to be"))
    return tagged


MEMBERS = {
    "Class": (r"typedef struct ‹K:node› ‹K:node›;struct ATTR‹K:node›\{MEMS\};", "tClass.members.members", "‹T:%(m)s.type› ‹s:%(m)s.name›;"),
    "Struct": (r"typedef struct ‹K:node› _?‹K:node›;(?:struct ATTR‹K:node›\{MEMS\};)?", "tStruct.members.members",
               "(?:_Atomic )?‹T:%(m)s.type› ‹s:%(m)s.name›(?::‹u32:%(m)s.decl.structField.bits›)?;"),
    "UntaggedUnion": (r"typedef union ‹K:node› ‹K:node›;(?:union ATTR‹K:node›\{MEMS\};)?", "untaggedUnion.members.members", "‹T:%(m)s.type› ‹s:%(m)s.name›;"),
    "Tuple": (r"typedef struct ‹K:node›\{MEMS\}‹K:node›;", "tuple.members", "‹T:%(m)s› _‹u64:%(i)d›;"),
    "Union": (r"(?:typedef struct ‹K:node› ‹K:node›;)?(?:struct ATTR‹K:node›\{uint32_t tag;union\{MEMS\};\};)?", "tUnion.members", "‹T:%(m)s.type› _‹u64:%(i)d›;"),
    "Exception": (r"typedef struct ‹K:node› _?‹K:node›;struct ‹K:node›\{MEMS\};", None, "‹T:%(m)s.type› ‹s:%(m)s._name›;"),
    "Result": (r"(?:typedef struct ‹K:node› ‹K:node›;)?struct ATTR‹K:node›\{uint32_t tag;union\{(?:‹T:result.target› _0;)?void\*_1;\};\};", None, ""),
    "Func": (r"typedef ‹T:func.retType›\(\*‹K:node›\)\((?:‹T:getTypeDecl\(node\).funcDecl.this_.type›)?,?(?:‹T:func.params›(?:,‹T:func.params\[1\]›)?)?\);", None, ""),
    "Enum": (r"typedef ‹T:tEnum.base› ‹K:node›;enum\{MEMS\};", "tEnum.options", "‹K:node›_‹s:%(m)s.name›(?:=‹i64:%(m)s.value›)?,"),
    "Array": (r"typedef ‹T:array.elementType› ‹T:node›\[(?:‹u64:array.len›)?\];", None, ""),
}
ATTR = r"(?:__attribute__\(\(packed\)\))?(?:__attribute__\(\(aligned\(‹u64:[^›]*intLiteral\.uValue›\)\)\))?"


def mems(kind):
    """each member at most once and in order (members that are not fields have no place in the C type)"""
    _, base, m = MEMBERS[kind]
    if kind == "Exception":
        names = ["exception.decl.exception.params" + ".next" * i for i in range(4)]
    elif base is None:
        return ""
    else:
        names = [base + ("" if i == 0 else "[%d]" % i) for i in range(4)]
    return "".join("(?:%s)?" % m.replace("%(m)s", re.escape(x)).replace("%(i)d", str(i)) for i, x in enumerate(names))


def decisions(P, kind, p, t):
    """(instance, ok, message): the optional parts of a definition are printed exactly when the type asks for them"""
    facts = p.facts()
    byname = {core(emit.name_of(k)): v for k, v in facts.items()}

    def known(n):
        v = byname.get(n)
        return None if v is None else True if (0 in v[2] or v[0] == v[1] != 0) else False if v[0] == v[1] == 0 else None
    if kind == "Array":
        v = byname.get("array.len")
        open_ = t.endswith("[];")
        none = v is not None and v[0] == v[1] == 2**64 - 1
        yield "length", open_ == none, "the length is left out although it is known" if open_ else "the length is printed although there is none"
    if kind == "Enum":
        for m in re.finditer(r"‹K:node›_‹s:([^›]*)\.name›(=)?", t):
            o = m.group(1)
            k = known(o + ".decl.enumOption.value")
            yield "explicit values", bool(m.group(2)) or k is False, "the value of an option declared with one is left out"
    if kind == "Struct":
        for m in re.finditer(r"(_Atomic )?‹T:([^›]*)\.type› ‹s:\2\.name›(:)?", t):
            at, o, bits = m.groups()
            yield "bit-fields", known(o + ".decl.structField.bits") is bool(bits), "the width of a bit-field is %s" % ("printed for a plain field" if bits else "left out")
            a = [v for k, v in facts.items() if isinstance(k, tuple) and k[0] == "call" and k[1] == "findAttribute" and core(emit.name_of(k[2][0])) == o + ".decl"]
            yield "atomic", len(a) == 1 and (0 in a[0][2]) == bool(at), "_Atomic is %s" % ("printed for a field without the attribute" if at else "left out")
    for word, attr in (("packed", "S_packed"), ("aligned", "S_align")):
        a = [v for k, v in facts.items() if isinstance(k, tuple) and k[0] == "call" and k[1] == "findAttribute" and len(k[2]) > 1 and
             emit.name_of(k[2][1]).endswith(attr) and core(emit.name_of(k[2][0])) == "getTypeDecl(node)"]
        if ("(%s" % word) in t:
            yield word, bool(a) and 0 in a[0][2], "%s is printed without the attribute" % word
        elif a and 0 in a[0][2] and attr == "S_packed":
            yield word, False, "%s is left out" % word


def check_typedefs(ctx, P):
    fn = P.need("generateType", GEN)
    names = {P.enum("typ" + k): k for k in MEMBERS}
    skipok = {P.enum("typ" + k): k for k in ("This", "Wrapped", "Alias", "Pointer", "Reference") if P.enum_or_none("typ" + k) is not None} if hasattr(P, "enum_or_none") else {}
    pol = {"max_states": 60000}
    recm = {"generateType": emit.record("deftype", 1)}
    jobs = []

    def job(kind, k):
        def run(c):
            def setup(e, st):
                e.set_fact(st, ("fld", ("*", ("p", 1)), "tag"), lo=k, hi=k)
            ps = run_fn(c, P, fn, models=recm, setup=setup, **pol)
            rx = re.compile(MEMBERS[kind][0].replace("ATTR", ATTR).replace("MEMS", mems(kind)))
            seen, most = set(), 0
            for p, t in ps:
                if not t:
                    continue
                b = balanced(emit.pieces(p))
                for inst, ok, msg in decisions(P, kind, p, t):
                    c.check(ok, "E8", "typ%s: %s" % (kind, inst), fn.loc(), "%s on the path defining  %s" % (msg, t[:200]))
                if (t, b) in seen:
                    continue
                seen.add((t, b))
                c.check(bool(rx.fullmatch(t)), "E8", "typ%s: %s" % (kind, t[:100]), fn.loc(),
                        "the definition printed for a %s type on some path is  %s" % (kind, t[:300]))
                c.check(b is None, "E5", "typ%s balanced: %s" % (kind, t[:60]), fn.loc(), "%s in  %s" % (b, t[:200]))
            c.check(len(seen) > 0, "E8", "typ%s defined" % kind, fn.loc(), "no path of %s defines a %s type" % (fn.name, kind))
            if MEMBERS[kind][1] or kind == "Exception":
                two = [t for t, b in seen if re.search(r"members\[1\]|options\[1\]|params\.next", t)]
                c.check(bool(two), "E8", "typ%s has all its members" % kind, fn.loc(), "no path lists a second member")
            # alternative names used at the definition
            alts = set()
            for p, t in ps:
                for x in p.events:
                    if x.kind == "emit" and x.name == "generateCustomTypeName":
                        alts.add(emit.strlit(x.args[3]))
                # the member types are complete before the definition uses them by value
            return kind, alts
        return run
    for k, kind in names.items():
        jobs.append(job(kind, k))
    return dict(ctx.fork(jobs))


def run(ctx):
    P = prog.full()
    rules(ctx)
    tab, fb = table(ctx, P)
    fns = {}
    for kind in F:
        k = P.enum("ast" + kind)
        n = tab.get(k)
        ok = n is not None and n != "astConstVisitSkip"
        ctx.check(ok, "E4", "ast%s dispatched" % kind, P.need("generateCode", GEN).loc(), "nodes of kind %s are %s" % (kind, "skipped" if n else "left to the fallback visitor"))
        if ok:
            fns[kind] = P.need(n, GEN)
    for kind in SKIP:
        n = tab.get(P.enum("ast" + kind))
        ctx.check(n == "astConstVisitSkip", "E4", "ast%s skipped" % kind, P.need("generateCode", GEN).loc(),
                  "declarations of kind %s have no C text of their own but are given to %s" % (kind, n or "the fallback visitor"))
    # kinds the forms share one spelling for must not be dispatched to each other's generator
    jobs = []

    def job(kind, fn):
        def r(c):
            paths = check_kind(c, P, kind, fn)
            if kind == "WhileStmt":
                check_while(c, P, fn, paths)
            if kind == "ContinueStmt":
                check_continue(c, P, fn, paths)
        return r
    for kind, fn in fns.items():
        jobs.append(job(kind, fn))
    ctx.fork(jobs)
    tagged = check_types(ctx, P)
    alts = check_typedefs(ctx, P)
    fn = P.need("generateTypeName", GEN)
    for kind, used in alts.items():
        use = set()
        for p, t in tagged.get(P.enum("typ" + kind), []):
            for x in p.events:
                if x.kind == "emit" and x.name == "generateCustomTypeName":
                    use.add(emit.strlit(x.args[3]))
        if used or use:
            a = used | use
            ctx.check(len(a) == 1, "E9", "typ%s" % kind, fn.loc(), "an unnamed %s type is called %s where it is defined and %s where it is used" % (
                kind, "/".join(sorted(map(str, used))), "/".join(sorted(map(str, use)))))
    for r, n in (("E1", 110), ("E2", 70), ("E3", 60), ("E4", 50), ("E5", 100), ("E6", 12), ("E7", 50), ("E8", 40), ("E9", 8), ("E10", 3)):
        ctx.floor(r, n)
    ctx.assumptions += ["the tree has passed the compiler's type checker and simplifier"]
