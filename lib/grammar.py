"""The parser's functions interpreted over a symbolic token stream.

Every function of parser.c that returns a node is a *grammar call*: it consumes an unknown number of tokens and yields an
opaque node.  Everything else (token buffer, check/match/consume helpers, error helpers) is interpreted in place, so what a
function does is judged by the tokens it tests and the nodes it builds, not by how it is written."""
import prog
from absint import Engine, Limit, Policy, Ev, show
from build import AnalysisBroken

PARSER = ("p", 0)
# the nonterminals of the grammar
KNOWN = frozenset("""
aliasDecl annotation annotations array assembly assemblyInput assemblyOutput assign async attribute attributes binary block
callExpression caseStatement classOrStructDecl closure comptime comptimeBlock comptimeClassOrStructDecl comptimeDeclaration
conditionalTopLevelDecl continueStatement declaration deferStatement define enumDecl enumOption exceptionDecl expression
expressionWithStructs expressionWithoutStructs fieldExpr forStatement forVariable funcDecl funcReturnType functionParam
ifStatement implicitCast indexExpr interfaceDecl launchExpression macroDecl macroExpression macroSdlStmt matchCaseStatement
matchStatement member parenExpr parseArrayType parseAtLeastOne parseBool parseCCode parseCallArguments parseChar
parseClassOrStructMember parseComptimeFor parseComptimeIf parseComptimeVarDecl parseComptimeWhile parseExpression parseFloat
parseFuncType parseGenericParam parseGenericParams parseIdentifier parseIdentifierWithAlias parseImportDecl parseImportEntity
parseImportsDecl parseInteger parseInterfaceMember parseMacroParam parseMany parseMany2 parseManyNoSeparator parseModuleDecl
parseMultipleVariables parseNull parsePath parsePointerType parseProgram parseReferenceType parseString parseStructField
parseSymbol parseTopLevelDecl parseTupleType parseType parseTypeImpl parseTypeOrIndex parseVarDeclName pathElement postfix
postfixCast prefix primary primary_ primitive program raiseStmt range returnStatement statement statementOnly
statementOrExpression stringExpr structExpr substitute switchStatement ternary testContextDeclaration testDecl tuple untypedExpr
variable whileStatement xFormExpr xFormType yieldStatement
""".split())
MAKERS = ("newAstNode", "newAstNode_", "makeAstNode")


def ahead(i):
    return ("idx", ("fld", ("*", PARSER), "ahead"), i)


def fresh(eng, st, i):
    st.nid += 1
    lv = ahead(i)
    eng.clear_under(st, lv)
    st.mem[lv] = ("@base", ("tk", st.nid))
    return ("tk", st.nid)


def is_node_fn(P, f):
    t = f.tu.types[f.ret]
    if t.get("k") != "ptr":
        return False
    e = f.tu.types[t["e"]]
    return e.get("rec") == "AstNode"


def returns_node(f):
    return is_node_fn(None, f)


_fns = None


def grammar_fns(P):
    global _fns
    if _fns is None:
        _fns = {f.name: f for f in P.all_fns() if f.file.endswith("frontend/parser.c") and returns_node(f) and takes_parser(f)
                and f.name not in MAKERS}
        if len(_fns) < 60:
            raise AnalysisBroken("only %d grammar functions found" % len(_fns))
    return _fns


def takes_parser(f):
    if not f.params:
        return False
    t = f.tu.types[f.params[0][2]]
    return t.get("k") == "ptr" and f.tu.types[t["e"]].get("rec") == "Parser"


def maker(eng, st, fr, args, node):
    st.nid += 1
    v = args[2]
    if isinstance(v, tuple) and v[0] == "&":
        v = eng.load_obj(st, v[1])
    r = ("node", st.nid, v)
    eng.set_fact(st, r, ne=0)
    eng.record(st, Ev("node", "new", (args[1], v), fr.fn.loc(node[1]), r, fr.fn.name, node))
    return [(st, r)]


def thrown(eng, st, fr, args, node):
    eng.noret.append((st, "throw", fr.fn.loc(node[1])))
    return []


def next_token(eng, st, fr, args, node):
    st.nid += 1
    eng.record(st, Ev("call", "advanceLexer_", args, fr.fn.loc(node[1]), ("tk", st.nid), fr.fn.name, node))
    return [(st, ("tk", st.nid))]


def grammar_call(name):
    def m(eng, st, fr, args, node):
        st.nid += 1
        n = st.nid
        res = ("call", name, args, n)
        # which token does it start at
        tok = eng.read(st, ("fld", ahead(1), "tag"))
        eng.record(st, Ev("call", name, args + (("at", tok),), fr.fn.loc(node[1]), res, fr.fn.name, node))
        for i in range(4):
            fresh(eng, st, i)
        return [(st, res)]
    return m


def indirect(eng, st, fr, args, node):
    cal = args[0]
    return grammar_call("<%s>" % show(cal))(eng, st, fr, args[1:], node)


def policy(P, inline=()):
    pol = Policy()
    g = grammar_fns(P)
    # a function that is not one of the grammar's own (an extracted helper) is interpreted in place
    pol.models = {n: grammar_call(n) for n in g if n in KNOWN and n not in inline}
    for n in MAKERS:
        pol.models[n] = maker
    pol.models["advanceLexer_"] = next_token
    pol.models["e4c_throw_ctx"] = thrown
    pol.models["e4c_throw"] = thrown
    pol.models["<indirect>"] = indirect
    pol.opaque = frozenset({"logError", "logWarning", "logNote", "makeStringSized", "makeString", "escapeString", "format", "token_tag_to_str",
                            "getTokenString", "getStringLiteral", "preprocessorHasMacro"})
    pol.relevant = {f for f in P.all_fns() if f.file.endswith(("frontend/parser.c", "frontend/operator.c"))}
    pol.small = 40
    pol.max_states = 20000
    pol.loop_bound = 1
    pol.bound_endless = True
    return pol


def engine(P, inline=(), **kw):
    pol = policy(P, inline)
    for k, v in kw.items():
        setattr(pol, k, v)
    return Engine(P, pol)


def init(eng, st):
    for i in range(4):
        lv = ahead(i)
        st.mem[lv] = ("@base", ("tk", -4 + i))
    st.nid = 0


def run(P, name, inline=(), setup=None, **kw):
    f = grammar_fns(P).get(name)
    if f is None:
        raise AnalysisBroken("grammar function %s not found" % name)
    e = engine(P, inline, **kw)

    def start(eng, st):
        init(eng, st)
        if setup:
            setup(eng, st)
    return e.run(f, start), e


def node_field(v, *path):
    """the initialiser of a field of a new node (0 when not mentioned), or None when not a new node"""
    if not (isinstance(v, tuple) and v[0] == "node"):
        return None
    o = v[2]
    if not (isinstance(o, tuple) and o[0] == "obj"):
        return None
    for p, x in o[2]:
        if tuple(s[1] for s in p) == path:
            return x
    return 0 if o[1] is None else None
