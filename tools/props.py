prop("P05", "Every diagnostic and printed text is formatted with matching arguments",
     "Whenever the compiler formats a diagnostic or a piece of generated text, the format consumes exactly the arguments "
     "supplied with it, each through the representation it was supplied in, and a literal brace is printed as a brace. "
     "Data such as names, paths or user messages is printed as text and never interpreted as a format, so a diagnostic never "
     "reads beyond its argument list and never prints the wrong entity.",
     ["inputs", "programs"], "every diagnostic the compiler can emit, with every argument it can be given",
     "There are about 600 formatting sites; a test only reaches the few dozen diagnostics it provokes, and reading one "
     "argument too many usually prints garbage rather than failing.",
     ["src/cxy/core/format.c", "src/cxy/core/log.c", "src/cxy/lang"],
     [("format/formatArg: placeholder to argument-union member", "src/cxy/core/format.c"),
      ("logError/logWarning/logNote call sites", "src/cxy/lang, src/cxy/driver")],
     technique="Whole-program call-site analysis over clang's resolved AST: formatting wrappers are discovered by parameter "
     "forwarding, format strings and argument arrays are resolved through locals, tables and mapping functions and checked "
     "against each other; the formatter itself is abstractly interpreted to check which union member each placeholder reads.",
     note="All call sites of all compiler TUs are enumerated; formats that cannot be resolved to constants are violations. "
     "The semantic appropriateness of the wording and the types inside va_list forwarding are not decided.")


prop("P01", "A failed compilation is reported as failed and nothing is built from it",
     "If option parsing, driver initialisation, parsing, any compiler stage, the C compiler, the test run or a module import "
     "fails, or if any error was logged, then no later stage runs for that program, no executable or test is started from it, "
     "and the compiler exits with a nonzero status; it exits with zero only when every file compiled without a logged error. "
     "Every logged error is counted exactly once, stages run in pipeline order, and a stage only runs on a program that has "
     "passed the stages it builds on.",
     ["inputs", "faults"], "every program, every subset of failing stages, files and back-end commands",
     "The failing outcomes multiply (which of 20 stages, which file, which command fails); the tests compile programs that "
     "succeed or fail in a few stages.",
     ["src/cxy/driver/main.c", "src/cxy/driver/driver.c", "src/cxy/driver/stages.c", "src/cxy/core/log.c",
      "src/cxy/lang/backend/c/generate.c"],
     [("compileProgram/compileFile/compileModule: stage loop and status", "src/cxy/driver/driver.c"),
      ("executeCompilerStage: hasErrors gate", "src/cxy/driver/stages.c"),
      ("compilerBackendMakeExecutable/ExecuteTestCase: exit status", "src/cxy/lang/backend/c/generate.c")],
     technique="Path-sensitive abstract interpretation of the driver functions over clang's AST: every fallible call forks into "
     "success and failure and each path's return value and later calls are checked; the error counter's writers are enumerated.",
     note="All paths of the driver functions are explored; whether each stage logs an error for each bad program is P02/P03.")

prop("P06", "Scanning and parsing terminate on every input",
     "For every source text, including one that ends in the middle of a comment, string, character or number literal, or any "
     "declaration or statement, scanning and parsing terminate: every loop of the lexer and parser ends when the input has "
     "ended, every iteration either consumes input or leaves the loop, no parser function calls itself again without having "
     "consumed input, and the scanner consumes at least one character for every token it returns other than end of file.",
     ["inputs"], "every byte sequence given as a source file, cut off at every position",
     "A hang needs one particular token or end of file at one particular grammar position; there are hundreds of such positions.",
     ["src/cxy/lang/frontend/lexer.c", "src/cxy/lang/frontend/parser.c"],
     [("advanceLexer and the skip/scan helpers", "src/cxy/lang/frontend/lexer.c"),
      ("parser loops: block, parseMany*, synchronize*, skipUntil", "src/cxy/lang/frontend/parser.c")],
     technique="Typestate dataflow over the AST: every loop is analysed once with all tokens fixed to end-of-file (must exit) "
     "and once tracking whether input was consumed (every back edge must have consumed); call-graph cycles must cross a "
     "consuming call; scanner paths must consume before returning a token.",
     note="Termination of the lexer and parser loops for all inputs; later stages (comptime loops, which the language lets the "
     "user write unbounded) are not covered.")

prop("P20", "Syntax errors are reported, recovered from and never escape the parser",
     "Every syntax error leads to a logged diagnostic before parsing is abandoned or resynchronised, so ill-formed input is "
     "never silently accepted; every parser exception is caught inside the parser's entry points, which return to the driver "
     "normally; and every try block releases its frame on every way out, so any number of syntax errors can be recovered from "
     "without exhausting the frame stack.",
     ["inputs", "histories"], "every ill-formed source file, with any number of errors",
     "Frame leaks need more than fifteen errors in one file and uncaught exceptions need an error at a rarely exercised "
     "position; the tests contain few ill-formed inputs.",
     ["src/cxy/lang/frontend/parser.c", "src/cxy/core/e4c.c", "src/cxy/core/e4c.h"],
     [("parserError/parserFail/E4C_TRY_BLOCK", "src/cxy/lang/frontend/parser.c"),
      ("e4c_try/e4c_hook/e4c_throw_ctx", "src/cxy/core/e4c.c")],
     technique="Typestate dataflow with a stack of try frames per path; interprocedural uncaught-exception-type fixpoint "
     "through direct and indirect calls; abstract interpretation of the exception runtime's state machine.",
     note="All functions that can throw (150) are analysed; the quality of the recovery (which tokens are skipped) is not.")


prop("P09", "Compile-time evaluation computes what the operators and statements mean",
     "A comptime expression is replaced by the literal its operators denote: each binary and prefix operator yields its own "
     "operation on the operands' values in the promoted kind with a consistent sign and truth value, comparisons yield their own "
     "relation, conditions are true exactly for non-zero/non-empty literals, comptime if and ?: keep exactly the selected branch "
     "(and drop neither when undecided), comptime for visits the elements in order, and indexing reads the requested element. "
     "An expression that cannot be evaluated (division by zero, index out of bounds, operands of the wrong kind) is reported as an "
     "error, marked as failed and never crashes the compiler or continues as a value; the evaluated node keeps its own place in "
     "the surrounding list.",
     ["inputs", "programs"], "every comptime operator over every combination of operand kinds and values",
     "There are 19 operators over a dozen operand kinds in two evaluators; the tests fold a handful of small positive integers.",
     ["src/cxy/lang/middle/eval", "src/cxy/lang/middle/preprocess"],
     [("evalBinaryExpr/evalUnaryExpr/evalIndexExpr/evalIfStmt/evalForStmt*", "src/cxy/lang/middle/eval"),
      ("preprocessorEvalBinaryExpr, visitTernaryExpr, visitIfStmt", "src/cxy/lang/middle/preprocess")],
     technique="Path-sensitive abstract interpretation of the evaluators over symbolic literal values (no execution, no solver): for "
     "every operator and pair of operand kinds, the term stored in the result literal is compared with the operator's meaning; "
     "branches, loops and indexing are checked on all paths.",
     note="Operand values are symbolic, so all values are covered; loops are unrolled to 3 iterations. Folding 64-bit integers "
     "through double is a known finding. Comptime string formatting of values and type reflection members are not covered.")


prop("P08", "Source text becomes the syntax tree the language defines",
     "The scanner turns every spelling into its own token, longest match first: each operator and keyword is recognised exactly "
     "by its own spelling, a number is read in the base of its prefix over digits of that base, and any other word is an identifier. "
     "The parser builds the tree the source spells: binary operators bind by their precedence and associate to the left, unary, "
     "assignment and conditional operators get the operator and operands written, every part of a declaration, statement or type "
     "ends up in its own place in the node and none is dropped, modifiers (const, pub, async, variadic, virtual, default, ...) set "
     "exactly their flag, renamed entities keep name and alias apart, and literals keep value and sign.",
     ["inputs"], "every source text: every token sequence at every grammar position",
     "About 110 grammar functions with optional parts and 20 operators at 13 levels combine; the tests use a handful of the "
     "combinations, and a dropped or swapped part usually still compiles.",
     ["src/cxy/lang/frontend/lexer.c", "src/cxy/lang/frontend/parser.c", "src/cxy/lang/frontend/operator.c", "src/cxy/lang/frontend/token.c"],
     [("advanceLexer: scanner", "src/cxy/lang/frontend/lexer.c"),
      ("parser grammar functions", "src/cxy/lang/frontend/parser.c"),
      ("operator tables", "src/cxy/lang/frontend/operator.c")],
     technique="Path-sensitive abstract interpretation of the scanner over symbolic characters and of each grammar function over a symbolic "
     "token stream (other nonterminals opaque): the tokens consumed on each path are compared with the node built, its operands, order, "
     "flags and literal values against a table of the language.",
     note="Loops in grammar functions are unrolled once or twice; strings' escape handling and the grammar's accept/reject decisions for "
     "each token sequence are not decided (rejections are P20).")


prop("P11", "The generated C spells exactly the checked syntax tree",
     "For every expression, statement, declaration and type that reaches the C back end, the text written is the C form of that node: "
     "every child appears once and in its own place, a nested operator expression keeps its grouping (parenthesised operands), the "
     "operator is the node's own, delimiters and braces are balanced, optional parts (else, loop update, initialiser, break, default, "
     "const, volatile, thread-local, packed, aligned, bit-field width, array length, enum value) appear exactly when the node has them, "
     "pointers and references are accessed with -> and values with '.', literals are printed with their own sign, width and all their digits, a "
     "continue in a loop with an update runs the update of its own loop, and every type is spelled with a C type of the same kind, "
     "width and sign and called by the same name where it is defined and where it is used.",
     ["programs"], "every program accepted by the type checker: every node kind, with every combination of children, flags and types",
     "Some 60 generator functions choose between several forms by type and flag; nested combinations (operators inside operators, "
     "loops inside loops, casts of references) are where a missing parenthesis or a wrong form appears, and tests use few of them.",
     ["src/cxy/lang/backend/c/generate.c"],
     [("visit* generators and dispatch table", "src/cxy/lang/backend/c/generate.c"),
      ("generateType, generateTypeName", "src/cxy/lang/backend/c/generate.c")],
     technique="Path-sensitive abstract interpretation of every generator function on a symbolic node: the sequence of text, children, types and "
     "names written on each path is matched against the C forms of that node kind, together with the conditions under which each form is right.",
     note="Children are opaque (each generator is checked for itself); lists are unrolled to three elements. That the checked tree means "
     "what the source means is P08/P09's part, not this property's.")

prop("P10", "Copies and traversals of a syntax tree reach every part of it",
     "A copy of a syntax tree shares no part with the original: for every kind of node, each child the parser stores (operands, types, bodies, arms, bounds, members, "
     "parameters, arguments, annotations) is copied, lists as whole lists in order, and nothing belonging to another kind of node is overwritten; names, returns, scopes, "
     "captures and member tables inside the copy refer to the copied declarations; parts whose copying is deferred are completed. So a generic function or type, a macro, "
     "a compile-time loop body or a default argument used more than once behaves the same each time. Likewise the generic traversals visit every child of every kind of node.",
     ["every kind of syntax tree node", "every child field and every path of the cloner and the traversals", "every generic instantiation, macro expansion and comptime unrolling"],
     "for every node kind and every path of cloneAstNode and the fallback traversals",
     "Tests instantiate a few generics with a few node kinds in their bodies; a child missed for one kind only shows when a generic using that kind is instantiated twice.",
     ["src/cxy/lang/frontend/ast.c", "src/cxy/lang/frontend/visitor.c", "src/cxy/lang/frontend/parser.c"],
     [("children stored by the parser", "src/cxy/lang/frontend/parser.c"), ("cloner", "src/cxy/lang/frontend/ast.c"), ("traversals", "src/cxy/lang/frontend/visitor.c")],
     technique="ownership analysis: child fields (parser literals and traversals, by union layout) x paths of the cloner under abstract interpretation per node kind")

prop("P15", "Characters and strings written in a program keep their value",
     "A character literal has the value of the one ASCII or UTF-8 character, or the one escape sequence (\\n \\t \\v \\r \\a \\b \\$ \\\" \\' \\\\, \\xHH, up to three octal "
     "digits), written between its quotes; anything else (none, two characters, a malformed or truncated UTF-8 sequence, a number above 255) is rejected with a "
     "diagnostic and never aborts. A string literal has the bytes written between its quotes in order, with every escape sequence replaced by its value. The C code generated for "
     "a character or string literal has, read back by a C compiler, the same value or bytes, whatever character follows, and a character that the compiler prints is "
     "printed as its own UTF-8 bytes or an escape sequence for it. The text of a name or string is that of its token without quotes or backticks.",
     ["character literals", "string literals", "names"],
     "every byte value, every escape sequence, UTF-8 sequences of every length, every byte followed by digits, quotes or escapes",
     "Tests contain a handful of escapes; hexadecimal and octal escapes, multi-byte characters, control characters followed by digits and quotes in the other kind of "
     "literal take code paths of their own.",
     ["src/cxy/core/utils.c", "src/cxy/core/format.c", "src/cxy/lang/frontend/lexer.c", "src/cxy/lang/frontend/parser.c", "src/cxy/lang/backend/c/generate.c"],
     [("convertEscapeSeq, escapeString", "src/cxy/core/utils.c"), ("printUtf8", "src/cxy/core/format.c"), ("visitCharLit, visitStringLit", "src/cxy/lang/backend/c/generate.c"),
      ("getStringLiteral, getTokenString", "src/cxy/lang/frontend/parser.c"), ("character and string tokens", "src/cxy/lang/frontend/lexer.c")],
     technique="abstract interpretation of each conversion and printing function into a decision table (path conditions and result terms over the input bytes), compared "
     "with the definition of the literals for every class of input",
     note="Strings of up to six characters (two escapes); the functions keep no state between characters other than their two indices. What an unknown escape such as \\q means is not specified.")


prop("P03", "Every construct accepts exactly the operand types it is defined for",
     "Each expression and statement is accepted exactly for the operand types the language defines it for, has the type the language gives it, and is rejected with an error (and the error type) "
     "otherwise: arithmetic on numbers (and a pointer and an integer for + and -; no remainder of floats), bitwise and shift operators on integers, && || ! on booleans, ordering on numbers, equality also on "
     "pointers, strings and null, with bool as the type of comparisons and the promoted type otherwise; ++ and -- on numeric variables, dereferences of pointers, strings and arrays; assignments (also through an index), compound "
     "assignments, variable initializers, field defaults, call arguments, returned values, casts, branches of a conditional and array elements only of types that convert to their target, never to a "
     "constant, and calls only with as many arguments as the parameters without default allow; conditions of types with a truth value; indices that are integers; ranges of numbers; loops over ranges, "
     "arrays and strings with the variables those provide; switches over integral values and strings. A part that was rejected already rejects the whole without another error.",
     ["operand types", "programs"], "every construct with every combination of operand types of a universe of 31 types (all kinds of type, constants, references, an erroneous operand)",
     "There are tens of thousands of combinations of construct and operand types; tests exercise some dozens of accepted ones and hardly any rejected one, and a gate that accepts too much surfaces as broken C code or a wrong value.",
     ["src/cxy/lang/middle/sema/binary.c", "src/cxy/lang/middle/sema/unary.c", "src/cxy/lang/middle/sema/assign.c", "src/cxy/lang/middle/sema/variables.c", "src/cxy/lang/middle/sema/check.c",
      "src/cxy/lang/middle/sema/call.c", "src/cxy/lang/middle/sema/function.c", "src/cxy/lang/middle/sema/index.c", "src/cxy/lang/middle/sema/cast.c", "src/cxy/lang/middle/sema/for.c",
      "src/cxy/lang/middle/sema/if.c", "src/cxy/lang/middle/sema/array.c", "src/cxy/lang/middle/sema/tuple.c", "src/cxy/lang/middle/sema/switch.c"],
     [("checkBinaryExpr", "src/cxy/lang/middle/sema/binary.c"), ("checkUnaryExpr, checkPointerOfExpr", "src/cxy/lang/middle/sema/unary.c"), ("checkAssignExpr", "src/cxy/lang/middle/sema/assign.c"),
      ("checkVarDecl", "src/cxy/lang/middle/sema/variables.c"), ("checkCallExpr, matchOverloadedFunction", "src/cxy/lang/middle/sema/call.c"), ("checkIndexExpr", "src/cxy/lang/middle/sema/index.c"),
      ("checkIfStmt, checkForStmt, checkReturnStmt, checkCastExpr, checkRangeExpr", "src/cxy/lang/middle/sema")],
     technique="abstract interpretation of each check function on preset heaps, one run per construct and combination of operand types (40 000), with the recursive type check of the operands "
     "replaced by their type; every path's verdict (accepted with a type, rejected with a logged error, silent after an earlier error) is compared with the language's typing rules",
     note="Operand types nest two levels; operators overloaded by structs and classes, optional and generic targets, and overload sets with more than one function are outside the rule.")


prop("P04", "Types convert into each other only where the language allows it",
     "A value converts implicitly exactly where the language says so: between integers when every value of the source fits the kind of the target (an unsigned source into a signed "
     "target only if the target is wider, a signed one never into a narrower), from integers and floats to floats, between the character types, from an enum to what its base type converts to; null to "
     "pointers, classes, strings and functions; a pointer, reference or array only to one whose pointee, referent or element is compatible (never to another primitive type) or to a void pointer; arrays of equal length; tuples "
     "and functions member by member with equal counts; a union from its own members only; a class to itself and the classes it derives from; structs and enums only to themselves; never from a "
     "pointer to a constant to a pointer to a variable. An explicit cast is accepted between primitive types and from enums to integers, never between a structured type and a primitive. The common "
     "type of two operands is one both convert to (the wider integer, the wider float, a float with an integer), and unrelated operands have none.",
     ["type pairs", "programs"], "every ordered pair of a universe of 65 types that contains every kind of type and every primitive, for each of the three relations",
     "There are thousands of pairs; tests convert a few dozen, nearly all in the accepted direction, and a conversion wrongly accepted shows only as a corrupted value in some program.",
     ["src/cxy/lang/frontend/types.c", "src/cxy/lang/frontend/types.h", "src/cxy/lang/frontend/ttable.c"],
     [("isTypeAssignableFrom, isTypeCastAssignable", "src/cxy/lang/frontend/types.c"), ("promoteType", "src/cxy/lang/frontend/ttable.c"), ("primitive type lists and sizes", "src/cxy/lang/frontend/types.h")],
     technique="abstract interpretation of the conversion functions on a preset heap of concrete type descriptors, one run per pair of types (8 000 pairs), compared with the "
     "language's conversion tables; a read of a union member that the type does not have, an abort or non-termination is a violation",
     note="The universe is finite (two levels of nesting); pairs on which the language is silent are skipped. Where conversions are asked for (assignments, calls, returns) is P03.")


prop("P02", "Every construct that is rejected is reported with an error",
     "When the type checker or the compile-time evaluator rejects something (an expression, a member, a call with no matching "
     "overload, a generic instantiation, a builtin macro call, a compile-time condition), it reports an error for it: a node is "
     "only marked as erroneous after an error was logged, because a part of it was already erroneous, or because a step failed "
     "that itself reported why. A program is therefore never rejected silently and never reaches code generation with a "
     "rejected construct that no diagnostic accounts for.",
     ["programs"], "every program with an ill-formed construct, in every combination of context and construct",
     "Tests provoke a few dozen of the rejections; the ones that stay silent need an unusual combination (a member missing "
     "from a whole class chain, too many generic arguments, a macro call without arguments).",
     ["src/cxy/lang/middle/sema", "src/cxy/lang/middle/eval", "src/cxy/lang/middle/preprocess"],
     [("ERROR_TYPE / astError assignments and the failure results that lead to them", "src/cxy/lang/middle/sema, src/cxy/lang/middle/eval")],
     technique="Abstract interpretation of every function of the type checker and evaluator over clang's AST, with per-function "
     "failure summaries (which results of a call imply that an error was reported, under which arguments) solved to a fixpoint "
     "over the call graph; each path that marks a node as erroneous needs a reason.",
     note="Loops are unrolled once. That a null type of a checked node is not a failure of its own, and that the evaluator "
     "fails only through erroneous nodes, are assumed. Whether the wording fits the fault is not decided.")


prop("P24", "A name means the innermost declaration visible where it is written",
     "Where a name is used, it means the declaration in the innermost enclosing scope that has it at that point; failing that, a member inherited from the nearest base class that has it (inside a class), then a public builtin; otherwise an "
     "error is reported. A declaration is visible in the block, function, loop, case, closure, type or generic it belongs to and nowhere else, from its definition on (parameters before bodies, loop and case variables in "
     "their bodies, a variable not in its own initialiser), and the declarations of a file and the methods of a type are known before any of their bodies is. Declaring a name twice in one scope is an error, except for functions, which become "
     "overloads in order of declaration, and forward declarations, which get their definition. break and continue mean the innermost loop of their own function or closure, return the innermost function or closure, this and super the method they are in, This the enclosing type; "
     "anywhere else they are rejected. A closure captures exactly the local variables of the functions around it. Declarations for tests or compile time are only usable there, and a module's members can only be imported by name if they exist and are public.",
     ["programs"], "every nesting of scopes, shadowing, repetition and order of declarations, on every path of the name binder",
     "Tests use names that are declared once and used in order; shadowing in one particular construct, a name of a finished scope, the third overload, or a keyword across a closure each take their own path.",
     ["src/cxy/lang/middle/bind/scope.c", "src/cxy/lang/middle/bind/resolve.c", "src/cxy/lang/middle/bind/discover.c", "src/cxy/lang/middle/bind/bind.c", "src/cxy/driver/driver.c"],
     [("findSymbol, defineSymbol, defineFunctionDecl, pushScope, popScope", "src/cxy/lang/middle/bind/scope.c"), ("bindPath and the bind functions of the constructs", "src/cxy/lang/middle/bind/resolve.c"),
      ("bindDeclaration, bindImportDecl", "src/cxy/lang/middle/bind/discover.c"), ("compileModule: imported entities", "src/cxy/driver/driver.c")],
     technique="abstract interpretation of the scope operations over symbol tables as sets of named cells; the effect of every construct's bind function (scopes entered, names defined, parts bound, in order) compared with the scoping rules of the language; "
     "resolution of paths, keywords and jump targets over all shapes of scope chains",
     note="Scope chains are covered by shape up to six levels; the operations only look at one level at a time. Names after the first of a path (members) are P03/P20; private struct members and the private members of a module used through its name are not protected by the compiler and not claimed.")

prop("P28", "Exceptions reach the catch or the caller they belong to",
     "When a call raises an exception, the expression it is the operand of a catch of continues with that catch's block, which sees the exception as ex!, and otherwise the enclosing function or closure returns the "
     "exception, as an exception of its own result type; when the call does not raise, the expression has the value the call returned and the catch block is not executed. The exceptions of calls "
     "in the callee or the arguments of a caught call, in the catch block, and in the body of a closure are not the caught call's. A catch is accepted only on an expression that may raise, a block that neither yields nor "
     "leaves only if the expression has no value, and every yielded value only if it converts to the expression's type; a catch nested in the block of another has its own result, exception and value. A raising call that is not caught "
     "is rejected in a function whose result type does not say that it raises, and so is raise; raise accepts exceptions only.",
     ["programs", "nesting of catches, calls and closures"], "every combination of raising or not, with or without value, caught or not, statement or operand, in a function that raises or not, on every path of the translation",
     "Tests raise from one call in one function; nested catches, raising arguments of caught calls, closures inside caught expressions and second yields each take another path of the translation.",
     ["src/cxy/lang/middle/sema/exception.c", "src/cxy/lang/middle/sema/call.c", "src/cxy/lang/middle/sema/binary.c", "src/cxy/lang/middle/sema/check.c", "src/cxy/lang/middle/sema/closure.c",
      "src/cxy/lang/middle/sema/function.c", "src/cxy/lang/middle/eval/macro.c", "src/cxy/lang/frontend/types.c"],
     [("checkCallExceptionBubbleUp, checkCatchBinaryOperator, exceptionVerifyRaiseExpr", "src/cxy/lang/middle/sema/exception.c"), ("checkYieldStmt, checkReturnStmt", "src/cxy/lang/middle/sema/check.c"),
      ("checkCallExpr", "src/cxy/lang/middle/sema/call.c"), ("checkBinaryExpr", "src/cxy/lang/middle/sema/binary.c"), ("isResultType, isExceptionType, getResultTargetType", "src/cxy/lang/frontend/types.c"),
      ("makeExNode", "src/cxy/lang/middle/eval/macro.c")],
     technique="abstract interpretation of the checker's exception functions with every type predicate left open and node constructors as terms: the nodes each path produces are matched with the translation its combination of cases requires; "
     "values of the checker's context at each recursive check; predicates on preset type heaps",
     note="The order of a hoisted call relative to the rest of its statement (the right operand of && and ||, loop conditions) and catch blocks that yield on some of their paths only are outside the rule; DESIGN.md lists what is known to fail there.")

prop("P27", "A switch or match runs the one arm that names the value",
     "No two cases of an accepted switch share a value and no two cases of an accepted match select the same member of the union, whatever their order and number, and there is at most one default. Every label of a switch is a "
     "literal, or a non-empty range of literals, of the kind of the pattern (integer, character, boolean or the same enum) and in the range of its type; a label that is not, or can never match, is rejected, and one that is, is accepted. Every case "
     "of a match names a member of the matched union (or of the union that is pointed to), its label in the generated code is that member's tag and its variable reads that member. Cases joined by a comma run the body that follows; a case with an empty "
     "body runs nothing. All cases are kept, in the generated C as well, and a range stands for all its values including both ends.",
     ["programs", "labels: all values and ranges of a small domain, all boundaries of the integer types", "the order and number of cases"],
     "every relation of two labels or ranges, every boundary of every pattern type, every combination of up to four cases, defaults, compile-time cases and erroneous cases",
     "Duplicate labels are found by sorting and comparing neighbours: whether one is missed depends on the order the labels are written in and on the mix of ranges and values, of which a test samples one.",
     ["src/cxy/lang/middle/sema/switch.c", "src/cxy/lang/middle/sema/match.c", "src/cxy/lang/middle/simplify/simplify.c", "src/cxy/lang/frontend/ttable.c", "src/cxy/lang/frontend/types.c", "src/cxy/lang/frontend/parser.c"],
     [("compareLiteralNode, checkDuplicateCaseMatches, checkCaseStmt, checkSwitchStmt", "src/cxy/lang/middle/sema/switch.c"), ("checkMatchCaseStmt, checkMatchStmt", "src/cxy/lang/middle/sema/match.c"),
      ("visitMatchStmt", "src/cxy/lang/middle/simplify/simplify.c"), ("isIntegerTypeInRange", "src/cxy/lang/frontend/ttable.c"), ("getIntegerTypeMinMax, findUnionTypeIndex", "src/cxy/lang/frontend/types.c"),
      ("caseStatement, matchCaseStatement", "src/cxy/lang/frontend/parser.c")],
     technique="abstract interpretation of the checks of labels, cases, switch and match on preset statements with concrete types; the comparison of labels evaluated on all pairs of a small domain against the order of the value sets; "
     "the translation of match followed from member to tag; paths of the case parsers",
     note="The printed form of switch and case in C is P11's rule. Conversions between kinds of primitive types (a character label on an integer pattern) are left to P04. A value that no arm names, in a switch without default, aborts the program.")


prop("P12", "The same type is one type and different types are never mixed up",
     "Whenever a type is written, inferred or derived twice it is the same type, and two types that differ in any part - what a pointer, reference, optional, array, tuple, union or function is made of, their order and number, constness, the name and namespace of a declaration, the arguments of a generic - never stand for each other. A struct literal has the type of an earlier one exactly if the fields agree. The type table keeps what a type is made of in its own memory and never changes a type that is already there. Instances of a generic declaration and overloads have different names whenever their arguments differ, so that no two of them end up as one function or struct in the generated program, and those names are valid identifiers.",
     ["types", "type table", "generic arguments", "overloads"],
     "for every pair of types of a domain that has each kind of type and each of its parts varied (over 150 types, each built twice), for each constructor of the type table with the type new or already there, and for every sequence of up to two arguments (three for named and one-letter ones) of over 80 types",
     "A test meets the handful of types it spells; that two types collide only shows in a program that has both of them, and names run into each other only for particular pairs.",
     ["src/cxy/lang/frontend/ttable.c", "src/cxy/lang/middle/mangle.c", "src/cxy/lang/frontend/types.h"],
     [("compareTypes, hashType", "src/cxy/lang/frontend/ttable.c"), ("make*Type", "src/cxy/lang/frontend/ttable.c"), ("makeMangledName", "src/cxy/lang/middle/mangle.c")],
     technique="abstract interpretation of the comparison, hash, constructors and mangling of types on an enumerated domain of concrete types, with a structural equality as the oracle",
     note="The hash table is modelled by its contract (a search answers either way), so a hash is only required to agree on equal types. Spellings of more than three arguments are not enumerated. Whether instantiation asks for the right arguments is not decided here.")


prop("P23", "The compiler's tables lose, repeat and confuse nothing",
     "The hash tables behind names, types, strings, captures and compile-time members act as sets: an element that was inserted and not removed is found wherever its hash puts it and however many other elements share its hash or its bucket, "
     "one that was not inserted is not found, inserting an element that is there changes nothing, removing one removes nothing else and keeps every other element findable, enumeration visits each element once, and growing keeps all of them in memory that is "
     "large enough and frees the old one. A string of the string pool is shared exactly by equal strings - equal in all their characters, whatever their hashes - and is a terminated copy of what was given.",
     ["histories of a table", "hash values"],
     "every valid arrangement of up to four elements in a table of the smallest capacity (every probing chain, also across the end), each operation on each element and on an absent one of every home bucket, two long chains, every capacity, and all pairs of a set of strings one of which starts with the other",
     "Collisions depend on the hashes of the names of a program: which chains arise, whether one wraps around the end when an element of it is removed, or whether two names have the same 32-bit hash, no test controls.",
     ["src/cxy/core/htable.c", "src/cxy/core/strpool.c", "src/cxy/core/primes.h"],
     [("findInHashTable, insertInHashTable, removeFromHashTable, rehashTable", "src/cxy/core/htable.c"), ("makeStringSized, compareStrFind, compareStrInsert", "src/cxy/core/strpool.c"), ("nextPrime, modPrime", "src/cxy/core/primes.h")],
     technique="abstract interpretation of the operations of the hash table on every valid arrangement of a small table, with memory as cells and the comparison left to the analysis; what the table stands for afterwards is read back and "
     "compared with the set; the string pool's comparisons interpreted on pairs of strings with equal hashes",
     note="Tables beyond seven buckets are covered by two chains and by the capacities only (the operations see one chain at a time). Hash values themselves are not judged. The dynamic arrays, string builder, memory pool and open hash map (hmap.c) are not covered.")

prop("P30", "A compiled program computes what its source says",
     "For every accepted program and every input, the values the compiled program computes, the order of its effects and its output are those the language gives to the source.",
     ["programs", "inputs of the compiled program"], "every program, every input, every execution",
     "Tests run a few programs on one input each.",
     ["src/cxy/lang/middle", "src/cxy/lang/backend/c"], [("all passes", "src/cxy/lang/middle"), ("code generation", "src/cxy/lang/backend/c")],
     na="the language has no formal semantics to decide against, and the equivalence of a source program with the composition of fifteen rewriting passes and a C compiler is not a static property of the compiler's source in reach; the parts that are "
        "decidable per pass are claimed apart (P04, P09, P10, P11, P15, P27, P28: what is converted, folded, copied, printed, spelled, dispatched and raised)")

prop("P31", "Compiled programs release every object exactly once",
     "With --with-mm, every reference-counted object a compiled program allocates is freed exactly when the last reference to it goes away, on every path and whatever exceptions are raised, and no reference to a freed object is left.",
     ["programs", "executions"], "every program and every path of its execution",
     "Tests allocate and drop a few objects on straight paths.",
     ["src/cxy/lang/middle/mem", "src/cxy/runtime"], [("copies and drops", "src/cxy/lang/middle/mem/manage.c"), ("reference counts", "src/cxy/runtime")],
     na="the balance of reference counts is a property of the generated program's executions (aliases, moves through containers, cycles, exceptions); the pass that inserts copies and drops keeps no invariant of its own (no ownership in its types, "
        "known leaks in the stdlib's destructors) that the compiler's source could be checked against")

prop("P32", "Coroutines and threads of a compiled program do not lose wakeups",
     "A coroutine that waits for a descriptor, a deadline, a channel or a condition is resumed exactly once when it becomes ready, whatever the order of events, and threads of the pool never run one task twice or not at all.",
     ["schedules"], "every interleaving of events, timers and threads",
     "Tests run one schedule per execution and the event loop's order depends on the kernel.",
     ["src/cxy/runtime", "src/cxy/stdlib"], [("scheduler", "src/cxy/stdlib"), ("event loop", "src/cxy/runtime")],
     na="quantifies over schedules of the event loop and the kernel; the scheduler and the channels are written in cxy itself and in assembly context switches, for which no static analysis front end exists here, and lost wakeups need a model of epoll's runtime states "
        "that the source does not contain")

prop("P33", "The containers and codecs of the standard library are correct",
     "Vectors, hash maps, sets, lists, tries and strings of the standard library hold what was put into them under every sequence of operations; JSON, base64, URL and HTTP texts that are written are read back as the same value, and malformed ones are rejected.",
     ["inputs", "histories of operations"], "every sequence of operations and every byte string",
     "Tests perform a few operations on small containers and decode a few well-formed texts.",
     ["src/cxy/stdlib"], [("vector, hash, json, base64, http", "src/cxy/stdlib")],
     na="functional correctness over unbounded histories and data lengths, of code in the cxy language: the only front end for it is the compiler under test, and the invariants (probe sequences, growth, grammar round trips) are arithmetic over run-time lengths "
        "that no static argument in reach bounds")

prop("P26", "A call of a virtual function runs the override of the object's class",
     "A virtual function called through a reference to a base class or an interface runs the override of the most derived class of the object, for every depth of the class hierarchy, with the arguments and the object the caller gave.",
     ["programs", "class hierarchies"], "every shape of class hierarchy and every order in which virtual functions are introduced and overridden",
     "Tests derive once from a class that declares its virtual functions itself.",
     ["src/cxy/lang/middle/sema/class.c", "src/cxy/lang/backend/c/generate.c"], [("vtable construction", "src/cxy/lang/middle/sema/class.c")],
     na="not claimed: on the current tree the property is false beyond hierarchies of two levels (DESIGN.md lists six ways in which it fails; each needs a redesign of the vtable layout rather than a small repair), so that a check of it would "
        "only re-report one missing design")
